//! axum with its server replaced: the service is handed to the simulation instead of a socket, and the
//! caller waits for ever, as a server does.
use std::convert::Infallible;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;

pub use axum::*;
use axum::body::Body;
use axum::http::Request;
use axum::http::Response;
use tower_service::Service;

pub type Call = Arc<
    dyn Fn(SocketAddr, Request<Body>) -> Pin<Box<dyn Future<Output = Response<Body>> + Send>> + Send + Sync,
>;

thread_local! {
    static SLOT: std::cell::RefCell<Option<Arc<Mutex<Option<Call>>>>> = const { std::cell::RefCell::new(None) };
}

/// the place where the next server started on this thread registers itself
pub fn listen(slot: Arc<Mutex<Option<Call>>>) {
    SLOT.with(|s| *s.borrow_mut() = Some(slot));
}

pub async fn serve<M, S>(_l: tokio_sim::net::TcpListener, make: M) -> io::Result<()>
where
    M: Service<SocketAddr, Response = S, Error = Infallible> + Clone + Send + 'static,
    M::Future: Send,
    S: Service<Request<Body>, Response = Response<Body>, Error = Infallible> + Send + 'static,
    S::Future: Send,
{
    let make = Mutex::new(make);
    let call: Call = Arc::new(move |a, r| {
        let mut m = make.lock().unwrap().clone();
        Box::pin(async move {
            let mut s = m.call(a).await.unwrap();
            std::future::poll_fn(|cx| s.poll_ready(cx)).await.unwrap();
            s.call(r).await.unwrap()
        })
    });
    let slot = SLOT.with(|s| s.borrow().clone()).expect("no place to listen");
    let key = Arc::as_ptr(&slot) as usize;
    *slot.lock().unwrap() = Some(call);
    simrt::wake(key);
    loop {
        simrt::block(key + 1, None, "serve");
    }
}
