//! Stand-in for the tokio runtime as the server uses it: every task is a simulated thread, a wait in a
//! task blocks its thread. Nothing listens: see axum-serve.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Context;
use std::task::Poll;
use std::task::Wake;
use std::task::Waker;

struct Key(usize);
impl Wake for Key {
    fn wake(self: Arc<Self>) {
        simrt::wake(self.0)
    }
}

/// run a future on the calling simulated thread
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut key = Arc::new(Key(0));
    let addr = Arc::as_ptr(&key) as usize;
    Arc::get_mut(&mut key).unwrap().0 = addr;
    let waker = Waker::from(key);
    let mut cx = Context::from_waker(&waker);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                simrt::block(addr, None, "task");
            }
        }
    }
}

pub struct JoinHandle<T>(Option<simrt::JoinState<T>>);

#[derive(Debug)]
pub struct JoinError(String);
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JoinError {}

impl<T: Send + 'static> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;

    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(self.0.take().unwrap().join().map_err(|_| JoinError("task panicked".to_string())))
    }
}
impl<T> Unpin for JoinHandle<T> {}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    JoinHandle(Some(simrt::spawn("task", move || block_on(f))))
}

pub mod task {
    pub use super::spawn;
    pub use super::JoinError;
    pub use super::JoinHandle;

    pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        JoinHandle(Some(simrt::spawn("blocking", f)))
    }
}

pub mod time {
    pub async fn sleep(d: std::time::Duration) {
        simrt::sleep(d)
    }
}

pub mod net {
    pub struct TcpListener;
    impl TcpListener {
        pub async fn bind(_a: std::net::SocketAddr) -> std::io::Result<TcpListener> {
            Ok(TcpListener)
        }
    }
}

pub mod signal {
    pub mod unix {
        pub struct SignalKind;
        impl SignalKind {
            pub fn interrupt() -> Self {
                SignalKind
            }

            pub fn terminate() -> Self {
                SignalKind
            }
        }
        pub struct Signal;
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                std::future::pending().await
            }
        }
        pub fn signal(_k: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal)
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($t:tt)*) => {
        std::future::pending::<()>().await
    };
}
