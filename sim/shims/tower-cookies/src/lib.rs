//! Stand-in for tower-cookies over the cookie crate.
use std::sync::Arc;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;

use axum::async_trait;
use axum::body::Body;
use axum::http::header;
use axum::http::request::Parts;
use axum::http::HeaderValue;
use axum::http::Request;
use axum::http::Response;
use axum::http::StatusCode;
pub use cookie::Cookie;
use cookie::CookieJar;
use futures::future::BoxFuture;
use futures::FutureExt;

#[derive(Clone, Debug, Default)]
pub struct Cookies(Arc<Mutex<CookieJar>>);

impl Cookies {
    pub fn add(&self, c: Cookie<'static>) {
        self.0.lock().unwrap().add(c);
    }

    pub fn get(&self, name: &str) -> Option<Cookie<'static>> {
        self.0.lock().unwrap().get(name).cloned()
    }

    pub fn remove(&self, c: Cookie<'static>) {
        self.0.lock().unwrap().remove(c);
    }
}

#[async_trait]
impl<S: Sync> axum_core::extract::FromRequestParts<S> for Cookies {
    type Rejection = (StatusCode, &'static str);

    async fn from_request_parts(parts: &mut Parts, _s: &S) -> Result<Self, Self::Rejection> {
        parts
            .extensions
            .get::<Cookies>()
            .cloned()
            .ok_or((StatusCode::INTERNAL_SERVER_ERROR, "Can't extract cookies. Is `CookieManagerLayer` enabled?"))
    }
}

#[derive(Clone, Debug, Default)]
pub struct CookieManagerLayer;
impl CookieManagerLayer {
    pub fn new() -> Self {
        CookieManagerLayer
    }
}
impl<S> tower_layer::Layer<S> for CookieManagerLayer {
    type Service = CookieManager<S>;

    fn layer(&self, inner: S) -> Self::Service {
        CookieManager { inner }
    }
}

#[derive(Clone, Debug)]
pub struct CookieManager<S> {
    inner: S,
}

impl<S> tower_service::Service<Request<Body>> for CookieManager<S>
where
    S: tower_service::Service<Request<Body>, Response = Response<Body>> + Send,
    S::Future: Send + 'static,
{
    type Error = S::Error;
    type Future = BoxFuture<'static, Result<Response<Body>, S::Error>>;
    type Response = Response<Body>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.inner.poll_ready(cx)
    }

    fn call(&mut self, mut req: Request<Body>) -> Self::Future {
        let mut jar = CookieJar::new();
        for h in req.headers().get_all(header::COOKIE) {
            if let Ok(s) = h.to_str() {
                for c in Cookie::split_parse_encoded(s.to_string()).flatten() {
                    jar.add_original(c.into_owned());
                }
            }
        }
        let cookies = Cookies(Arc::new(Mutex::new(jar)));
        req.extensions_mut().insert(cookies.clone());
        let f = self.inner.call(req);
        async move {
            let mut r = f.await?;
            for c in cookies.0.lock().unwrap().delta() {
                if let Ok(v) = HeaderValue::from_str(&c.encoded().to_string()) {
                    r.headers_mut().append(header::SET_COOKIE, v);
                }
            }
            Ok(r)
        }
        .boxed()
    }
}
