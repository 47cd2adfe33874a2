//! Stand-in for tower-http: cross-origin headers and tracing are left out, static files are not served.
pub mod cors {
    #[derive(Clone, Copy, Debug)]
    pub struct Any;

    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer;

    impl CorsLayer {
        pub fn new() -> Self {
            CorsLayer
        }

        pub fn permissive() -> Self {
            CorsLayer
        }

        pub fn allow_methods<T>(self, _v: T) -> Self {
            self
        }

        pub fn allow_origin<T>(self, _v: T) -> Self {
            self
        }

        pub fn allow_headers<T>(self, _v: T) -> Self {
            self
        }

        pub fn allow_credentials(self, _v: bool) -> Self {
            self
        }
    }

    impl<S> tower_layer::Layer<S> for CorsLayer {
        type Service = S;

        fn layer(&self, inner: S) -> S {
            inner
        }
    }
}

pub mod trace {
    #[derive(Clone, Debug, Default)]
    pub struct TraceLayer;

    impl TraceLayer {
        pub fn new_for_http() -> Self {
            TraceLayer
        }
    }

    impl<S> tower_layer::Layer<S> for TraceLayer {
        type Service = S;

        fn layer(&self, inner: S) -> S {
            inner
        }
    }
}

pub mod services {
    use std::convert::Infallible;
    use std::future::ready;
    use std::future::Ready;
    use std::path::Path;
    use std::task::Context;
    use std::task::Poll;

    use axum::body::Body;
    use axum::http::Request;
    use axum::http::Response;

    fn none() -> Response<Body> {
        let mut r = Response::new(Body::empty());
        *r.status_mut() = axum::http::StatusCode::NOT_FOUND;
        r
    }

    #[derive(Clone, Debug)]
    pub struct ServeFile;
    impl ServeFile {
        pub fn new<P: AsRef<Path>>(_p: P) -> Self {
            ServeFile
        }
    }

    #[derive(Clone, Debug)]
    pub struct ServeDir;
    impl ServeDir {
        pub fn new<P: AsRef<Path>>(_p: P) -> Self {
            ServeDir
        }

        pub fn not_found_service<F>(self, _f: F) -> Self {
            self
        }

        pub fn fallback<F>(self, _f: F) -> Self {
            self
        }
    }

    macro_rules! svc {
        ($t:ty) => {
            impl<B> tower_service::Service<Request<B>> for $t {
                type Error = Infallible;
                type Future = Ready<Result<Response<Body>, Infallible>>;
                type Response = Response<Body>;

                fn poll_ready(&mut self, _cx: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
                    Poll::Ready(Ok(()))
                }

                fn call(&mut self, _r: Request<B>) -> Self::Future {
                    ready(Ok(none()))
                }
            }
        };
    }
    svc!(ServeDir);
    svc!(ServeFile);
}
