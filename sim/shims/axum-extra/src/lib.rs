//! Stand-in for axum-extra: the bearer authorization header.
use axum::async_trait;
use axum::extract::FromRequestParts;
use axum::http::header;
use axum::http::request::Parts;
use axum::http::StatusCode;

pub mod headers {
    pub struct Authorization<C>(pub C);

    pub mod authorization {
        #[derive(Clone, Debug)]
        pub struct Bearer(pub(crate) String);

        impl Bearer {
            pub(crate) fn make(s: &str) -> Bearer {
                Bearer(s.to_string())
            }

            pub fn token(&self) -> &str {
                &self.0
            }
        }
    }
    pub use authorization::Bearer;

    impl<C> Authorization<C> {
        pub(crate) fn make(c: C) -> Self {
            Authorization(c)
        }
    }
}

pub struct TypedHeader<T>(pub T);

#[async_trait]
impl<S: Send + Sync> FromRequestParts<S> for TypedHeader<headers::Authorization<headers::Bearer>> {
    type Rejection = (StatusCode, &'static str);

    async fn from_request_parts(parts: &mut Parts, _s: &S) -> Result<Self, Self::Rejection> {
        parts
            .headers
            .get(header::AUTHORIZATION)
            .and_then(|v| v.to_str().ok())
            .and_then(|v| match v.split_once(' ') {
                Some((s, t)) if s.eq_ignore_ascii_case("bearer") => Some(t),
                _ => None,
            })
            .map(|t| TypedHeader(headers::Authorization::make(headers::Bearer::make(t))))
            .ok_or((StatusCode::BAD_REQUEST, "Header of type `authorization` was missing"))
    }
}
