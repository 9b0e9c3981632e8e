//! Only `TypedHeader<Authorization<Bearer>>` (the `headers` crate cannot be fetched).
use axum_core::response::{IntoResponse, Response};
pub mod headers {
    pub mod authorization {
        #[derive(Clone, Debug, PartialEq)]
        pub struct Bearer(pub(crate) String);
        impl Bearer {
            pub fn token(&self) -> &str {
                &self.0
            }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Authorization<C>(pub C);
    impl<C> Authorization<C> {
        pub fn token(&self) -> &str
        where
            C: AsRef<authorization::Bearer>,
        {
            self.0.as_ref().token()
        }
    }
    impl AsRef<authorization::Bearer> for authorization::Bearer {
        fn as_ref(&self) -> &authorization::Bearer {
            self
        }
    }
    pub(crate) fn bearer(s: &str) -> Option<Authorization<authorization::Bearer>> {
        let (scheme, rest) = s.split_at_checked(7)?;
        if !scheme.eq_ignore_ascii_case("bearer ") {
            return None;
        }
        Some(Authorization(authorization::Bearer(rest.trim_start().to_string())))
    }
}
#[derive(Debug, Clone)]
pub struct TypedHeader<T>(pub T);
#[derive(Debug)]
pub struct TypedHeaderRejection;
impl std::fmt::Display for TypedHeaderRejection {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Header of type `authorization` was missing or malformed")
    }
}
impl std::error::Error for TypedHeaderRejection {}
impl IntoResponse for TypedHeaderRejection {
    fn into_response(self) -> Response {
        (http::StatusCode::BAD_REQUEST, self.to_string()).into_response()
    }
}
#[async_trait::async_trait]
impl<S: Send + Sync> axum_core::extract::FromRequestParts<S>
    for TypedHeader<headers::Authorization<headers::authorization::Bearer>>
{
    type Rejection = TypedHeaderRejection;
    async fn from_request_parts(
        parts: &mut http::request::Parts,
        _: &S,
    ) -> Result<Self, Self::Rejection> {
        parts
            .headers
            .get(http::header::AUTHORIZATION)
            .and_then(|h| h.to_str().ok())
            .and_then(headers::bearer)
            .map(TypedHeader)
            .ok_or(TypedHeaderRejection)
    }
}
