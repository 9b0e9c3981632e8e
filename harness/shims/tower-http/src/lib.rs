//! Identity stand-ins: CORS headers, tracing and the static UI are not under test.
pub mod cors {
    #[derive(Clone, Copy, Debug)]
    pub struct Any;
    #[derive(Clone, Copy, Debug)]
    pub struct CorsLayer;
    impl CorsLayer {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            CorsLayer
        }
        pub fn allow_methods<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_origin<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_headers<T>(self, _: T) -> Self {
            self
        }
    }
    impl<S> tower_layer::Layer<S> for CorsLayer {
        type Service = S;
        fn layer(&self, s: S) -> S {
            s
        }
    }
}
pub mod trace {
    #[derive(Clone, Copy, Debug)]
    pub struct TraceLayer;
    impl TraceLayer {
        pub fn new_for_http() -> Self {
            TraceLayer
        }
    }
}
pub mod services {
    use std::convert::Infallible;
    use std::future::Ready;
    use std::path::Path;
    use std::task::{Context, Poll};

    use axum::http::StatusCode;
    use axum::response::{IntoResponse, Response};
    #[derive(Clone, Debug)]
    pub struct ServeFile;
    impl ServeFile {
        pub fn new<P: AsRef<Path>>(_: P) -> Self {
            ServeFile
        }
    }
    #[derive(Clone, Debug)]
    pub struct ServeDir;
    impl ServeDir {
        pub fn new<P: AsRef<Path>>(_: P) -> Self {
            ServeDir
        }
        pub fn not_found_service<T>(self, _: T) -> Self {
            self
        }
    }
    impl<B> tower_service::Service<axum::http::Request<B>> for ServeDir {
        type Response = Response;
        type Error = Infallible;
        type Future = Ready<Result<Response, Infallible>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, _: axum::http::Request<B>) -> Self::Future {
            std::future::ready(Ok((StatusCode::NOT_FOUND, "static").into_response()))
        }
    }
}
