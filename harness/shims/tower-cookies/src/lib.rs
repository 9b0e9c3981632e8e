//! Minimal tower-cookies: the request's cookies as an extension, changed ones sent back.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub use cookie::Cookie;
use cookie::CookieJar;

#[derive(Clone, Debug, Default)]
pub struct Cookies {
    jar: Arc<Mutex<CookieJar>>,
}
impl Cookies {
    pub fn add(&self, c: Cookie<'static>) {
        self.jar.lock().unwrap().add(c);
    }
    pub fn get(&self, name: &str) -> Option<Cookie<'static>> {
        self.jar.lock().unwrap().get(name).cloned()
    }
    pub fn remove(&self, c: Cookie<'static>) {
        self.jar.lock().unwrap().remove(c);
    }
}
#[async_trait::async_trait]
impl<S: Send + Sync> axum_core::extract::FromRequestParts<S> for Cookies {
    type Rejection = (http::StatusCode, &'static str);
    async fn from_request_parts(
        parts: &mut http::request::Parts,
        _: &S,
    ) -> Result<Self, Self::Rejection> {
        parts.extensions.get::<Cookies>().cloned().ok_or((
            http::StatusCode::INTERNAL_SERVER_ERROR,
            "Can't extract cookies. Is `CookieManagerLayer` enabled?",
        ))
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct CookieManagerLayer;
impl CookieManagerLayer {
    pub fn new() -> Self {
        CookieManagerLayer
    }
}
impl<S> tower_layer::Layer<S> for CookieManagerLayer {
    type Service = CookieManager<S>;
    fn layer(&self, inner: S) -> Self::Service {
        CookieManager { inner }
    }
}
#[derive(Clone, Debug)]
pub struct CookieManager<S> {
    inner: S,
}
impl<S, B, R> tower_service::Service<http::Request<B>> for CookieManager<S>
where
    S: tower_service::Service<http::Request<B>, Response = http::Response<R>>,
    S::Future: Send + 'static,
{
    type Response = S::Response;
    type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<S::Response, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.inner.poll_ready(cx)
    }
    fn call(&mut self, mut req: http::Request<B>) -> Self::Future {
        let cookies = Cookies::default();
        {
            let mut jar = cookies.jar.lock().unwrap();
            for h in req.headers().get_all(http::header::COOKIE) {
                if let Ok(s) = h.to_str() {
                    for c in Cookie::split_parse(s.to_string()).flatten() {
                        jar.add_original(c.into_owned());
                    }
                }
            }
        }
        req.extensions_mut().insert(cookies.clone());
        let fut = self.inner.call(req);
        Box::pin(async move {
            let mut resp = fut.await?;
            for c in cookies.jar.lock().unwrap().delta() {
                if let Ok(v) = http::HeaderValue::from_str(&c.to_string()) {
                    resp.headers_mut().append(http::header::SET_COOKIE, v);
                }
            }
            Ok(resp)
        })
    }
}
