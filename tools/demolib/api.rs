//! The server's router, called as a client would call it.
#![allow(dead_code)]
use std::sync::Arc;

use axum::Router;
use http::{Method, Request};
use http_body_util::BodyExt;
use metadata::settings::Settings;
use platform::PlatformProvider;
use serde_json::{json, Value as J};
use tower::ServiceExt;

use crate::world::World;

const ACCESS: &str = "the key of access tokens";
pub struct Api {
    pub w: World,
    router: Router,
    rt: tokio::runtime::Runtime,
}
impl Api {
    pub fn new(w: World) -> Api {
        let mut cfg = common::config::Config::default();
        cfg.auth.access_token_duration = chrono::Duration::hours(1);
        cfg.auth.refresh_token_duration = chrono::Duration::days(1);
        cfg.misc.project_default_session_duration = chrono::Duration::seconds(1800);
        cfg.data.ui_path = "/nonexistent".into();
        let (md, db) = (w.md.clone(), w.db.clone());
        md.settings.save(&Settings {
            auth_access_token: ACCESS.to_string(),
            auth_refresh_token: "the key of refresh tokens".to_string(),
            ..Default::default()
        }).unwrap();
        let p = Arc::new(PlatformProvider::new(
            md.clone(),
            Arc::new(query::event_segmentation::EventSegmentationProvider::new(md.clone(), db.clone())),
            Arc::new(query::funnel::FunnelProvider::new(md.clone(), db.clone())),
            Arc::new(query::properties::PropertiesProvider::new(md.clone(), db.clone())),
            Arc::new(query::event_records::EventRecordsProvider::new(md.clone(), db.clone())),
            Arc::new(query::group_records::GroupRecordsProvider::new(md.clone(), db)),
            cfg.clone(),
        ));
        let router = platform::http::attach_routes(Router::new(), &md, &p, cfg);
        Api { w, router, rt: tokio::runtime::Runtime::new().unwrap() }
    }
    /// An access token as the server signs them.
    pub fn token(account: u64, org: u64) -> String {
        let c = json!({"exp": chrono::Utc::now().timestamp() + 3000, "accountId": account, "organizationId": org});
        let h = jsonwebtoken::Header { alg: jsonwebtoken::Algorithm::HS512, ..Default::default() };
        jsonwebtoken::encode(&h, &c, &jsonwebtoken::EncodingKey::from_secret(ACCESS.as_bytes())).unwrap()
    }
    pub fn call(&self, token: &str, method: &str, path: &str, body: Option<J>) -> (u16, J) {
        let mut b = Request::builder().method(Method::from_bytes(method.as_bytes()).unwrap()).uri(path);
        if !token.is_empty() {
            b = b.header("authorization", format!("Bearer {token}"));
        }
        if body.is_some() {
            b = b.header("content-type", "application/json");
        }
        let req = b.body(axum::body::Body::from(body.map(|b| b.to_string()).unwrap_or_default())).unwrap();
        self.rt.block_on(async {
            let (parts, body) = self.router.clone().oneshot(req).await.unwrap().into_parts();
            let b = body.collect().await.unwrap().to_bytes();
            (parts.status.as_u16(), serde_json::from_slice(&b).unwrap_or(J::Null))
        })
    }
}
