//! The server's router over a fresh store, called as a client would call it.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

use axum::Router;
use chrono::Duration;
use chk_query::world::World;
use common::config::Config;
use http::{Method, Request};
use http_body_util::BodyExt;
use metadata::settings::Settings;
use metadata::MetadataProvider;
use platform::PlatformProvider;
use proputil::*;
use serde_json::Value as J;
use tower::ServiceExt;

pub const ACCESS_KEY: &str = "the key of access tokens";
pub const REFRESH_KEY: &str = "the key of refresh tokens";

pub fn e2s(e: impl std::fmt::Display) -> String {
    e.to_string()
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub json: Option<J>,
    pub text: String,
    pub cookies: BTreeMap<String, String>,
}
impl Resp {
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status)
    }
    pub fn j(&self) -> Result<&J, String> {
        self.json.as_ref().ok_or_else(|| format!("status {} without JSON: {:?}", self.status, self.text))
    }
    pub fn want(self, status: u16, what: &str) -> Result<Resp, String> {
        ensure!(self.status == status, "{what}: status {} instead of {status}: {}", self.status, self.short());
        Ok(self)
    }
    pub fn id(&self) -> Result<u64, String> {
        self.j()?["id"].as_u64().ok_or_else(|| format!("no id in {}", self.short()))
    }
    pub fn short(&self) -> String {
        self.text.chars().take(400).collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub method: &'static str,
    pub path: String,
    pub token: Option<String>,
    pub cookies: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
    /// the content type to claim instead of JSON
    pub ctype: Option<Option<&'static str>>,
}

pub struct Api {
    pub w: World,
    pub cfg: Config,
    router: Router,
    rt: tokio::runtime::Runtime,
}

pub fn config() -> Config {
    let mut cfg = Config::default();
    cfg.auth.access_token_duration = Duration::hours(1);
    cfg.auth.refresh_token_duration = Duration::days(1);
    cfg.misc.project_default_session_duration = Duration::seconds(1800);
    cfg.data.ui_path = "/nonexistent".into();
    cfg
}

impl Api {
    pub fn new(root: &Path) -> Result<Api, String> {
        Api::over(World::new(root)?)
    }
    pub fn over(w: World) -> Result<Api, String> {
        let cfg = config();
        let md = w.md().clone();
        md.settings
            .save(&Settings {
                auth_access_token: ACCESS_KEY.to_string(),
                auth_refresh_token: REFRESH_KEY.to_string(),
                ..Default::default()
            })
            .map_err(e2s)?;
        let router = Self::router(&w, &cfg);
        let rt = chk_query::req::rt();
        Ok(Api { w, cfg, router, rt })
    }
    fn router(w: &World, cfg: &Config) -> Router {
        let (md, db) = (w.md().clone(), w.db());
        let p = Arc::new(PlatformProvider::new(
            md.clone(),
            Arc::new(query::event_segmentation::EventSegmentationProvider::new(md.clone(), db.clone())),
            Arc::new(query::funnel::FunnelProvider::new(md.clone(), db.clone())),
            Arc::new(query::properties::PropertiesProvider::new(md.clone(), db.clone())),
            Arc::new(query::event_records::EventRecordsProvider::new(md.clone(), db.clone())),
            Arc::new(query::group_records::GroupRecordsProvider::new(md.clone(), db)),
            cfg.clone(),
        ));
        platform::http::attach_routes(Router::new(), &md, &p, cfg.clone())
    }
    pub fn md(&self) -> &Arc<MetadataProvider> {
        self.w.md()
    }
    pub fn raw(&self, c: &Call) -> Result<Resp, String> {
        let mut b = Request::builder().method(Method::from_bytes(c.method.as_bytes()).unwrap()).uri(&c.path);
        match &c.ctype {
            None if c.body.is_some() => b = b.header("content-type", "application/json"),
            Some(Some(t)) => b = b.header("content-type", *t),
            _ => {}
        }
        if let Some(t) = &c.token {
            b = b.header("authorization", t);
        }
        for (k, v) in &c.cookies {
            b = b.header("cookie", format!("{k}={v}"));
        }
        let req = b.body(axum::body::Body::from(c.body.clone().unwrap_or_default())).map_err(e2s)?;
        let r = guarded(|| {
            self.rt.block_on(async {
                let r = self.router.clone().oneshot(req).await.unwrap();
                let (parts, body) = r.into_parts();
                let b = body.collect().await.map_err(e2s)?.to_bytes();
                Ok::<_, String>((parts, b))
            })
        });
        let (parts, body) = match r {
            Ok(r) => r?,
            Err(e) => return Err(format!("{} {} {}: {e}", c.method, c.path, String::from_utf8_lossy(c.body.as_deref().unwrap_or_default()))),
        };
        let mut cookies = BTreeMap::new();
        for h in parts.headers.get_all("set-cookie") {
            let s = h.to_str().map_err(e2s)?;
            let kv = s.split(';').next().unwrap_or_default();
            if let Some((k, v)) = kv.split_once('=') {
                cookies.insert(k.to_string(), v.to_string());
            }
        }
        let text = String::from_utf8_lossy(&body).to_string();
        Ok(Resp { status: parts.status.as_u16(), json: serde_json::from_slice(&body).ok(), text, cookies })
    }
    pub fn call(&self, token: &str, method: &'static str, path: &str, body: Option<&J>) -> Result<Resp, String> {
        self.raw(&Call {
            method,
            path: path.to_string(),
            token: Some(format!("Bearer {token}")),
            body: body.map(|b| serde_json::to_vec(b).unwrap()),
            ..Default::default()
        })
    }
    pub fn get(&self, token: &str, path: &str) -> Result<Resp, String> {
        self.call(token, "GET", path, None)
    }
    pub fn post(&self, token: &str, path: &str, body: &J) -> Result<Resp, String> {
        self.call(token, "POST", path, Some(body))
    }
    pub fn put(&self, token: &str, path: &str, body: &J) -> Result<Resp, String> {
        self.call(token, "PUT", path, Some(body))
    }
    pub fn delete(&self, token: &str, path: &str) -> Result<Resp, String> {
        self.call(token, "DELETE", path, None)
    }
}


/// A token as the server makes them, for any account, organization, time and key.
pub fn token(account: u64, org: u64, ttl: i64, key: &str) -> String {
    sign(serde_json::json!({"exp": chrono::Utc::now().timestamp() + ttl, "accountId": account, "organizationId": org}), key, jsonwebtoken::Algorithm::HS512)
}
pub fn sign(claims: J, key: &str, alg: jsonwebtoken::Algorithm) -> String {
    let h = jsonwebtoken::Header { alg, ..Default::default() };
    jsonwebtoken::encode(&h, &claims, &jsonwebtoken::EncodingKey::from_secret(key.as_bytes())).unwrap()
}
pub fn refresh(account: u64, ttl: i64, key: &str) -> String {
    sign(serde_json::json!({"exp": chrono::Utc::now().timestamp() + ttl, "accountId": account}), key, jsonwebtoken::Algorithm::HS512)
}
