use std::collections::BTreeMap;

use axum::body::Body;
use axum::extract::FromRequest;
use axum::http::{Request, StatusCode};
use axum::response::IntoResponse;
use common::http::{ApiError, Json};
use http_body_util::BodyExt;
use proputil::*;
use serde::{Deserialize, Serialize};
use tower_service::Service;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Inner {
    kind: String,
    values: Option<Vec<i64>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Doc {
    name: String,
    count: u32,
    ratio: Option<f64>,
    items: Vec<Inner>,
}
fn doc(s: &mut Src) -> Doc {
    Doc {
        name: s.string(5),
        count: s.below(1 << 32) as u32,
        ratio: s.opt(|s| s.range(-1000, 1000) as f64 / 8.0),
        items: s.vec(0, 3, |s| Inner { kind: s.string(3), values: s.opt(|s| s.vec(0, 3, |s| s.int())) }),
    }
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}
async fn read(r: axum::response::Response) -> (StatusCode, Vec<u8>) {
    let st = r.status();
    (st, r.into_body().collect().await.map(|b| b.to_bytes().to_vec()).unwrap_or_default())
}
fn error_shape(st: StatusCode, body: &[u8]) -> R {
    let j: serde_json::Value = serde_json::from_slice(body).map_err(|e| format!("error body is not JSON: {e}"))?;
    let e = &j["error"];
    ensure_eq!(e["status"].as_u64(), Some(st.as_u16() as u64), "status in the body {j}");
    ensure!(e["message"].as_str().is_some(), "no message in {j}");
    Ok(())
}
/// A body that fails after some chunks.
fn broken(chunks: Vec<Vec<u8>>) -> Body {
    let it = chunks
        .into_iter()
        .map(|c| Ok::<_, std::io::Error>(bytes::Bytes::from(c)))
        .chain(std::iter::once(Err(std::io::Error::new(std::io::ErrorKind::Other, "reset"))));
    Body::from_stream(futures::stream::iter(it))
}

pub fn c07(p: &mut Prop) {
    p.suite(
        "json-body",
        "valid, mutated, truncated, mistyped and interrupted request bodies; non-trivial: the body is rejected or has content",
        12000,
        300000,
        |s, c| {
            let d = doc(s);
            let mut body = serde_json::to_vec(&d).unwrap();
            let mut ct = Some("application/json");
            let mut want_ok = Some(true);
            let mut io = false;
            let kind = s.below(9);
            match kind {
                0 | 1 => {}
                2 => {
                    ct = *s.pick(&[None, Some("text/plain"), Some("application/jsonx"), Some("")]);
                    want_ok = Some(false);
                }
                3 => {
                    let n = s.us(0, body.len() - 1);
                    body.truncate(n);
                    want_ok = Some(false);
                }
                4 => {
                    for _ in 0..s.us(1, 3) {
                        let i = s.us(0, body.len() - 1);
                        body[i] = s.below(256) as u8;
                    }
                    want_ok = None;
                }
                5 => {
                    let mut j = serde_json::to_value(&d).unwrap();
                    let f = *s.pick(&["name", "count", "items"]);
                    if s.bool() {
                        j.as_object_mut().unwrap().remove(f);
                    } else {
                        j[f] = serde_json::Value::Null;
                    }
                    body = serde_json::to_vec(&j).unwrap();
                    want_ok = Some(false);
                }
                6 => {
                    let mut j = serde_json::to_value(&d).unwrap();
                    j[s.string(3).replace('\n', "") + "x"] = serde_json::json!(1);
                    body = serde_json::to_vec(&j).unwrap();
                    want_ok = Some(false);
                }
                7 => {
                    body = s.vec(0, 12, |s| s.below(256) as u8);
                    want_ok = Some(false);
                }
                _ => {
                    io = true;
                    want_ok = Some(false);
                }
            }
            c.label(format!("kind{kind}"));
            c.note(format!("{ct:?} {:?}", String::from_utf8_lossy(&body)));
            let mut req = Request::builder().method("POST").uri("/x");
            if let Some(t) = ct {
                req = req.header("content-type", t);
            }
            let b = if io { broken(body.chunks(7).map(|x| x.to_vec()).collect()) } else { Body::from(body.clone()) };
            let req = req.body(b).unwrap();
            let r: Result<Json<Doc>, ApiError> = rt().block_on(Json::<Doc>::from_request(req, &()));
            match r {
                Ok(Json(v)) => {
                    ensure!(want_ok != Some(false), "accepted as {v:?}");
                    let strict: Doc = serde_json::from_slice(&body).map_err(|e| format!("accepted what is not valid: {e}"))?;
                    ensure_eq!(v, strict, "value read");
                    c.nontrivial(!v.items.is_empty());
                    let (st, out) = rt().block_on(read(Json(v.clone()).into_response()));
                    ensure_eq!(st, StatusCode::OK, "status of a value");
                    ensure_eq!(serde_json::from_slice::<Doc>(&out).map_err(|e| e.to_string())?, v, "value written");
                }
                Err(e) => {
                    ensure!(want_ok != Some(true), "rejected: {e:?}");
                    ensure_eq!(e.status, StatusCode::BAD_REQUEST, "status of a rejected body");
                    c.nontrivial(true);
                    if kind == 6 || kind == 5 {
                        c.label(if e.fields.is_empty() { "without-field" } else { "with-field" });
                    }
                    if kind == 6 {
                        ensure!(!e.fields.is_empty(), "an unknown field is not named: {e:?}");
                    }
                    let (st, out) = rt().block_on(read(e.into_response()));
                    error_shape(st, &out)?;
                    ensure_eq!(st, StatusCode::BAD_REQUEST, "response status");
                }
            }
            Ok(())
        },
    );
    p.suite(
        "error-response",
        "every error constructor with generated texts and fields; non-trivial: has a message or fields",
        4000,
        40000,
        |s, c| {
            let msg = s.string(6);
            type F = fn(&str) -> ApiError;
            let all: [(F, u16); 7] = [
                (|m| ApiError::bad_request(m), 400),
                (|m| ApiError::unauthorized(m), 401),
                (|m| ApiError::forbidden(m), 403),
                (|m| ApiError::not_found(m), 404),
                (|m| ApiError::conflict(m), 409),
                (|m| ApiError::internal(m), 500),
                (|m| ApiError::unimplemented(m), 501),
            ];
            let (f, code) = *s.pick(&all);
            let mut e = f(&msg);
            let mut want = msg.clone();
            let fields: BTreeMap<String, String> = s.vec(0, 3, |s| (s.string(3), s.string(3))).into_iter().collect();
            if s.bool() {
                e = e.with_fields(fields.clone());
            } else {
                e = e.with_fields(fields.clone()).append_inner_message("inner".into());
                want = format!("{msg}: inner");
            }
            c.note(format!("{e:?}"));
            c.nontrivial(!msg.is_empty() || !fields.is_empty());
            let (st, out) = rt().block_on(read(e.into_response()));
            ensure_eq!(st.as_u16(), code, "status");
            error_shape(st, &out)?;
            let j: serde_json::Value = serde_json::from_slice(&out).unwrap();
            ensure_eq!(j["error"]["message"].as_str(), Some(want.as_str()), "message");
            let got: BTreeMap<String, String> = serde_json::from_value(j["error"]["fields"].clone()).unwrap_or_default();
            ensure_eq!(got, fields, "fields");
            Ok(())
        },
    );
}

pub fn c08(p: &mut Prop) {
    p.suite(
        "middleware-passthrough",
        "arbitrary request bodies, methods and response codes through the request middlewares; non-trivial: a body arrives",
        4000,
        60000,
        |s, c| {
            let body: Vec<u8> = if s.bool() { s.vec(0, 40, |s| s.below(256) as u8) } else { s.string(20).into_bytes() };
            let status = *s.pick(&[200u16, 201, 400, 404, 500]);
            let method = *s.pick(&["POST", "PUT", "OPTIONS", "DELETE"]);
            let chunked = s.bool();
            let fail = s.chance(1, 8);
            c.note(format!("{method} {status} chunked={chunked} fail={fail} {body:?}"));
            c.nontrivial(!body.is_empty());
            let mut app = axum::Router::new()
                .route(
                    "/e",
                    axum::routing::any(move |h: axum::http::HeaderMap, b: bytes::Bytes| async move {
                        let mut r = b.to_vec().into_response();
                        *r.status_mut() = StatusCode::from_u16(status).unwrap();
                        if let Some(v) = h.get("x-t") {
                            r.headers_mut().insert("x-t", v.clone());
                        }
                        r
                    }),
                )
                .layer(axum::middleware::from_fn(common::http::measure_request_response))
                .layer(axum::middleware::from_fn(common::http::print_request_response));
            let chunks: Vec<Vec<u8>> = body.chunks(5).map(|x| x.to_vec()).collect();
            let b = if fail {
                broken(chunks)
            } else if chunked {
                Body::from_stream(futures::stream::iter(
                    chunks.into_iter().map(|c| Ok::<_, std::io::Error>(bytes::Bytes::from(c))),
                ))
            } else {
                Body::from(body.clone())
            };
            let mut rb = Request::builder().method(method).uri("/e").header("x-t", "v1");
            if !chunked && !fail {
                rb = rb.header("content-length", body.len().to_string());
            }
            let req = rb.body(b).unwrap();
            ensure_eq!(
                common::http::content_length(req.headers()),
                if !chunked && !fail { Some(body.len() as u64) } else { None },
                "declared length"
            );
            let (st, out, h) = rt().block_on(async {
                let r = app.call(req).await.unwrap();
                let h = r.headers().get("x-t").map(|v| v.to_str().unwrap().to_string());
                let (a, b) = read(r).await;
                (a, b, h)
            });
            if fail {
                ensure_eq!(st, StatusCode::BAD_REQUEST, "status of an interrupted request");
            } else {
                ensure_eq!(st.as_u16(), status, "status passed through");
                ensure_eq!(out, body, "body passed through");
                ensure_eq!(h.as_deref(), Some("v1"), "headers passed through");
            }
            Ok(())
        },
    );
}
