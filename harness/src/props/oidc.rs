//! C38 OIDC discovery and token clients against a scripted loopback server.
use crate::core::*;
use crate::gen::*;
use crate::http::*;
use crate::{ensure, ensure_eq, fail};
use base64::{engine::general_purpose::STANDARD, Engine as _};
use pmcp::client::auth::{OidcDiscoveryClient, TokenExchangeClient};
use pmcp::{Error, ErrorCode};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn doc() -> BoxedStrategy<Value> {
    let list = || arr(vtext(), 3);
    obj(vec![
        ("issuer", vtext(), true),
        ("authorization_endpoint", vtext(), true),
        ("token_endpoint", vtext(), true),
        ("jwks_uri", vtext(), false),
        ("userinfo_endpoint", vtext(), false),
        ("registration_endpoint", vtext(), false),
        ("revocation_endpoint", vtext(), false),
        ("introspection_endpoint", vtext(), false),
        ("response_types_supported", arr(pick(&["code", "token"]), 2), true),
        ("grant_types_supported", arr(pick(&["authorization_code", "refresh_token", "client_credentials", "password"]), 4), true),
        ("scopes_supported", list(), true),
        ("token_endpoint_auth_methods_supported", list(), true),
        ("code_challenge_methods_supported", list(), true),
    ])
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Out {
    Doc(u16, Value, Vec<(String, Value)>),
    Status(u16, String),
    Malformed(String),
    Missing(Value, String),
    Drop,
}
fn junk() -> BoxedStrategy<String> {
    prop_oneof![
        prop::sample::select(vec!["", "{", "null", "[]", "not json: network connection timeout CORS", "\"connection\"", "{\"issuer\":1}", "<html>network error</html>"]).prop_map(String::from),
        text().prop_filter("not an object", |t| serde_json::from_str::<Value>(t).is_err()),
    ]
    .boxed()
}
fn extra() -> BoxedStrategy<Vec<(String, Value)>> {
    vec(("x_[a-z]{1,5}", jval()), 0..3).boxed()
}
const REQUIRED: [&str; 8] = [
    "issuer",
    "authorization_endpoint",
    "token_endpoint",
    "response_types_supported",
    "grant_types_supported",
    "scopes_supported",
    "token_endpoint_auth_methods_supported",
    "code_challenge_methods_supported",
];
fn out() -> BoxedStrategy<Out> {
    let ok = || prop::sample::select(vec![200u16, 200, 200, 201, 206]);
    prop_oneof![
        4 => (ok(), doc(), extra()).prop_map(|(s, d, e)| Out::Doc(s, d, e)),
        2 => (prop::sample::select(vec![400u16, 401, 403, 404, 405, 408, 410, 418, 429, 500, 502, 503, 504, 511]), prop_oneof![3 => junk(), 2 => doc().prop_map(|d| d.to_string())]).prop_map(|(s, b)| Out::Status(s, b)),
        2 => junk().prop_map(Out::Malformed),
        1 => (doc(), prop::sample::select(REQUIRED.to_vec())).prop_map(|(d, k)| Out::Missing(d, k.to_string())),
        6 => Just(Out::Drop),
    ]
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DiscCase {
    path: String,
    slashes: usize,
    retries: usize,
    delay: u64,
    outs: Vec<Out>,
    closed: bool,
}
fn disc_case() -> BoxedStrategy<DiscCase> {
    (
        prop::sample::select(vec!["", "", "/oauth", "/a/b", "/network/connection", "/timeout", "/CORS", "/.well-known", "/a.b-c_d~e", "/realms/x%20y"]).prop_map(String::from),
        0usize..3,
        prop_oneof![1 => Just(0usize), 8 => 1usize..5],
        0u64..25,
        vec(out(), 5),
        prop::bool::weighted(0.08),
    )
        .prop_map(|(path, slashes, retries, delay, outs, closed)| DiscCase { path, slashes, retries, delay, outs, closed })
        .boxed()
}
fn act(o: &Out) -> Act {
    let js = [("Content-Type", "application/json")];
    match o {
        Out::Doc(s, d, x) => {
            let mut d = d.clone();
            for (k, v) in x {
                d[k.as_str()] = v.clone();
            }
            reply(*s, &js, d.to_string().as_bytes())
        },
        Out::Status(s, b) => reply(*s, &js, b.as_bytes()),
        Out::Malformed(b) => reply(200, &js, b.as_bytes()),
        Out::Missing(d, k) => {
            let mut d = d.clone();
            d.as_object_mut().unwrap().remove(k);
            reply(200, &js, d.to_string().as_bytes())
        },
        Out::Drop => Act::Drop,
    }
}
fn run_disc(c: &DiscCase) -> CaseResult {
    rrt(async {
        let cl = OidcDiscoveryClient::with_settings(c.retries, Duration::from_millis(c.delay));
        let tail = format!("{}{}", c.path, "/".repeat(c.slashes));
        if c.closed {
            // nothing listens: a connection failure at every attempt
            let l = tokio::net::TcpListener::bind((fresh_ip(), 0)).await.unwrap();
            let a = l.local_addr().unwrap();
            drop(l);
            let t = Instant::now();
            let r = cl.discover(&format!("http://{a}{tail}")).await;
            ensure!(r.is_err(), "discovery-from-nowhere", "discovery without a server returned {r:?}");
            let min = Duration::from_millis(c.delay * c.retries.saturating_sub(1) as u64);
            ensure!(t.elapsed() >= min, "connect-not-retried", "connection refused, {} attempts allowed {} ms apart, gave up after {:?}", c.retries, c.delay, t.elapsed());
            return Ok(Info::nt(c.retries > 1).label(true, "connection refused"));
        }
        let outs = c.outs.clone();
        let s = Scripted::start(move |n, _| outs.get(n).map(act).unwrap_or(Act::Drop)).await;
        let r = cl.discover(&s.url(&tail)).await;
        let seen = s.seen();
        // model
        let mut want: Option<&Value> = None;
        let mut n = 0;
        let mut retried = false;
        while n < c.retries {
            let o = &c.outs[n];
            n += 1;
            match o {
                Out::Doc(_, d, _) => {
                    want = Some(d);
                    break;
                },
                Out::Status(st, _) if *st < 500 => break,
                Out::Status(..) => {
                    // whether a server error is transient is left open
                    if seen.len() == n {
                        break;
                    }
                },
                Out::Malformed(_) | Out::Missing(..) => break,
                Out::Drop => retried = true,
            }
        }
        ensure_eq!(seen.len(), n, "attempts", "requests made (at most {} allowed) for replies {:?}", c.retries, c.outs);
        for q in &seen {
            ensure!(q.method == "GET" && q.path == format!("{}/.well-known/openid-configuration", c.path), "discovery-request", "issuer path {tail:?}: requested {} {}", q.method, q.path);
            ensure!(q.h("accept").is_some_and(|a| a.contains("application/json")), "discovery-accept", "Accept is {:?}", q.h("accept"));
            ensure!(q.body.is_empty(), "discovery-body", "discovery request has a body");
        }
        for w in seen.windows(2) {
            let gap = w[1].at - w[0].at;
            // the request is stamped when it has arrived, i.e. up to a scheduling delay late
            ensure!(gap + Duration::from_millis(5) >= Duration::from_millis(c.delay), "timeout-retry-delay", "retried after {gap:?}, configured delay {} ms", c.delay);
        }
        match (want, r) {
            (Some(d), Ok(m)) => {
                let got = serde_json::to_value(&m).unwrap();
                ensure_eq!(canon(&got), canon(d), "discovery-document", "discovered document");
            },
            (None, Err(_)) => {},
            (Some(_), Err(e)) => fail!("discovery-lost", "a valid document was served but discover failed: {e}"),
            (None, Ok(m)) => fail!("discovery-from-nothing", "no valid document was served but discover returned {m:?}"),
        }
        Ok(Info::nt(n > 1).label(retried && want.is_some(), "succeeded after a transient failure").label(c.retries == 0, "no attempt allowed"))
    })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TokCase {
    refresh: bool,
    a: String,
    client_id: String,
    secret: Option<String>,
    b: String,
    opt: Option<String>,
    path: String,
    out: TokOut,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum TokOut {
    Ok(u16, Value, Vec<(String, Value)>),
    Status(u16, String),
    Malformed(String),
    Missing(Value, String),
    Drop,
}
fn token() -> BoxedStrategy<Value> {
    obj(vec![
        ("access_token", vtext(), true),
        ("token_type", prop_oneof![pick(&["Bearer", "bearer", "DPoP"]), vtext()].boxed(), true),
        ("expires_in", prop_oneof![(0u64..100_000).prop_map(Value::from), any::<u64>().prop_map(Value::from)].boxed(), false),
        ("refresh_token", vtext(), false),
        ("scope", vtext(), false),
    ])
}
fn tok_case() -> BoxedStrategy<TokCase> {
    let out = prop_oneof![
        6 => (prop::sample::select(vec![200u16, 200, 201]), token(), extra()).prop_map(|(s, d, e)| TokOut::Ok(s, d, e)),
        3 => (prop::sample::select(vec![400u16, 401, 403, 404, 429, 500, 503]), prop_oneof![
            junk(),
            Just("{\"error\":\"invalid_grant\"}".to_string()),
            token().prop_map(|t| t.to_string()),
        ]).prop_map(|(s, b)| TokOut::Status(s, b)),
        2 => junk().prop_map(TokOut::Malformed),
        2 => (token(), prop::sample::select(vec!["access_token", "token_type"])).prop_map(|(d, k)| TokOut::Missing(d, k.to_string())),
        1 => Just(TokOut::Drop),
    ];
    (any::<bool>(), text(), text(), prop::option::of(text()), text(), prop::option::of(text()), prop::sample::select(vec!["/token", "/oauth2/token?tenant=a%20b", "/"]), out)
        .prop_map(|(refresh, a, client_id, secret, b, opt, path, out)| TokCase { refresh, a, client_id, secret, b, opt, path: path.into(), out })
        .boxed()
}
fn run_tok(c: &TokCase) -> CaseResult {
    rrt(async {
        let o = c.out.clone();
        let js = [("Content-Type", "application/json")];
        let s = Scripted::start(move |_, _| match &o {
            TokOut::Ok(st, d, x) => {
                let mut d = d.clone();
                for (k, v) in x {
                    d[k.as_str()] = v.clone();
                }
                reply(*st, &js, d.to_string().as_bytes())
            },
            TokOut::Status(st, b) => reply(*st, &js, b.as_bytes()),
            TokOut::Malformed(b) => reply(200, &js, b.as_bytes()),
            TokOut::Missing(d, k) => {
                let mut d = d.clone();
                d.as_object_mut().unwrap().remove(k);
                reply(200, &js, d.to_string().as_bytes())
            },
            TokOut::Drop => Act::Drop,
        })
        .await;
        let cl = TokenExchangeClient::new();
        let url = s.url(&c.path);
        let r = if c.refresh {
            cl.refresh_token(&url, &c.a, &c.client_id, c.secret.as_deref(), c.opt.as_deref()).await
        } else {
            cl.exchange_code(&url, &c.a, &c.client_id, c.secret.as_deref(), &c.b, c.opt.as_deref()).await
        };
        let seen = s.seen();
        ensure_eq!(seen.len(), 1, "token-requests", "requests made by one call");
        let q = &seen[0];
        ensure!(q.method == "POST" && q.path == c.path, "token-request", "requested {} {}", q.method, q.path);
        ensure!(q.h("content-type").is_some_and(|t| t.starts_with("application/x-www-form-urlencoded")), "token-content-type", "Content-Type is {:?}", q.h("content-type"));
        ensure!(q.h("accept").is_some_and(|a| a.contains("application/json")), "token-accept", "Accept is {:?}", q.h("accept"));
        let mut got: Vec<(String, String)> = url::form_urlencoded::parse(&q.body).into_owned().collect();
        got.sort();
        let mut want: Vec<(String, String)> = if c.refresh {
            vec![("grant_type".into(), "refresh_token".into()), ("refresh_token".into(), c.a.clone()), ("client_id".into(), c.client_id.clone())]
        } else {
            vec![
                ("grant_type".into(), "authorization_code".into()),
                ("code".into(), c.a.clone()),
                ("client_id".into(), c.client_id.clone()),
                ("redirect_uri".into(), c.b.clone()),
            ]
        };
        if let Some(o) = &c.opt {
            want.push((if c.refresh { "scope" } else { "code_verifier" }.into(), o.clone()));
        }
        want.sort();
        ensure_eq!(got, want, "token-form", "form fields (refresh: {})", c.refresh);
        match (&c.secret, q.all("authorization").as_slice()) {
            (None, []) => {},
            (Some(sec), [h]) => {
                let raw = h.strip_prefix("Basic ").and_then(|b| STANDARD.decode(b).ok()).and_then(|b| String::from_utf8(b).ok());
                let plain = format!("{}:{}", c.client_id, sec);
                let enc = format!("{}:{}", urlencoding::encode(&c.client_id), urlencoding::encode(sec));
                ensure!(raw.as_deref() == Some(&plain) || raw.as_deref() == Some(&enc), "token-auth", "client authentication is {h:?} ({raw:?})");
            },
            (sec, hs) => fail!("token-auth", "secret {sec:?} but Authorization headers {hs:?}"),
        }
        match (&c.out, r) {
            (TokOut::Ok(_, d, _), Ok(t)) => {
                ensure_eq!(canon(&serde_json::to_value(&t).unwrap()), canon(d), "token-fields", "token returned");
            },
            (TokOut::Ok(..), Err(e)) => fail!("token-lost", "a valid token was served but the call failed: {e}"),
            (_, Ok(t)) => fail!("token-from-nothing", "no valid token was served but the call returned {t:?}"),
            (TokOut::Status(_, b), Err(e)) => {
                ensure!(matches!(&e, Error::Protocol { code, .. } if *code == ErrorCode::INVALID_REQUEST), "token-error-kind", "error status reported as {e:?}");
                ensure!(e.to_string().contains(b.as_str()), "token-error-text", "the server's explanation {b:?} is not in {e}");
            },
            (_, Err(_)) => {},
        }
        Ok(Info::nt(c.secret.is_some() && c.opt.is_some()).label(matches!(c.out, TokOut::Ok(..)), "token issued").label(matches!(c.out, TokOut::Status(..)), "refused"))
    })
}
/// URLs that are not http(s) URLs at all: no request, an error.
fn run_bad(c: &(String, bool)) -> CaseResult {
    rrt(async {
        let r = if c.1 {
            OidcDiscoveryClient::with_settings(2, Duration::from_millis(1)).discover(&c.0).await.map(|_| json!(null))
        } else {
            TokenExchangeClient::new().refresh_token(&c.0, "r", "c", None, None).await.map(|_| json!(null))
        };
        ensure!(r.is_err(), "bad-url-accepted", "{:?} accepted", c.0);
        Ok(Info::nt(true))
    })
}
pub fn c38(c: &mut Ctx) {
    std::env::set_var("NO_PROXY", "*");
    c.check(sub("discovery", 4_000, "more than one attempt was made").io(), || disc_case(), run_disc);
    c.check(sub("token", 5_000, "client secret and optional field given").io(), || tok_case(), run_tok);
    c.check(sub("badurl", 60, "every case").io(), || (prop_oneof![text().prop_map(|t| t.replace(':', ".")), Just("ftp://127.0.0.1/x".to_string()), Just("http://".to_string())], any::<bool>()).boxed(), run_bad);
}
