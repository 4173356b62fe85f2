//! C06, C07, C08: the client.
use crate::core::*;
use crate::gen::*;
use crate::srv::delay;
use crate::wire::{self, W};
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::{Error, TransportError};
use pmcp::shared::{Transport, TransportMessage};
use pmcp::types::*;
use pmcp::Client;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;

/// Client end of an in-memory connection; the peer works with wire objects.
#[derive(Debug)]
pub struct Pipe {
    tx: mpsc::UnboundedSender<Value>,
    rx: mpsc::UnboundedReceiver<Result<Value, ()>>,
    fail_send: Arc<AtomicBool>,
    fail_notif: Arc<AtomicBool>,
}
#[async_trait]
impl Transport for Pipe {
    async fn send(&mut self, m: TransportMessage) -> Result<(), Error> {
        if self.fail_send.load(Ordering::SeqCst)
            || (self.fail_notif.load(Ordering::SeqCst) && matches!(m, TransportMessage::Notification(_)))
        {
            return Err(TransportError::Send("scripted".into()).into());
        }
        let _ = self.tx.send(wire::msg_o(&m));
        tokio::task::yield_now().await;
        Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage, Error> {
        match self.rx.recv().await {
            Some(Ok(w)) => Ok(wire::msg_i(&w, 0)),
            Some(Err(())) => Err(TransportError::Io("scripted".into()).into()),
            None => Err(TransportError::ConnectionClosed.into()),
        }
    }
    async fn close(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
pub struct Peer {
    pub tx: mpsc::UnboundedSender<Result<Value, ()>>,
    pub rx: mpsc::UnboundedReceiver<Value>,
    pub fail_send: Arc<AtomicBool>,
    pub fail_notif: Arc<AtomicBool>,
}
pub fn pipe() -> (Pipe, Peer) {
    let (a, b) = mpsc::unbounded_channel();
    let (c, d) = mpsc::unbounded_channel();
    let (fs, fnn) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    (
        Pipe { tx: a, rx: d, fail_send: fs.clone(), fail_notif: fnn.clone() },
        Peer { tx: c, rx: b, fail_send: fs, fail_notif: fnn },
    )
}
impl Peer {
    fn drain(&mut self) -> Vec<Value> {
        let mut v = vec![];
        while let Ok(x) = self.rx.try_recv() {
            v.push(x);
        }
        v
    }
}

pub const OPS: &[&str] = &[
    "ping", "logging/setLevel", "tools/list", "tools/call", "prompts/list", "prompts/get", "resources/list", "resources/templates/list",
    "resources/read", "resources/subscribe", "resources/unsubscribe", "completion/complete", "sampling/createMessage",
];
pub fn void(m: &str) -> bool {
    ["ping", "logging/setLevel", "resources/subscribe", "resources/unsubscribe"].contains(&m)
}
/// calls the client operation for a method with canonical wire params; the result as a wire object
pub async fn call<T: Transport>(c: &Client<T>, m: &str, p: &Value) -> Result<Value, Error> {
    let s = |k: &str| p[k].as_str().unwrap().to_string();
    let cur = || p["cursor"].as_str().map(String::from);
    Ok(match m {
        "ping" => {
            c.ping().await?;
            json!({})
        },
        "logging/setLevel" => {
            c.set_logging_level(W::i(&p["level"])).await?;
            json!({})
        },
        "tools/list" => c.list_tools(cur()).await?.o(),
        "tools/call" => c.call_tool(s("name"), p["arguments"].clone()).await?.o(),
        "prompts/list" => c.list_prompts(cur()).await?.o(),
        "prompts/get" => c.get_prompt(s("name"), W::i(&p["arguments"])).await?.o(),
        "resources/list" => c.list_resources(cur()).await?.o(),
        "resources/templates/list" => c.list_resource_templates(cur()).await?.o(),
        "resources/read" => c.read_resource(s("uri")).await?.o(),
        "resources/subscribe" => {
            c.subscribe_resource(s("uri")).await?;
            json!({})
        },
        "resources/unsubscribe" => {
            c.unsubscribe_resource(s("uri")).await?;
            json!({})
        },
        "completion/complete" => c.complete(W::i(p)).await?.o(),
        "sampling/createMessage" => c.create_message(W::i(p)).await?.o(),
        _ => panic!("{m}"),
    })
}
pub fn op() -> BoxedStrategy<(String, Value)> {
    prop::sample::select(OPS)
        .prop_flat_map(|m| wire::params(m).prop_map(move |p| (m.to_string(), p.unwrap_or(Value::Null))))
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Reply {
    Ok(Value),
    Err(Value),
    Junk(Value),
}
fn reply(m: &str) -> BoxedStrategy<Reply> {
    let ok = if void(m) { jval() } else { wire::result(m) };
    let junk = if void(m) {
        jval()
    } else {
        let req: &[&str] = match m {
            "initialize" => &["protocolVersion", "capabilities", "serverInfo"],
            "tools/list" => &["tools"],
            "tools/call" => &["content"],
            "prompts/list" => &["prompts"],
            "prompts/get" => &["messages"],
            "resources/list" => &["resources"],
            "resources/templates/list" => &["resourceTemplates"],
            "resources/read" => &["contents"],
            "completion/complete" => &["completion"],
            _ => &["content", "model"],
        };
        let scalars = prop_oneof![
            Just(Value::Null), int().prop_map(Value::from), text().prop_map(Value::from), any::<bool>().prop_map(Value::from)
        ];
        let retype = (ok.clone(), prop::sample::select(req), prop_oneof![Just(json!(7)), Just(Value::Null), Just(json!(true))])
            .prop_map(|(mut r, k, v)| {
                r[k] = v;
                r
            });
        let missing = (ok.clone(), prop::sample::select(req)).prop_map(|(mut r, k)| {
            // a tool result without content is an empty one
            if k == "content" && r.get("model").is_none() {
                return json!([r]);
            }
            r.as_object_mut().unwrap().remove(k);
            r
        });
        prop_oneof![scalars, retype, missing].boxed()
    };
    prop_oneof![4 => ok.prop_map(Reply::Ok), 2 => wire::error_wire().prop_map(Reply::Err), 1 => junk.prop_map(Reply::Junk)].boxed()
}
pub fn full_caps() -> Value {
    json!({"tools": {}, "prompts": {}, "resources": {"subscribe": true}, "logging": {}, "completions": {}, "sampling": {}})
}
fn init_reply(id: &Value, version: &str, caps: &Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": {"protocolVersion": version, "capabilities": caps, "serverInfo": {"name": "s", "version": "1"}}})
}
pub fn code_model(c: i64) -> i64 {
    match c {
        -32004..=-32001 => c,
        -32099..=-32000 => -32603,
        c => c,
    }
}
/// whether a client may send the method to a server with these capabilities; None: left open
pub fn allowed(sc: &Value, m: &str) -> Option<bool> {
    let sub = || sc.get("resources").is_some_and(|r| r.get("subscribe") == Some(&json!(true)));
    Some(match m {
        "ping" => true,
        "logging/setLevel" => sc.get("logging").is_some(),
        "tools/list" | "tools/call" => sc.get("tools").is_some(),
        "prompts/list" | "prompts/get" => sc.get("prompts").is_some(),
        "resources/subscribe" => sub(),
        "resources/unsubscribe" if sc.get("resources").is_some() && !sub() => return None,
        "completion/complete" => sc.get("completions").is_some(),
        "sampling/createMessage" => sc.get("sampling").is_some(),
        _ => sc.get("resources").is_some(),
    })
}
fn check_err(e: &Error, want: &Value, ctx: &str) -> Result<(), Fail> {
    match e {
        Error::Protocol { code, message, data } => {
            ensure_eq!(i64::from(code.as_i32()), code_model(want["code"].as_i64().unwrap()), "error-code", "{ctx}: code of {want}");
            ensure!(message == want["message"].as_str().unwrap(), "error-message", "{ctx}: {want} became {e:?}");
            ensure_eq!(data.clone().unwrap_or(Value::Null), want.get("data").cloned().unwrap_or(Value::Null), "error-data", "{ctx}");
            Ok(())
        },
        _ => fail!("error-kind", "{ctx}: peer error {want} became {e:?}"),
    }
}
/// run one client future while the peer answers whatever comes with `r`
async fn answered<F: std::future::Future>(f: F, peer: &mut Peer, r: impl Fn(&Value) -> Option<Value>) -> (Option<F::Output>, Vec<Value>) {
    let mut seen = vec![];
    let mut f = Box::pin(tokio::time::timeout(Duration::from_secs(3600), f));
    loop {
        tokio::select! {
            biased;
            m = peer.rx.recv() => {
                let m = m.expect("client dropped its transport");
                if let Some(x) = r(&m) { let _ = peer.tx.send(Ok(x)); }
                seen.push(m);
            },
            o = &mut f => {
                seen.extend(peer.drain());
                return (o.ok(), seen);
            },
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Calls {
    info: Option<(String, String)>,
    init: (Value, Value),
    calls: Vec<(String, Value, Reply, bool)>,
}
/// the ways to make a client of a transport
fn make(p: Pipe, way: usize) -> Client<Pipe> {
    match way % 4 {
        0 => Client::new(p),
        1 => Client::with_options(p, Implementation { name: "n".into(), version: "v".into() }, Default::default()),
        2 => pmcp::ClientBuilder::new(p).build(),
        _ => pmcp::ClientBuilder::new(p).enforce_strict_capabilities(false).debounced_notifications(vec!["notifications/progress".into()]).build(),
    }
}
pub fn c06(c: &mut Ctx) {
    c.check(
        sub("calls", 20_000, "at least one decoded result carrying data and one error or junk reply"),
        || {
            let one = op().prop_flat_map(|(m, p)| {
                let r = reply(&m);
                (Just(m), Just(p), r, any::<bool>())
            });
            let init = (wire::client_caps(), wire::result("initialize")).prop_map(|(c, mut r)| {
                r["protocolVersion"] = json!("2024-11-05");
                for (k, v) in full_caps().as_object().unwrap() {
                    r["capabilities"][k] = v.clone();
                }
                (c, r)
            });
            (prop::option::of((text(), text())), init, vec(one, 1..8)).prop_map(|(info, init, calls)| Calls { info, init, calls }).boxed()
        },
        |t: &Calls| {
            vrt(async {
                let (p, mut peer) = pipe();
                let info = t.info.as_ref().map(|(n, v)| Implementation { name: n.clone(), version: v.clone() });
                let mut cl = match info.clone() {
                    Some(i) if t.calls.len() % 2 == 0 => Client::with_info(p, i),
                    Some(i) => Client::with_options(p, i, Default::default()),
                    None => make(p, t.calls.len()),
                };
                let want = json!(t.init.1);
                let (r, seen) = answered(cl.initialize(ClientCapabilities::i(&t.init.0)), &mut peer, |m| {
                    m.get("id").map(|id| json!({"jsonrpc": "2.0", "id": id, "result": want}))
                })
                .await;
                let Some(r) = r else { fail!("hang", "initialize never returned") };
                let r = r.map_err(|e| Fail::new("init", e.to_string()))?;
                ensure!(r.o() == want, "init-result", "initialize returned {} for {want}", r.o());
                ensure!(seen.len() == 2 && seen[0]["method"] == "initialize" && seen[1]["method"] == "notifications/initialized", "handshake", "{seen:?}");
                ensure!(seen[0]["params"]["capabilities"] == t.init.0, "init-args", "sent {}", seen[0]);
                if let Some(i) = &info {
                    ensure!(seen[0]["params"]["clientInfo"] == i.o(), "init-args", "sent {}", seen[0]);
                }
                ensure!(pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&seen[0]["params"]["protocolVersion"].as_str().unwrap()), "init-args", "{}", seen[0]);
                let copy = cl.clone();
                for cl in [&cl, &copy] {
                    ensure_eq!(cl.get_server_capabilities().map(W::o), Some(want["capabilities"].clone()), "caps", "server capabilities");
                    ensure_eq!(cl.get_server_version().map(W::o), Some(want["serverInfo"].clone()), "server-info", "server info");
                    ensure_eq!(cl.get_instructions(), want.get("instructions").and_then(Value::as_str), "instructions", "instructions");
                }
                let mut ids = vec![seen[0]["id"].clone()];
                let (mut good, mut bad) = (0, 0);
                for (m, p, r, on_clone) in &t.calls {
                    let other = cl.clone();
                    let who = if *on_clone { &other } else { &cl };
                    let (out, seen) = answered(call(who, m, p), &mut peer, |w| {
                        w.get("id").map(|id| match r {
                            Reply::Ok(v) | Reply::Junk(v) => json!({"jsonrpc": "2.0", "id": id, "result": v}),
                            Reply::Err(e) => json!({"jsonrpc": "2.0", "id": id, "error": e}),
                        })
                    })
                    .await;
                    let Some(out) = out else { fail!("hang", "{m} never returned") };
                    ensure_eq!(seen.len(), 1, "messages", "messages sent by {m}");
                    let id = seen[0].get("id").cloned().unwrap_or(Value::Null);
                    let mut want = json!({"jsonrpc": "2.0", "id": id, "method": m});
                    if !p.is_null() {
                        want["params"] = p.clone();
                    }
                    ensure!(seen[0] == want, "sent", "{m} {p} sent {}", seen[0]);
                    ensure!(!ids.contains(&id), "id-reused", "id {id} was used before");
                    ids.push(id);
                    match (r, out) {
                        (Reply::Ok(v), Ok(o)) => {
                            let w = if void(m) { json!({}) } else { v.clone() };
                            ensure!(o == w, "result", "{m}: peer sent {v}, caller got {o}");
                            good += i32::from(w.as_object().is_some_and(|o| !o.is_empty()));
                        },
                        (Reply::Junk(_), Ok(_)) if void(m) => {},
                        (Reply::Ok(v), Err(e)) => fail!("result-rejected", "{m}: peer sent {v}, caller got error {e}"),
                        (Reply::Junk(v), Ok(o)) => fail!("junk-accepted", "{m}: undecodable result {v} was returned as {o}"),
                        (Reply::Junk(_), Err(_)) => bad += 1,
                        (Reply::Err(e), Ok(o)) => fail!("error-lost", "{m}: peer error {e} was returned as {o}"),
                        (Reply::Err(e), Err(g)) => {
                            check_err(&g, e, m)?;
                            bad += 1;
                        },
                    }
                }
                Ok(Info::nt(good > 0 && bad > 0).label(bad > 0, "error or junk reply"))
            })
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// client capabilities, server capabilities, version, kind of outcome
    Init(Value, Value, String, u8),
    Call(String, Value),
    Roots,
    Clone,
    /// scheme, token present, OAuth details present
    Auth(u8, bool, bool),
}
pub fn c07(c: &mut Ctx) {
    let steps = || {
        let ver = prop_oneof![
            6 => prop::sample::select(pmcp::SUPPORTED_PROTOCOL_VERSIONS.to_vec()).prop_map(String::from),
            2 => prop::sample::select(vec!["2024-11-04", "", "1.0", "2025-06-18 ", "2099-01-01", "DRAFT"]).prop_map(String::from),
            1 => text()
        ];
        let kind = prop_oneof![5 => Just(0u8), 1 => 1u8..7];
        vec(
            prop_oneof![
                2 => (wire::client_caps(), wire::server_caps(), ver, kind).prop_map(|(a, b, c, d)| Step::Init(a, b, c, d)),
                6 => op().prop_map(|(m, p)| Step::Call(m, p)),
                1 => Just(Step::Roots),
                1 => Just(Step::Clone),
                1 => (0u8..4, any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| Step::Auth(a, b, c)),
            ],
            1..16,
        )
        .boxed()
    };
    c.check(sub("lifecycle", 20_000, "a successful handshake with operations before and after it"), steps, |steps: &Vec<Step>| {
        vrt(async {
            let (p, mut peer) = pipe();
            let mut cl = make(p, steps.len());
            let mut caps: Option<Value> = None;
            let mut mine = json!({});
            let (mut pre, mut post, mut refused, mut failed) = (0, 0, 0, 0);
            for s in steps {
                match s {
                    Step::Clone => cl = cl.clone(),
                    Step::Auth(k, token, oauth) => {
                        use pmcp::types::auth::{AuthInfo, AuthScheme, OAuthInfo};
                        let scheme = [AuthScheme::None, AuthScheme::Bearer, AuthScheme::OAuth2, AuthScheme::Custom("x-key".into())];
                        let o = OAuthInfo { auth_url: "https://a/".into(), token_url: "https://t/".into(), client_id: "c".into(), scopes: None, redirect_uri: None, pkce_method: None };
                        let i = AuthInfo { scheme: scheme[*k as usize].clone(), token: token.then(|| "t".into()), oauth: oauth.then_some(o), params: Default::default() };
                        let r = cl.authenticate(&i);
                        let want = caps.is_some() && (*k != 1 || *token) && (*k != 2 || *oauth);
                        ensure_eq!(r.is_ok(), want, "authenticate", "authenticating with {i:?}, initialised: {}", caps.is_some());
                        tokio::task::yield_now().await;
                        ensure!(peer.rx.try_recv().is_err(), "authenticate-sent", "authenticating with {i:?} sent something");
                    },
                    Step::Init(cc, sc, ver, kind) => {
                        let already = caps.is_some();
                        peer.fail_send.store(*kind == 1, Ordering::SeqCst);
                        peer.fail_notif.store(*kind == 2, Ordering::SeqCst);
                        let tx = peer.tx.clone();
                        let (r, seen) = answered(cl.initialize(ClientCapabilities::i(cc)), &mut peer, |m| {
                            let id = m.get("id")?;
                            match kind {
                                3 => {
                                    let _ = tx.send(Err(()));
                                    None
                                },
                                4 => Some(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32000, "message": "no"}})),
                                5 => Some(json!({"jsonrpc": "2.0", "id": id, "result": {"protocolVersion": ver, "capabilities": sc}})),
                                6 => Some(json!({"jsonrpc": "2.0", "id": id, "result": 5})),
                                _ => Some(init_reply(id, ver, sc)),
                            }
                        })
                        .await;
                        peer.fail_send.store(false, Ordering::SeqCst);
                        peer.fail_notif.store(false, Ordering::SeqCst);
                        let Some(r) = r else { fail!("hang", "initialize never returned") };
                        let ms: Vec<&str> = seen.iter().map(|m| m["method"].as_str().unwrap()).collect();
                        if already {
                            ensure!(r.is_err(), "reinit", "a second handshake was accepted");
                            ensure!(seen.is_empty(), "reinit", "a refused handshake sent {ms:?}");
                            continue;
                        }
                        let ok = *kind == 0 && pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&ver.as_str());
                        ensure_eq!(r.is_ok(), ok, "handshake-outcome", "{s:?}");
                        let want: &[&str] = match kind {
                            1 => &[],
                            _ if ok => &["initialize", "notifications/initialized"],
                            _ => &["initialize"],
                        };
                        ensure!(ms == want, "handshake-messages", "{s:?} sent {ms:?}");
                        if ok {
                            caps = Some(sc.clone());
                            mine = cc.clone();
                        } else {
                            failed += 1;
                            ensure!(cl.get_server_capabilities().is_none(), "failed-handshake-state", "{s:?} left server capabilities behind");
                        }
                    },
                    Step::Call(m, p) => {
                        let (r, seen) = answered(call(&cl, m, p), &mut peer, |w| {
                            Some(json!({"jsonrpc": "2.0", "id": w.get("id")?, "error": {"code": 77, "message": "answered"}}))
                        })
                        .await;
                        let Some(r) = r else { fail!("hang", "{m} never returned") };
                        let Err(e) = r else { fail!("result", "{m} succeeded on an error reply") };
                        match &caps {
                            None => {
                                pre += 1;
                                ensure!(seen.is_empty(), "sent-before-handshake", "{m} sent {seen:?}");
                                ensure!(!e.to_string().contains("answered"), "before-handshake", "{e}");
                            },
                            Some(sc) => {
                                // without subscribe support either answer to an unsubscribe is defensible
                                let Some(allowed) = allowed(sc, m) else { continue };
                                post += 1;
                                if allowed {
                                    ensure!(seen.len() == 1 && seen[0]["method"] == json!(m), "not-sent", "{m} allowed by {sc}, sent {seen:?}: {e}");
                                    check_err(&e, &json!({"code": 77, "message": "answered"}), m)?;
                                } else {
                                    refused += 1;
                                    ensure!(seen.is_empty(), "sent-without-capability", "{m} not supported by {sc}, sent {seen:?}");
                                    ensure!(matches!(e, Error::UnsupportedCapability(_)), "capability-error", "{m} not supported by {sc}: {e:?}");
                                }
                            },
                        }
                    },
                    Step::Roots => {
                        let (r, seen) = answered(cl.send_roots_list_changed(), &mut peer, |_| None).await;
                        let Some(r) = r else { fail!("hang", "send_roots_list_changed never returned") };
                        let lc = mine.get("roots").map(|r| r["listChanged"] == json!(true));
                        match (caps.is_some(), lc) {
                            (false, _) | (true, Some(false)) => {
                                ensure!(r.is_err() && seen.is_empty(), "roots-refused", "roots change sent: {seen:?}, capabilities {mine}, ready {}", caps.is_some());
                            },
                            (true, Some(true)) => {
                                ensure!(r.is_ok() && seen.len() == 1 && seen[0]["method"] == "notifications/roots/list_changed", "roots-sent", "{r:?} {seen:?}");
                            },
                            (true, None) => {},
                        }
                    },
                }
            }
            Ok(Info::nt(caps.is_some() && pre > 0 && post > 0)
                .label(refused > 0, "refused for capability")
                .label(failed > 0, "failed handshake")
                .label(failed > 0 && caps.is_some(), "retry after failure"))
        })
    });
    c.check(
        sub("notify", 5_000, "a progress or cancellation message"),
        || (prop_oneof![Just("notifications/progress"), Just("notifications/cancelled")].prop_flat_map(|m| wire::params(m).prop_map(move |p| (m.to_string(), p.unwrap()))), any::<bool>()).boxed(),
        |((m, p), ready): &((String, Value), bool)| {
            vrt(async {
                let (pi, mut peer) = pipe();
                let mut cl = make(pi, m.len() + p.to_string().len());
                if *ready {
                    let (r, _) = answered(cl.initialize(ClientCapabilities::default()), &mut peer, |m| {
                        Some(init_reply(m.get("id")?, "2024-11-05", &json!({})))
                    })
                    .await;
                    ensure!(r.is_some_and(|r| r.is_ok()), "init", "handshake failed");
                }
                let (r, seen) = if m == "notifications/progress" {
                    answered(cl.send_progress(W::i(p)), &mut peer, |_| None).await
                } else {
                    let id = RequestId::i(&p["requestId"]);
                    answered(cl.cancel_request(&id), &mut peer, |_| None).await
                };
                let Some(Ok(())) = r else {
                    ensure!(!*ready, "notify", "{m} {p}: {r:?}");
                    return Ok(Info::nt(true));
                };
                ensure!(seen.len() == 1 && seen[0]["method"] == json!(m) && seen[0].get("id").is_none(), "notify", "{m} sent {seen:?}");
                if m == "notifications/progress" {
                    ensure!(seen[0]["params"] == *p, "notify", "{m} {p} sent {}", seen[0]);
                } else {
                    ensure!(seen[0]["params"]["requestId"] == p["requestId"], "notify", "cancelling {p} sent {}", seen[0]);
                }
                Ok(Info::nt(true))
            })
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Noise {
    Notif(Value),
    /// response to the k-th abandoned call, if there is one that has not been answered
    Stale(usize),
    ServerRequest(Value),
    Gap(u64),
}
async fn ready(peer: &mut Peer, cl: &mut Client<Pipe>) -> Result<(), Fail> {
    let (r, _) = answered(cl.initialize(ClientCapabilities::default()), peer, |m| Some(init_reply(m.get("id")?, "2024-11-05", &full_caps()))).await;
    ensure!(r.is_some_and(|r| r.is_ok()), "init", "handshake failed");
    Ok(())
}
fn tag(n: usize) -> Value {
    json!({"contents": [{"type": "text", "text": format!("answer {n}")}]})
}
fn untag(v: &Value) -> Option<usize> {
    v["contents"][0]["text"].as_str()?.strip_prefix("answer ")?.parse().ok()
}
pub fn c08(c: &mut Ctx) {
    c.check(
        sub("stray", 15_000, "something else arrived before the response of a call"),
        || {
            let noise = prop_oneof![
                3 => wire::notification_wire().prop_map(Noise::Notif),
                3 => (0usize..4).prop_map(Noise::Stale),
                1 => rid().prop_map(|id| Noise::ServerRequest(json!({"jsonrpc": "2.0", "id": id, "method": "roots/list"}))),
                1 => delay().prop_map(Noise::Gap),
            ];
            // noise, answered, cancelled when given up
            vec((vec(noise, 0..4), prop::bool::weighted(0.65), prop::bool::weighted(0.4)), 1..8).boxed()
        },
        |calls: &Vec<(Vec<Noise>, bool, bool)>| {
            vrt(async {
                let (p, mut peer) = pipe();
                let mut cl = make(p, calls.len());
                ready(&mut peer, &mut cl).await?;
                let mut abandoned: Vec<(Value, usize)> = vec![];
                let (mut noisy, mut stale, mut cancelled) = (0, 0, 0);
                for (n, (noise, answer, cancel)) in calls.iter().enumerate() {
                    let cl2 = cl.clone();
                    let h = tokio::spawn(async move {
                        tokio::time::timeout(Duration::from_secs(100), call(&cl2, "resources/read", &json!({"uri": n.to_string()}))).await
                    });
                    let m = tokio::time::timeout(Duration::from_secs(50), peer.rx.recv()).await;
                    let Ok(Some(m)) = m else { fail!("not-sent", "call {n} sent nothing") };
                    for x in noise {
                        match x {
                            Noise::Notif(w) | Noise::ServerRequest(w) => {
                                let _ = peer.tx.send(Ok(w.clone()));
                                noisy += 1;
                            },
                            Noise::Stale(k) => {
                                if !abandoned.is_empty() {
                                    let (id, t) = abandoned.remove(k % abandoned.len());
                                    let _ = peer.tx.send(Ok(json!({"jsonrpc": "2.0", "id": id, "result": tag(t)})));
                                    stale += 1;
                                }
                            },
                            Noise::Gap(d) => tokio::time::sleep(Duration::from_millis(*d)).await,
                        }
                    }
                    if *answer {
                        let _ = peer.tx.send(Ok(json!({"jsonrpc": "2.0", "id": m["id"], "result": tag(n)})));
                    } else {
                        abandoned.push((m["id"].clone(), n));
                    }
                    match h.await.unwrap() {
                        Err(_) => {
                            ensure!(!*answer, "lost-answer", "call {n} was answered but did not return");
                            if *cancel {
                                let id = RequestId::i(&m["id"]);
                                let (r, seen) = answered(cl.cancel_request(&id), &mut peer, |_| None).await;
                                ensure!(matches!(r, Some(Ok(()))), "cancel", "cancelling call {n}: {r:?}");
                                ensure!(seen.len() == 1 && seen[0]["method"] == "notifications/cancelled" && seen[0]["params"]["requestId"] == m["id"], "cancel", "cancelling call {n} sent {seen:?}");
                                cancelled += 1;
                            }
                        },
                        Ok(Ok(v)) => {
                            ensure_eq!(untag(&v), Some(n), "wrong-answer", "call {n} of {calls:?}");
                            ensure!(*answer, "wrong-answer", "call {n} was never answered but returned {v}");
                        },
                        Ok(Err(e)) => fail!("call-failed", "call {n} (answered: {answer}) failed: {e}"),
                    }
                }
                Ok(Info::nt(noisy + stale > 0).label(stale > 0, "late response to an abandoned call").label(cancelled > 0, "cancelled").label(noisy > 0, "notification in between"))
            })
        },
    );
    c.check(
        sub("concurrent", 10_000, "three or more calls in flight answered out of order"),
        || {
            (
                vec((0u64..40, prop::option::weighted(0.15, 1u64..400)), 1..8),
                vec((any::<u16>(), prop::option::of(wire::notification_wire()), prop::bool::weighted(0.1)), 20),
            )
                .boxed()
        },
        |(starts, picks): &(Vec<(u64, Option<u64>)>, Vec<(u16, Option<Value>, bool)>)| {
            vrt(async {
                let (p, mut peer) = pipe();
                let mut cl = make(p, starts.len());
                ready(&mut peer, &mut cl).await?;
                let hs: Vec<_> = starts
                    .iter()
                    .enumerate()
                    .map(|(n, (at, give_up))| {
                        let (cl, at, give_up) = (cl.clone(), *at, *give_up);
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(at)).await;
                            let args = json!({"uri": n.to_string()});
                            let f = call(&cl, "resources/read", &args);
                            tokio::time::timeout(give_up.map_or(Duration::from_secs(3600), Duration::from_millis), f).await
                        })
                    })
                    .collect();
                // the peer waits for a lull, then answers any one of the requests it holds
                let mut open: Vec<(Value, usize)> = vec![];
                let mut answered = vec![false; starts.len()];
                let (mut step, mut peak, mut ooo) = (0, 0, false);
                loop {
                    match tokio::time::timeout(Duration::from_millis(60), peer.rx.recv()).await {
                        Ok(Some(m)) => {
                            let n: usize = m["params"]["uri"].as_str().unwrap().parse().unwrap();
                            open.push((m["id"].clone(), n));
                        },
                        _ => {
                            peak = peak.max(open.len());
                            if open.is_empty() {
                                break;
                            }
                            let (k, noise, _) = &picks[step % picks.len()];
                            step += 1;
                            let i = *k as usize % open.len();
                            ooo |= i > 0;
                            let (id, n) = open.remove(i);
                            answered[n] = true;
                            if let Some(w) = noise {
                                let _ = peer.tx.send(Ok(w.clone()));
                            }
                            let _ = peer.tx.send(Ok(json!({"jsonrpc": "2.0", "id": id, "result": tag(n)})));
                        },
                    }
                }
                for (n, h) in hs.into_iter().enumerate() {
                    match h.await.unwrap() {
                        Ok(Ok(v)) => ensure_eq!(untag(&v), Some(n), "wrong-answer", "call {n} of {starts:?}"),
                        Ok(Err(e)) => fail!("call-failed", "call {n} failed: {e}"),
                        Err(_) => ensure!(starts[n].1.is_some(), "lost-answer", "call {n} (answered: {}) did not return", answered[n]),
                    }
                }
                Ok(Info::nt(peak >= 3 && ooo).label(ooo, "out of order").label(starts.iter().any(|s| s.1.is_some()), "gave up"))
            })
        },
    );
    c.check(
        sub("foreign", 500, "a response nobody asked for arrived first"),
        || (rid(), jval()).boxed(),
        |(id, v): &(Value, Value)| {
            vrt(async {
                let (p, mut peer) = pipe();
                let mut cl = Client::new(p);
                ready(&mut peer, &mut cl).await?;
                let (r, _) = {
                    let tx = peer.tx.clone();
                    answered(call(&cl, "resources/read", &json!({"uri": "u"})), &mut peer, move |m| {
                        let _ = tx.send(Ok(json!({"jsonrpc": "2.0", "id": id, "result": v})));
                        Some(json!({"jsonrpc": "2.0", "id": m.get("id")?, "result": tag(3)}))
                    })
                    .await
                };
                let Some(r) = r else { fail!("hang", "call never returned") };
                match r {
                    Ok(v) if untag(&v) == Some(3) => Ok(Info::nt(true)),
                    r => fail!("foreign-response-taken", "a response with the never-issued id {id} was taken for the answer: {r:?}"),
                }
            })
        },
    );
}
