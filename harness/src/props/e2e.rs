//! C40: a client and a server connected back to back.
use super::client::{allowed, call, code_model, full_caps, op, void, OPS};
use super::hserver::{conf, live, Conf};
use crate::core::*;
use crate::gen::*;
use crate::http::fresh_ip;
use crate::srv::{self, Exp, Log, Out, Spec};
use crate::wire::{self, W};
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::{Error, TransportError};
use pmcp::server::transport::websocket::WebSocketServerBuilder;
use pmcp::shared::streamable_http::{StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::{StdioTransport, Transport, TransportMessage, WebSocketConfig, WebSocketTransport};
use pmcp::types::*;
use pmcp::Client;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::time::Duration;
use tokio::sync::mpsc;

/// An in-memory connection that carries the bytes the codec produces.
#[derive(Debug)]
struct Bytes {
    tx: mpsc::UnboundedSender<Vec<u8>>,
    rx: mpsc::UnboundedReceiver<Vec<u8>>,
}
#[async_trait]
impl Transport for Bytes {
    async fn send(&mut self, m: TransportMessage) -> Result<(), Error> {
        let b = StdioTransport::serialize_message(&m)?;
        self.tx.send(b).map_err(|_| TransportError::ConnectionClosed)?;
        tokio::task::yield_now().await;
        Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage, Error> {
        match self.rx.recv().await {
            Some(b) => StdioTransport::parse_message(&b),
            None => Err(TransportError::ConnectionClosed.into()),
        }
    }
    async fn close(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// calls in progress at the same time, each on a clone of the client
    Calls(Vec<(String, Value)>),
    Roots,
    /// a cancellation of a request that is not in progress
    Cancel(Value),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    info: Option<(String, String)>,
    caps: Value,
    http: Conf,
    /// the steps of each client
    clients: Vec<Vec<Step>>,
}
fn case(clients: usize, quick: bool) -> BoxedStrategy<Case> {
    (srv::spec(), prop::bool::weighted(0.8))
        .prop_map(move |(mut s, full)| {
            if full {
                let first = s.caps.as_ref().is_none_or(|c| c.1);
                let mut c = s.caps.take().map_or(json!({}), |c| c.0);
                for (k, v) in full_caps().as_object().unwrap() {
                    c[k] = v.clone();
                }
                s.caps = Some((c, first));
            }
            if quick {
                let mut hs: Vec<&mut srv::H> = s.tools.iter_mut().chain(s.prompts.iter_mut()).chain(s.sampling.iter_mut()).collect();
                if let Some((a, b)) = &mut s.resources {
                    hs.extend([a, b]);
                }
                for h in hs {
                    h.delay %= 6;
                }
            }
            s
        })
        .prop_flat_map(move |s| {
            let tools: Vec<String> = s.tools.iter().map(|t| t.name.clone()).chain(["a".to_string()]).collect();
            let prompts: Vec<String> = s.prompts.iter().map(|t| t.name.clone()).chain(["a".to_string()]).collect();
            let tool = (prop::sample::select(tools), jval()).prop_map(|(n, a)| ("tools/call".to_string(), json!({"name": n, "arguments": a})));
            let prompt = (prop::sample::select(prompts), vec((name(), text()), 0..3)).prop_map(|(n, a)| {
                let a: serde_json::Map<String, Value> = a.into_iter().map(|(k, v)| (k, json!(v))).collect();
                ("prompts/get".to_string(), json!({"name": n, "arguments": a}))
            });
            let one = prop_oneof![3 => tool, 2 => prompt, 4 => op()];
            let step = prop_oneof![
                6 => vec(one, 1..5).prop_map(Step::Calls),
                1 => Just(Step::Roots),
                1 => rid().prop_map(Step::Cancel),
            ];
            (Just(s), prop::option::of((text(), text())), wire::client_caps(), conf(), vec(vec(step, 1..6), 1..=clients))
                .prop_map(|(spec, info, caps, http, clients)| Case { spec, info, caps, http, clients })
        })
        .boxed()
}
/// What the caller must see, from what the handler gives for these arguments.
fn check(s: &Spec, m: &str, p: &Value, out: &Result<Value, Error>) -> Result<bool, Fail> {
    let w = json!({"jsonrpc": "2.0", "id": 0, "method": m, "params": p});
    let (exp, _, _) = srv::model(s, &w);
    let bad = || Err(Fail::new("outcome", format!("{m} {p}: the caller got {out:?}, expected {exp:?}")));
    match (&exp, out) {
        (Exp::Is(_), Ok(o)) if void(m) => return if *o == json!({}) { Ok(true) } else { bad() },
        (Exp::Is(e), Ok(o)) if e == o => {},
        (Exp::NoCompletion, Ok(o)) if o["completion"]["values"] == json!([]) => {},
        (Exp::Tool(e), Ok(o)) => {
            let t = &o["content"];
            let ok = t.as_array().is_some_and(|a| a.len() == 1 && a[0]["type"] == "text")
                && t[0]["text"].as_str().and_then(|x| serde_json::from_str::<Value>(x).ok()).as_ref() == Some(e)
                && o.get("isError").is_none_or(|b| b == &json!(false));
            if !ok {
                return bad();
            }
        },
        (Exp::Names(k, e), Ok(o)) => {
            let (mut e, mut n) = (e.clone(), o[*k].as_array().map(|a| a.iter().map(|t| t["name"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>()).unwrap_or_default());
            e.sort();
            e.dedup();
            n.sort();
            if e != n {
                return bad();
            }
        },
        (Exp::Fail(msg), Err(Error::Protocol { code, message, .. })) => {
            let own = srv::handler_code(s, &w).map(|c| code_model(i64::from(c)));
            let c = i64::from(code.as_i32());
            if !message.contains(msg.as_str()) || !((-32768..=-32000).contains(&c) || Some(c) == own) {
                return bad();
            }
            return Ok(false);
        },
        _ => return bad(),
    }
    Ok(true)
}
struct Seen {
    good: usize,
    bad: usize,
    refused: usize,
    at_once: usize,
    calls: Vec<(&'static str, usize, Value)>,
}
async fn drive<T: Transport + 'static>(c: &Case, steps: &[Step], t: T, limit: Duration) -> Result<Seen, Fail> {
    let s = &c.spec;
    let mut seen = Seen { good: 0, bad: 0, refused: 0, at_once: 0, calls: vec![] };
    let mut cl = match &c.info {
        Some((n, v)) => Client::with_info(t, Implementation { name: n.clone(), version: v.clone() }),
        None => Client::new(t),
    };
    let hang = |what: &str| Fail::new("timeout-call", format!("{what} does not return"));
    let init = tokio::time::timeout(limit, cl.initialize(ClientCapabilities::i(&c.caps))).await.map_err(|_| hang("initialize"))?;
    let init = init.map_err(|e| Fail::new("initialize", format!("{e}")))?;
    let caps = srv::caps_model(s);
    ensure_eq!(init.capabilities.o(), caps, "capabilities", "announced to the client");
    ensure_eq!(cl.get_server_capabilities().map(W::o), Some(caps.clone()), "capabilities", "as the client holds them");
    ensure_eq!(cl.get_server_version().map(W::o), Some(json!({"name": s.name, "version": s.version})), "server-info", "as the client holds it");
    for st in steps {
        match st {
            Step::Calls(ops) => {
                let each = ops.iter().map(|(m, p)| {
                    let one = cl.clone();
                    async move { call(&one, m, p).await }
                });
                let outs = tokio::time::timeout(limit, futures::future::join_all(each)).await.map_err(|_| hang(&format!("{ops:?}")))?;
                seen.at_once += usize::from(ops.len() > 1);
                for ((m, p), out) in ops.iter().zip(&outs) {
                    match allowed(&caps, m) {
                        Some(true) => {},
                        Some(false) => {
                            ensure!(out.is_err(), "not-refused", "{m} is not among {caps}: {out:?}");
                            seen.refused += 1;
                            continue;
                        },
                        None => continue,
                    }
                    if check(s, m, p, out)? {
                        seen.good += 1;
                    } else {
                        seen.bad += 1;
                    }
                    let w = json!({"id": 0, "method": m, "params": p});
                    seen.calls.extend(srv::model(s, &w).1);
                }
            },
            Step::Roots => {
                let r = tokio::time::timeout(limit, cl.send_roots_list_changed()).await.map_err(|_| hang("send_roots_list_changed"))?;
                match c.caps.get("roots").map(|r| r["listChanged"] == json!(true)) {
                    Some(ok) => ensure_eq!(r.is_ok(), ok, "roots", "roots change with {}: {r:?}", c.caps),
                    None => {},
                }
            },
            Step::Cancel(id) => {
                let r = tokio::time::timeout(limit, cl.cancel_request(&RequestId::i(id))).await.map_err(|_| hang("cancel_request"))?;
                ensure!(r.is_ok(), "cancel", "cancellation of {id}: {r:?}");
            },
        }
    }
    Ok(seen)
}
/// The handlers ran exactly as the callers asked.
fn finish(c: &Case, seen: Vec<Seen>, log: &Log) -> CaseResult {
    let key = |k: &str, i: usize, a: &Value| format!("{k} {i} {}", canon(a));
    let mut want: Vec<String> = seen.iter().flat_map(|s| s.calls.iter().map(|(k, i, a)| key(k, *i, a))).collect();
    let log = log.lock().unwrap();
    let mut got: Vec<String> = log.iter().map(|l| key(l.kind, l.idx, &l.arg)).collect();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "handler-calls", "handlers run");
    let sum = |f: fn(&Seen) -> usize| seen.iter().map(f).sum::<usize>();
    let errs = c.spec.tools.iter().filter(|t| matches!(t.out, Out::Err(..))).count();
    Ok(Info::nt(sum(|s| s.good) > 1 && !got.is_empty())
        .label(sum(|s| s.bad) > 0, "errors reach the caller")
        .label(sum(|s| s.refused) > 0, "refused for capability")
        .label(sum(|s| s.at_once) > 0, "calls at the same time")
        .label(errs > 0, "failing tools")
        .label(seen.len() > 1, "several clients"))
}
fn run_memory(c: &Case) -> CaseResult {
    vrt(async {
        let log: Log = am(vec![]);
        let (a, b) = (mpsc::unbounded_channel(), mpsc::unbounded_channel());
        let server = srv::build(&c.spec, &log);
        let task = tokio::spawn(server.run(Bytes { tx: a.0, rx: b.1 }));
        let r = drive(c, &c.clients[0], Bytes { tx: b.0, rx: a.1 }, Duration::from_secs(100_000)).await;
        task.abort();
        finish(c, vec![r?], &log)
    })
}
fn run_http(c: &Case) -> CaseResult {
    rrt(async {
        let l = live(c.http, &c.spec).await;
        let one = |steps| {
            let t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
                url: format!("http://{}/", l.addr).parse().unwrap(),
                extra_headers: vec![],
                auth_provider: None,
                session_id: None,
                enable_json_response: c.http.json,
                on_resumption_token: None,
            });
            drive(c, steps, t, Duration::from_secs(10))
        };
        let rs = futures::future::join_all(c.clients.iter().map(|s| one(s))).await;
        let seen = rs.into_iter().collect::<Result<Vec<_>, _>>()?;
        finish(c, seen, &l.log)
    })
}
fn run_ws(c: &Case) -> CaseResult {
    rrt(async {
        let log: Log = am(vec![]);
        let addr = std::net::SocketAddr::from((fresh_ip(), 9102));
        let mut st = WebSocketServerBuilder::new().bind_addr(addr).build();
        if let Err(e) = st.bind().await {
            fail!("timeout-bind", "bind: {e}");
        }
        let mut ct = WebSocketTransport::new(WebSocketConfig { url: format!("ws://{addr}/").parse().unwrap(), ..WebSocketConfig::default() });
        let (x, y) = match tokio::time::timeout(Duration::from_secs(10), futures::future::join(st.accept(), ct.connect())).await {
            Ok(x) => x,
            Err(_) => fail!("timeout-connect", "no connection"),
        };
        ensure!(x.is_ok() && y.is_ok(), "connect", "{x:?} {y:?}");
        let task = tokio::spawn(srv::build(&c.spec, &log).run(st));
        let r = drive(c, &c.clients[0], ct, Duration::from_secs(10)).await;
        task.abort();
        finish(c, vec![r?], &log)
    })
}
pub fn c40(c: &mut Ctx) {
    let _ = OPS;
    let rule = "several calls succeeded and a handler ran";
    c.check(sub("memory", 8000, rule), || case(1, false), run_memory);
    c.check(sub("http", 3000, rule).io(), || case(3, true), run_http);
    c.check(sub("websocket", 1000, rule).io(), || case(1, true), run_ws);
}
