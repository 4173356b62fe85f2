//! C16 session lifecycle, C17 header rules, C18 delivery and replay of the streamable HTTP server,
//! against a live server on loopback driven by a raw HTTP client.
use crate::core::*;
use crate::gen::*;
use crate::http::*;
use crate::srv::{self, Log, Spec};
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore, StreamableHttpServer, StreamableHttpServerConfig};
use pmcp::shared::TransportMessage;
use pmcp::types::jsonrpc::JSONRPCResponse;
use pmcp::SUPPORTED_PROTOCOL_VERSIONS;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const WAIT: Duration = Duration::from_secs(8);

// ------------------------------------------------------------------ live server
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Conf {
    pub stateful: bool,
    pub json: bool,
    /// 0 none, 1 in memory, 2 in memory with pauses around every call
    store: u8,
    /// session ids: 0 the default generator, 1 short counters, 2 long mixed-case ones
    ids: u8,
}
pub fn conf() -> BoxedStrategy<Conf> {
    (prop::bool::weighted(0.85), any::<bool>(), 0u8..3, 0u8..3).prop_map(|(stateful, json, store, ids)| Conf { stateful, json, store, ids }).boxed()
}
struct Slow(InMemoryEventStore);
#[async_trait]
impl EventStore for Slow {
    async fn store_event(&self, s: &str, e: &str, m: &TransportMessage) -> pmcp::Result<()> {
        tokio::time::sleep(Duration::from_millis(2)).await;
        self.0.store_event(s, e, m).await?;
        tokio::time::sleep(Duration::from_millis(1)).await;
        Ok(())
    }
    async fn replay_events_after(&self, l: &str) -> pmcp::Result<Vec<(String, TransportMessage)>> {
        tokio::time::sleep(Duration::from_millis(2)).await;
        let r = self.0.replay_events_after(l).await;
        tokio::time::sleep(Duration::from_millis(4)).await;
        r
    }
    async fn get_stream_for_event(&self, e: &str) -> pmcp::Result<Option<String>> {
        tokio::task::yield_now().await;
        self.0.get_stream_for_event(e).await
    }
}
pub struct Live {
    pub addr: std::net::SocketAddr,
    /// ('+' or '-', session id) in the order the callbacks ran
    cb: A<Vec<(char, String)>>,
    pub log: Log,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Live {
    fn drop(&mut self) {
        self.task.abort();
    }
}
pub async fn live(c: Conf, s: &Spec) -> Live {
    let (cb, log): (A<Vec<(char, String)>>, Log) = (am(vec![]), am(vec![]));
    let server = srv::build(s, &log);
    let (a, b) = (cb.clone(), cb.clone());
    let n = AtomicU64::new(0);
    let mut cfg = StreamableHttpServerConfig {
        enable_json_response: c.json,
        on_session_initialized: Some(Box::new(move |s| a.lock().unwrap().push(('+', s.to_string())))),
        on_session_closed: Some(Box::new(move |s| b.lock().unwrap().push(('-', s.to_string())))),
        ..Default::default()
    };
    match c.store {
        0 => cfg.event_store = None,
        1 => {},
        _ => cfg.event_store = Some(Arc::new(Slow(InMemoryEventStore::default()))),
    }
    if !c.stateful {
        cfg.session_id_generator = None;
    } else if c.ids == 1 {
        cfg.session_id_generator = Some(Box::new(move || format!("{}", n.fetch_add(1, Ordering::SeqCst))));
    } else if c.ids == 2 {
        cfg.session_id_generator = Some(Box::new(move || format!("Sess/a+b=_~{}!", n.fetch_add(1, Ordering::SeqCst))));
    }
    let srv = StreamableHttpServer::with_config((fresh_ip(), 0).into(), Arc::new(tokio::sync::Mutex::new(server)), cfg);
    let (addr, task) = srv.start().await.unwrap();
    Live { addr, cb, log, task }
}
type Hd = Vec<(&'static str, Vec<u8>)>;
fn std_headers(method: &str, sid: Option<&str>) -> Hd {
    let mut h: Hd = vec![];
    if method == "POST" {
        h.push(("Content-Type", b"application/json".to_vec()));
        h.push(("Accept", b"application/json, text/event-stream".to_vec()));
    } else if method == "GET" {
        h.push(("Accept", b"text/event-stream".to_vec()));
    }
    if let Some(s) = sid {
        h.push(("Mcp-Session-Id", s.as_bytes().to_vec()));
    }
    h
}
fn io(e: String) -> Fail {
    Fail::new(if e.starts_with("timeout") { "timeout-http" } else { "http-io" }, e)
}
async fn send(l: &Live, method: &str, h: &Hd, body: &[u8]) -> Result<Resp, Fail> {
    let h: Vec<(&str, &[u8])> = h.iter().map(|(k, v)| (*k, &v[..])).collect();
    exchange(l.addr, method, "/", &h, body, WAIT).await.map_err(io)
}
async fn post(l: &Live, sid: Option<&str>, w: &Value) -> Result<Resp, Fail> {
    send(l, "POST", &std_headers("POST", sid), w.to_string().as_bytes()).await
}
async fn get(l: &Live, h: &Hd) -> Result<Stream, Fail> {
    let h: Vec<(&str, &[u8])> = h.iter().map(|(k, v)| (*k, &v[..])).collect();
    let o = open(l.addr, "GET", "/", &h, b"", WAIT).await.map_err(io)?;
    Ok(Stream { o, taken: 0 })
}
fn sids(r: &[(String, String)]) -> Vec<&str> {
    r.iter().filter(|(k, _)| k == "mcp-session-id").map(|(_, v)| v.as_str()).collect()
}
fn head<'a>(r: &'a [(String, String)], n: &str) -> Option<&'a str> {
    r.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
}
/// one SSE event: id, event name, data
type Ev = (Option<String>, Option<String>, String);
/// complete events of a stream body written by the server
fn events(b: &[u8]) -> Vec<Ev> {
    let t = String::from_utf8_lossy(b).replace("\r\n", "\n");
    let mut out = vec![];
    let Some(end) = t.rfind("\n\n") else { return out };
    for block in t[..end].split("\n\n") {
        let (mut id, mut ev, mut data): (_, _, Option<String>) = (None, None, None);
        for l in block.split('\n') {
            let (k, v) = l.split_once(':').unwrap_or((l, ""));
            let v = v.strip_prefix(' ').unwrap_or(v);
            match k {
                "id" => id = Some(v.to_string()),
                "event" => ev = Some(v.to_string()),
                "data" => data = Some(data.map_or_else(|| v.to_string(), |d| d + "\n" + v)),
                _ => {},
            }
        }
        if let Some(d) = data {
            out.push((id, ev, d));
        }
    }
    out
}
struct Stream {
    o: Open,
    taken: usize,
}
impl Stream {
    /// the next `n` events (or what came until the wait ran out)
    async fn next(&mut self, n: usize) -> Vec<Ev> {
        let end = Instant::now() + WAIT;
        loop {
            let e = events(&self.o.body());
            if e.len() >= self.taken + n || Instant::now() > end || !self.o.pump(Duration::from_millis(100)).await {
                let e: Vec<Ev> = events(&self.o.body()).into_iter().skip(self.taken).take(n).collect();
                self.taken += e.len();
                return e;
            }
        }
    }
    /// what is there after a short while
    async fn rest(&mut self, ms: u64) -> Vec<Ev> {
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() || !self.o.pump(left).await {
                break;
            }
        }
        let e: Vec<Ev> = events(&self.o.body()).into_iter().skip(self.taken).collect();
        self.taken += e.len();
        e
    }
    async fn ended(&mut self) -> bool {
        let end = Instant::now() + WAIT;
        while Instant::now() < end {
            if !self.o.pump(Duration::from_millis(200)).await {
                return true;
            }
        }
        false
    }
}
fn init_wire(id: Value, v: &str) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"protocolVersion": v, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}})
}
fn tool_wire(id: u64, name: &str) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "method": "tools/call", "params": {"name": name, "arguments": {"n": id}}})
}
fn tools_spec() -> Spec {
    let t = |n: &str, out| srv::H { name: n.into(), out, delay: 0 };
    Spec {
        name: "s".into(),
        version: "1".into(),
        caps: None,
        tools: vec![t("ok", srv::Out::Ok(json!({"r": 1}))), t("bad", srv::Out::Err(1, 0, "no".into()))],
        prompts: vec![],
        resources: None,
        sampling: None,
    }
}
/// The single message of an accepted POST reply: the JSON body or the one SSE event (with its id).
fn only(r: &Resp, json_mode: bool) -> Result<(Option<String>, Value), Fail> {
    let ct = r.h("content-type").unwrap_or("").to_string();
    let parse = |t: &str| serde_json::from_str::<Value>(t).map_err(|e| Fail::new("reply-body", format!("{e}: {t:?}")));
    if json_mode {
        ensure!(ct.starts_with("application/json"), "reply-type", "content type {ct:?} in JSON mode");
        return Ok((None, parse(&r.text())?));
    }
    ensure!(ct.starts_with("text/event-stream"), "reply-type", "content type {ct:?} in SSE mode");
    let e = events(&r.body);
    ensure_eq!(e.len(), 1, "reply-events", "events of a POST reply: {:?}", r.text());
    ensure!(matches!(e[0].1.as_deref(), None | Some("message")), "reply-event-name", "event {:?}", e[0].1);
    Ok((e[0].0.clone(), parse(&e[0].2)?))
}
fn answers(s: &Spec, w: &Value, got: &Value) -> Result<(), Fail> {
    ensure!(got["jsonrpc"] == "2.0", "reply-version", "{got}");
    let r: JSONRPCResponse = serde_json::from_value(got.clone()).map_err(|e| Fail::new("reply-form", format!("{e}: {got}")))?;
    srv::check_response(s, w, &r).map(|_| ())
}

// ------------------------------------------------------------------ C16
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Sid {
    None,
    /// a session that was created (live or ended), counted modulo their number
    Own(usize),
    /// variation of a real id, or an arbitrary one
    Odd(u8, usize, String),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Init(Sid, String),
    Post(Sid, u8),
    Note(Sid),
    Reply(Sid),
    /// open the stream, perhaps with a Last-Event-ID no event has
    Get(Sid, Option<String>),
    Hangup(usize),
    Delete(Sid),
}
fn sid() -> BoxedStrategy<Sid> {
    prop_oneof![
        1 => Just(Sid::None),
        6 => (0usize..6).prop_map(Sid::Own),
        1 => (0u8..6, 0usize..6, "[A-Za-z0-9._~-]{1,12}").prop_map(|(k, i, t)| Sid::Odd(k, i, t)),
    ]
    .boxed()
}
fn version() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(SUPPORTED_PROTOCOL_VERSIONS.to_vec()).prop_map(String::from),
        1 => prop::sample::select(vec!["1.0", "", "2025-06-18x", "2099-01-01", "2025-06"]).prop_map(String::from),
    ]
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LifeCase {
    conf: Conf,
    ops: Vec<Op>,
}
fn life_case() -> BoxedStrategy<LifeCase> {
    let op = prop_oneof![
        5 => (prop_oneof![6 => Just(Sid::None), 1 => sid()], version()).prop_map(|(s, v)| Op::Init(s, v)),
        5 => (sid(), any::<u8>()).prop_map(|(s, k)| Op::Post(s, k)),
        1 => sid().prop_map(Op::Note),
        1 => sid().prop_map(Op::Reply),
        3 => (sid(), prop::option::weighted(0.3, "[a-z0-9-]{1,8}")).prop_map(|(s, e)| Op::Get(s, e)),
        1 => (0usize..6).prop_map(Op::Hangup),
        3 => sid().prop_map(Op::Delete),
    ];
    (conf(), vec(op, 1..25)).prop_map(|(conf, ops)| LifeCase { conf, ops }).boxed()
}
struct Sess {
    id: String,
    live: bool,
    stream: Option<Stream>,
    /// a stream of this session was closed by its client: the server may not have noticed yet
    hung: bool,
}
/// Which session (index) a reference names, and the header to send
fn resolve(v: &[Sess], s: &Sid) -> (Option<usize>, Option<String>) {
    match s {
        Sid::None => (None, None),
        Sid::Own(i) if !v.is_empty() => (Some(i % v.len()), Some(v[i % v.len()].id.clone())),
        Sid::Own(i) => (None, Some(format!("none-{i}"))),
        Sid::Odd(k, i, t) => {
            let b = if v.is_empty() { "base".to_string() } else { v[i % v.len()].id.clone() };
            let o = match k {
                0 => b.to_uppercase(),
                1 => format!("{b}{t}"),
                2 => b[..b.len() - 1].to_string(),
                3 => format!("{b},{b}"),
                4 => format!("\"{b}\""),
                _ => t.clone(),
            };
            let o = if o.trim().is_empty() { format!("x{t}") } else { o };
            (v.iter().position(|s| s.id == o), Some(o))
        },
    }
}
fn run_life(c: &LifeCase) -> CaseResult {
    rrt(async {
        let s = tools_spec();
        let l = live(c.conf, &s).await;
        let mut v: Vec<Sess> = vec![];
        let mut cb: Vec<(char, String)> = vec![];
        let mut calls = 0;
        let (mut ended, mut reused, mut refused) = (false, false, false);
        let mut rid = 0u64;
        for op in &c.ops {
            rid += 1;
            let sref = match op {
                Op::Init(s, _) | Op::Post(s, _) | Op::Note(s) | Op::Reply(s) | Op::Get(s, _) | Op::Delete(s) => s,
                Op::Hangup(_) => &Sid::None,
            };
            let (at, name) = resolve(&v, sref);
            let at = at.filter(|i| v[*i].live);
            let nm = name.as_deref();
            reused |= matches!(sref, Sid::Own(_)) && at.is_none() && !v.is_empty();
            // status a request under this id gets when it must name a live session
            let need = |st: u16| -> Result<bool, Fail> {
                let want = match (&name, at) {
                    (None, _) => 400,
                    (Some(_), None) => 404,
                    _ => return Ok(true),
                };
                if st != want {
                    fail!("status", "{op:?} (id {name:?}): status {st}, expected {want}");
                }
                Ok(false)
            };
            match op {
                Op::Init(_, ver) => {
                    let r = post(&l, nm, &init_wire(json!(rid), ver)).await?;
                    if !c.conf.stateful {
                        ensure_eq!(r.status, 200, "stateless-init", "{op:?}");
                    } else if name.is_some() {
                        let want = if at.is_some() { 400 } else { 404 };
                        ensure_eq!(r.status, want, "init-with-id", "initialize under id {nm:?}");
                        refused = true;
                        continue;
                    }
                    ensure_eq!(r.status, 200, "init-status", "{op:?}: {}", r.text());
                    let (_, m) = only(&r, true).or_else(|_| only(&r, false))?;
                    answers(&s, &init_wire(json!(rid), ver), &m)?;
                    let got = sids(&r.headers);
                    if !c.conf.stateful {
                        ensure!(got.is_empty(), "stateless-id", "stateless server issued {got:?}");
                        continue;
                    }
                    ensure_eq!(got.len(), 1, "init-id", "session id headers of an initialize reply");
                    ensure!(!v.iter().any(|s| s.id == got[0]), "init-unique", "session id {:?} issued twice", got[0]);
                    cb.push(('+', got[0].to_string()));
                    v.push(Sess { id: got[0].to_string(), live: true, stream: None, hung: false });
                },
                Op::Post(_, k) => {
                    let w = match k % 4 {
                        0 => json!({"jsonrpc": "2.0", "id": rid, "method": "ping"}),
                        1 => tool_wire(rid, "ok"),
                        2 => tool_wire(rid, "bad"),
                        _ => tool_wire(rid, "nope"),
                    };
                    let r = post(&l, nm, &w).await?;
                    let ran = matches!(k % 4, 1 | 2);
                    if !c.conf.stateful {
                        ensure_eq!(r.status, 200, "stateless-post", "{op:?}");
                        ensure!(sids(&r.headers).is_empty(), "stateless-id", "stateless server issued an id on a request");
                        answers(&s, &w, &only(&r, true).or_else(|_| only(&r, false))?.1)?;
                        calls += usize::from(ran);
                    } else if need(r.status)? {
                        calls += usize::from(ran);
                        let x = &mut v[at.unwrap()];
                        for g in sids(&r.headers) {
                            ensure_eq!(g, x.id.as_str(), "other-id", "session id header of a reply");
                        }
                        match (&mut x.stream, r.status) {
                            (_, 200) => answers(&s, &w, &only(&r, c.conf.json)?.1)?,
                            (Some(st), 202) if !c.conf.json => {
                                let e = st.next(1).await;
                                ensure_eq!(e.len(), 1, "timeout-stream-event", "202 and no event on the stream");
                                answers(&s, &w, &serde_json::from_str(&e[0].2).unwrap_or(Value::Null))?;
                            },
                            (None, 202) if x.hung && !c.conf.json => {},
                            (_, st) => fail!("status", "{op:?}: status {st}: {}", r.text()),
                        }
                    } else {
                        refused = true;
                    }
                },
                Op::Note(_) | Op::Reply(_) => {
                    let w = match op {
                        Op::Note(_) => json!({"jsonrpc": "2.0", "method": "notifications/initialized"}),
                        _ => json!({"jsonrpc": "2.0", "id": rid, "result": {}}),
                    };
                    let r = post(&l, nm, &w).await?;
                    if !c.conf.stateful || need(r.status)? {
                        ensure_eq!(r.status, 202, "note-status", "{op:?}: {}", r.text());
                        ensure!(c.conf.stateful || sids(&r.headers).is_empty(), "stateless-id", "id on a notification reply");
                    }
                },
                Op::Get(_, last) => {
                    let mut tries = 0;
                    let mut h = std_headers("GET", nm);
                    h.extend(last.iter().map(|e| ("Last-Event-ID", e.clone().into_bytes())));
                    let mut st = loop {
                        let st = get(&l, &h).await?;
                        let wait = st.o.status == 409 && at.is_some_and(|i| v[i].hung && v[i].stream.is_none());
                        if !wait || tries > 100 {
                            break st;
                        }
                        tries += 1;
                        tokio::time::sleep(Duration::from_millis(50)).await;
                    };
                    let code = st.o.status;
                    if !c.conf.stateful {
                        ensure_eq!(code, 405, "stateless-get", "{op:?}");
                        continue;
                    }
                    if name.is_none() {
                        ensure_eq!(code, 200, "get-new", "GET without a session");
                        let got: Vec<String> = sids(&st.o.headers).into_iter().map(String::from).collect();
                        ensure_eq!(got.len(), 1, "get-id", "session id headers of a GET");
                        ensure!(!v.iter().any(|s| s.id == got[0]), "get-unique", "session id {:?} issued twice", got[0]);
                        cb.push(('+', got[0].clone()));
                        v.push(Sess { id: got[0].clone(), live: true, stream: Some(st), hung: false });
                    } else if let Some(i) = at {
                        let x = &mut v[i];
                        if x.stream.is_some() {
                            ensure!(code == 409, "second-stream", "second stream of a session: status {code}");
                        } else {
                            ensure_eq!(code, 200, if x.hung { "timeout-get" } else { "get-live" }, "{op:?} {name:?}");
                            for g in sids(&st.o.headers) {
                                ensure_eq!(g, x.id.as_str(), "other-id", "session id header of a stream");
                            }
                            st.taken = 0;
                            x.stream = Some(st);
                        }
                    } else {
                        ensure_eq!(code, 404, "get-unknown", "GET under {name:?}");
                        refused = true;
                    }
                },
                Op::Hangup(i) => {
                    if !v.is_empty() {
                        let n = v.len();
                        let x = &mut v[i % n];
                        x.hung |= x.stream.take().is_some();
                    }
                },
                Op::Delete(_) => {
                    let r = send(&l, "DELETE", &std_headers("DELETE", nm), b"").await?;
                    if !c.conf.stateful {
                        ensure!(r.status < 500, "stateless-delete", "{op:?}: {}", r.status);
                        continue;
                    }
                    match (nm, at) {
                        (None, _) => ensure!((400..500).contains(&r.status), "delete-none", "DELETE without a session: {}", r.status),
                        (_, None) => {
                            ensure_eq!(r.status, 404, "delete-unknown", "DELETE of {name:?}");
                            refused = true;
                        },
                        (_, Some(i)) => {
                            ensure!((200..300).contains(&r.status), "delete-live", "DELETE of a live session: {}", r.status);
                            ended = true;
                            let x = &mut v[i];
                            x.live = false;
                            cb.push(('-', x.id.clone()));
                            if let Some(mut st) = x.stream.take() {
                                ensure!(st.ended().await, "timeout-stream-end", "the stream of an ended session stays open");
                            }
                        },
                    }
                },
            }
            ensure_eq!(*l.cb.lock().unwrap(), cb, "callbacks", "after {op:?}");
            ensure_eq!(l.log.lock().unwrap().len(), calls, "calls", "handler calls after {op:?}");
        }
        // every session is still what the model says
        for i in 0..v.len() {
            if v[i].stream.is_some() || (v[i].hung && v[i].live) {
                continue;
            }
            let w = tool_wire(9000 + i as u64, "ok");
            let r = post(&l, Some(&v[i].id), &w).await?;
            ensure_eq!(r.status, if v[i].live { 200 } else { 404 }, "final", "session {:?}", v[i].id);
        }
        Ok(Info::nt(c.conf.stateful && ended && v.len() > 1)
            .label(c.conf.stateful, "stateful")
            .label(!c.conf.stateful, "stateless")
            .label(ended, "session ended")
            .label(reused, "ended or unknown session used")
            .label(refused, "a request refused"))
    })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RaceCase {
    conf: Conf,
    clients: Vec<(u64, u8, u64)>,
    dels: usize,
    /// attempts to open the session's stream, at once
    gets: usize,
    delay: u64,
}
fn race_case() -> BoxedStrategy<RaceCase> {
    (conf(), vec((0u64..6, 0u8..4, 0u64..6), 2..9), 1usize..4, 0usize..4, 0u64..6)
        .prop_map(|(mut conf, clients, dels, gets, delay)| {
            conf.stateful = true;
            RaceCase { conf, clients, dels, gets, delay }
        })
        .boxed()
}
/// Clients running at once: each has its own session from initialize to DELETE.
fn run_race(c: &RaceCase) -> CaseResult {
    rrt(async {
        let mut s = tools_spec();
        s.tools[0].delay = c.delay;
        let l = live(c.conf, &s).await;
        let one = |n: usize, (wait, posts, gap): (u64, u8, u64)| {
            let (l, s) = (&l, &s);
            async move {
                tokio::time::sleep(Duration::from_millis(wait)).await;
                let base = n as u64 * 100;
                let iw = init_wire(json!(base), SUPPORTED_PROTOCOL_VERSIONS[n % 4]);
                let r = post(l, None, &iw).await?;
                ensure_eq!(r.status, 200, "race-init", "{}", r.text());
                let id = sids(&r.headers).first().map(|s| s.to_string()).ok_or_else(|| Fail::new("race-id", "no session id"))?;
                answers(s, &iw, &only(&r, true)?.1)?;
                for k in 0..u64::from(posts) {
                    let w = tool_wire(base + 1 + k, "ok");
                    let r = post(l, Some(&id), &w).await?;
                    ensure_eq!(r.status, 200, "race-post", "{}", r.text());
                    answers(s, &w, &only(&r, c.conf.json)?.1)?;
                }
                tokio::time::sleep(Duration::from_millis(gap)).await;
                let gh = std_headers("GET", Some(&id));
                let mut streams = vec![];
                for st in futures::future::join_all((0..c.gets).map(|_| get(l, &gh))).await {
                    let st = st?;
                    match st.o.status {
                        200 => streams.push(st),
                        code => ensure_eq!(code, 409, "race-get", "one of several streams opened at once"),
                    }
                }
                ensure_eq!(streams.len(), c.gets.min(1), "race-streams", "streams of a session, of {} opened at once", c.gets);
                let dh = std_headers("DELETE", Some(&id));
                let d = futures::future::join_all((0..c.dels).map(|_| send(l, "DELETE", &dh, b""))).await;
                let mut ok = 0;
                for r in d {
                    let st = r?.status;
                    ensure!(st == 404 || (200..300).contains(&st), "race-delete", "status {st}");
                    ok += usize::from(st != 404);
                }
                ensure!(ok >= 1, "race-delete", "no DELETE of a live session succeeded");
                for st in &mut streams {
                    ensure!(st.ended().await, "timeout-race-stream", "the stream of an ended session stays open");
                }
                let r = post(l, Some(&id), &tool_wire(base + 99, "ok")).await?;
                ensure_eq!(r.status, 404, "race-ended", "request to an ended session");
                Ok::<String, Fail>(id)
            }
        };
        let mut want = vec![];
        let mut ids = HashSet::new();
        for r in futures::future::join_all(c.clients.iter().enumerate().map(|(n, x)| one(n, *x))).await {
            let id = r?;
            ensure!(ids.insert(id.clone()), "race-unique", "two clients share session {id:?}");
            want.push(('+', id.clone()));
            want.push(('-', id));
        }
        let mut got = l.cb.lock().unwrap().clone();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "race-callbacks", "callbacks");
        let calls: usize = c.clients.iter().map(|(_, p, _)| *p as usize).sum();
        ensure_eq!(l.log.lock().unwrap().len(), calls, "race-calls", "handler calls");
        Ok(Info::nt(calls > 0).label(c.dels > 1, "one session deleted by several at once").label(c.gets > 1, "streams of one session opened at once"))
    })
}
pub fn c16(c: &mut Ctx) {
    c.check(
        sub("lifecycle", 3000, "stateful, at least two sessions created and one ended").io(),
        life_case,
        run_life,
    );
    c.check(sub("concurrent", 600, "several clients at once, with requests").io(), race_case, run_race);
}

// ------------------------------------------------------------------ C17
#[derive(Debug, Clone, Serialize, Deserialize)]
struct HeadCase {
    conf: Conf,
    /// 0 POST request, 1 POST notification, 2 POST initialize, 3 GET, 4 DELETE
    kind: u8,
    ct: Vec<String>,
    accept: Vec<String>,
    ver: Option<String>,
    /// version negotiated by the session used
    negotiated: String,
    body: Body,
    /// 0 the session's id, 1 none, 2 unknown
    sid: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Body {
    Good,
    Raw(Vec<u8>),
    /// a message of another kind of method, valid JSON-RPC or not
    Json(Value),
    Cut(usize),
}
fn ct() -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        8 => Just(vec!["application/json".to_string()]),
        1 => Just(vec![]),
        6 => prop::sample::select(vec![
            "Application/JSON", "APPLICATION/JSON;charset=utf-8", "application/json; charset=utf-8", "application/json ; charset=\"utf-8\"", "application/json;",
            "text/plain", "application/jsonx", "application/json-seq", "application/json-patch+json", "text/plain; x=application/json", "xapplication/json",
            "application/x-www-form-urlencoded", "multipart/form-data; boundary=application/json", "application", "json", "application/json/x", "text/json", "*/*", "application/*", "", "application/ json",
        ]).prop_map(|s| vec![s.to_string()]),
    ]
    .boxed()
}
fn accept() -> BoxedStrategy<Vec<String>> {
    let item = prop_oneof![
        4 => prop::sample::select(vec!["application/json", "text/event-stream", "TEXT/event-Stream", "Application/json", "application/json;charset=utf-8", "text/event-stream;q=0.5", "application/json ;q=0.9"]),
        3 => prop::sample::select(vec!["text/html", "application/xml;q=0.8", "application/jsonp", "text/event-streams", "xtext/event-stream", "text/plain;x=\"application/json\"", "text/x;p=text/event-stream", "image/png", "application/json-seq", "event-stream", "text/", ""]),
        1 => prop::sample::select(vec!["*/*", "application/*", "text/*", "*/*;q=0.1"]),
    ];
    let line = (vec(item, 1..4), prop::sample::select(vec![", ", ",", " , ", ",  "])).prop_map(|(v, s)| v.join(s));
    prop_oneof![4 => Just(vec!["application/json, text/event-stream".to_string()]), 1 => Just(vec![]), 6 => vec(line, 1..3)].boxed()
}
fn body() -> BoxedStrategy<Body> {
    let junk = prop_oneof![
        Just(json!({})), Just(json!(null)), Just(json!(1)), Just(json!("ping")), Just(json!({"jsonrpc": "2.0"})), Just(json!({"jsonrpc": "2.0", "id": 1})),
        Just(json!({"jsonrpc": "2.0", "method": 1, "id": 1})), Just(json!({"jsonrpc": "2.0", "method": "tools/call", "id": 1, "params": {"arguments": {}}})),
        Just(json!({"jsonrpc": "2.0", "method": "no/such/method", "id": 1})),
        nonnull().prop_filter("not an array or legacy", |v| !v.is_array() && v.get("id").is_none() && v.get("request").is_none() && v.get("notification").is_none()),
    ];
    prop_oneof![
        8 => Just(Body::Good),
        2 => junk.prop_map(Body::Json),
        1 => (0usize..60).prop_map(Body::Cut),
        1 => prop_oneof![
            Just(b"".to_vec()), Just(b"{".to_vec()), Just(b"not json".to_vec()), Just(vec![0xff, 0xfe]), Just(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"\xff\"}".to_vec()), vec(any::<u8>(), 0..20)
        ].prop_map(Body::Raw),
    ]
    .boxed()
}
fn head_case() -> BoxedStrategy<HeadCase> {
    let ver = prop_oneof![
        3 => Just(None),
        3 => prop::sample::select(SUPPORTED_PROTOCOL_VERSIONS.to_vec()).prop_map(|s| Some(s.to_string())),
        2 => prop::sample::select(vec!["1.0", "2025-06-18x", "x2025-06-18", "2025-06", "2025-06-18,2025-03-26", "2099-01-01", "\"2025-06-18\"", "2025-6-18", "latest"]).prop_map(|s| Some(s.to_string())),
    ];
    let neg = prop::sample::select(SUPPORTED_PROTOCOL_VERSIONS.to_vec()).prop_map(String::from);
    (conf(), prop_oneof![8 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 4 => Just(3u8), 1 => Just(4u8)], ct(), accept(), ver, neg, body(), prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(conf, kind, ct, accept, ver, negotiated, body, sid)| HeadCase { conf, kind, ct, accept, ver, negotiated, body, sid })
        .boxed()
}
fn media(v: &str) -> String {
    v.split(';').next().unwrap_or("").trim().to_ascii_lowercase()
}
/// Some(listed) or None when only a wildcard or a zero weight decides
fn listed(acc: &[String], types: &[&str]) -> Option<bool> {
    let items: Vec<String> = acc.iter().flat_map(|l| split_list(l)).collect();
    let plain = |i: &String| {
        let m = media(i);
        types.contains(&m.as_str())
    };
    if items.iter().any(plain) {
        return Some(true);
    }
    if items.iter().any(|i| media(i).ends_with("/*")) {
        return None;
    }
    Some(false)
}
fn split_list(l: &str) -> Vec<String> {
    l.split(',').map(|s| s.trim().to_string()).collect()
}
fn run_head(c: &HeadCase) -> CaseResult {
    rrt(async {
        let s = tools_spec();
        let l = live(c.conf, &s).await;
        let r = post(&l, None, &init_wire(json!(0), &c.negotiated)).await?;
        ensure_eq!(r.status, 200, "setup", "{}", r.text());
        ensure_eq!(r.h("mcp-protocol-version"), Some(c.negotiated.as_str()), "init-version-header", "version header of the initialize reply");
        let own = sids(&r.headers).first().map(|s| s.to_string());
        let sid = match c.sid {
            0 => own.clone(),
            1 => None,
            _ => Some("unknown-session".to_string()),
        };
        let before = l.cb.lock().unwrap().clone();
        let method = ["POST", "POST", "POST", "GET", "DELETE"][c.kind as usize];
        let good = match c.kind {
            1 => json!({"jsonrpc": "2.0", "method": "notifications/initialized"}),
            2 => init_wire(json!(5), &c.negotiated),
            _ => tool_wire(5, "ok"),
        };
        let text = good.to_string();
        let body: Vec<u8> = match &c.body {
            _ if c.kind > 2 => vec![],
            Body::Good => text.clone().into_bytes(),
            Body::Raw(b) => b.clone(),
            Body::Json(v) => v.to_string().into_bytes(),
            Body::Cut(n) => text.as_bytes()[..(*n).min(text.len() - 1)].to_vec(),
        };
        let bad_body = c.kind < 3 && !matches!(c.body, Body::Good);
        let mut h: Hd = vec![];
        if c.kind < 3 {
            h.extend(c.ct.iter().map(|v| ("Content-Type", v.clone().into_bytes())));
        }
        if c.kind != 4 {
            h.extend(c.accept.iter().map(|v| ("Accept", v.clone().into_bytes())));
        }
        if let Some(v) = &c.ver {
            h.push(("MCP-Protocol-Version", v.clone().into_bytes()));
        }
        if let Some(v) = &sid {
            h.push(("MCP-SESSION-ID", v.clone().into_bytes()));
        }
        // everything wrong with this request, as the status it may be refused with
        let mut wrong: Vec<u16> = vec![];
        let mut open = false;
        let types: &[&str] = if c.kind == 3 { &["text/event-stream"] } else { &["text/event-stream", "application/json"] };
        if c.kind < 3 && !c.ct.first().is_some_and(|v| media(v) == "application/json") {
            wrong.push(415);
        }
        if c.kind != 4 {
            match listed(&c.accept, types) {
                Some(false) => wrong.push(406),
                None => open = true,
                _ => {},
            }
        }
        if bad_body {
            wrong.extend(400..500);
        }
        let uses = |k: u8| c.kind == k;
        if c.conf.stateful {
            match (&sid, uses(2)) {
                (Some(_), true) => wrong.push(if c.sid == 0 { 400 } else { 404 }),
                (None, false) if !uses(3) => wrong.extend(if uses(4) { 400..405 } else { 400..401 }),
                (Some(_), false) if c.sid == 2 => wrong.push(404),
                _ => {},
            }
        } else if uses(3) {
            wrong.push(405);
        }
        if let (Some(v), false) = (&c.ver, uses(2)) {
            if !SUPPORTED_PROTOCOL_VERSIONS.contains(&v.as_str()) {
                wrong.push(400);
            } else if c.conf.stateful && sid.is_some() && c.sid == 0 && *v != c.negotiated {
                wrong.push(400);
            }
        }
        let hh: Vec<(&str, &[u8])> = h.iter().map(|(k, v)| (*k, &v[..])).collect();
        let o = crate::http::open(l.addr, method, "/", &hh, &body, WAIT).await.map_err(io)?;
        let mut st = Stream { o, taken: 0 };
        let code = st.o.status;
        let refused = code >= 400;
        if wrong.is_empty() {
            if !open && !(uses(4) && !c.conf.stateful) {
                ensure!(!refused, "refused", "{method} with nothing wrong: {code} {:?}", String::from_utf8_lossy(&st.o.body()));
            }
        } else if !refused && open {
            // accepted although a wildcard decided
            ensure!(wrong.is_empty() || (uses(4) && !c.conf.stateful), "accepted", "{method} accepted ({code}) in spite of {wrong:?}");
        } else if !(open && code == 406) {
            // without sessions a DELETE has nothing to act on: any answer but an error of the server
            let idle = uses(4) && !c.conf.stateful && code < 500;
            let unknown_method = matches!(&c.body, Body::Json(v) if v["method"] == "no/such/method") && code == 200;
            ensure!(wrong.contains(&code) || unknown_method || idle, if refused { "other-status" } else { "accepted" }, "{method}: status {code}, allowed {wrong:?}");
        }
        let calls = l.log.lock().unwrap().len();
        if refused {
            ensure_eq!(calls, 0, "refused-ran", "{method} refused with {code}, but a handler ran");
            ensure_eq!(*l.cb.lock().unwrap(), before, "refused-session", "{method} refused with {code}, but changed the sessions");
            // and the session is as it was
            if c.conf.stateful || uses(3) || uses(4) {
                let w = tool_wire(6, "ok");
                let mut h = std_headers("POST", own.as_deref());
                if c.conf.stateful {
                    h.push(("MCP-Protocol-Version", c.negotiated.clone().into_bytes()));
                }
                let r = send(&l, "POST", &h, w.to_string().as_bytes()).await?;
                ensure_eq!(r.status, 200, "refused-session", "next request of the session after a refused one: {}", r.text());
            }
        } else if c.kind < 3 && !bad_body {
            let mut b = st.ended().await;
            b |= st.o.over();
            ensure!(b, "timeout-body", "reply body does not end");
            let r = Resp { status: code, headers: st.o.headers.clone(), body: st.o.body() };
            if c.kind == 1 {
                ensure_eq!(code, 202, "note-status", "accepted notification");
            } else {
                ensure_eq!(code, 200, "status", "accepted request");
                answers(&s, &good, &only(&r, true).or_else(|_| only(&r, false))?.1)?;
                let ver = r.h("mcp-protocol-version");
                if c.conf.stateful || uses(2) {
                    ensure_eq!(ver, Some(c.negotiated.as_str()), "version-header", "version header of a reply");
                } else {
                    ensure!(ver.is_none_or(|v| SUPPORTED_PROTOCOL_VERSIONS.contains(&v)), "version-header", "version header {ver:?}");
                }
                if c.conf.stateful && !uses(2) {
                    ensure_eq!(sids(&r.headers), vec![own.as_deref().unwrap()], "session-header", "session header of a reply");
                }
            }
            ensure_eq!(calls, usize::from(uses(0)), "accepted-ran", "handler calls");
        } else if uses(3) {
            ensure!(head(&st.o.headers, "content-type").is_some_and(|t| media(t) == "text/event-stream"), "get-type", "content type of a stream {:?}", st.o.headers);
        }
        Ok(Info::nt(!wrong.is_empty() || c.accept.len() > 1 || c.ct.first().is_some_and(|c| c != "application/json"))
            .label(refused, "refused")
            .label(!refused, "accepted")
            .label(wrong.len() > 1, "several reasons")
            .label(c.ver.is_some(), "version header")
            .label(open, "left open"))
    })
}
pub fn c17(c: &mut Ctx) {
    c.check(sub("headers", 6000, "something is wrong with the request, or a header is spelled unusually").io(), head_case, run_head);
}

// ------------------------------------------------------------------ C18
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Cmd {
    Post(usize, Value),
    /// one request per session named, all at once
    Burst(Vec<(usize, Value)>),
    Open(usize),
    Close(usize),
    /// reopen with a Last-Event-ID: which event (of the session's own), and how it is altered
    Resume(usize, u16, u8),
    /// resume while a request of the same session is under way
    ResumeDuring(usize, u16, Value, u64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DelCase {
    conf: Conf,
    spec: Spec,
    n: usize,
    cmds: Vec<Cmd>,
}
fn http_req() -> BoxedStrategy<Value> {
    prop_oneof![6 => srv::request(), 1 => wire::request_wire()]
        .prop_filter("not initialize", |w| w["method"] != "initialize")
        .boxed()
}
fn del_case() -> BoxedStrategy<DelCase> {
    let cmd = prop_oneof![
        6 => (0usize..3, http_req()).prop_map(|(s, w)| Cmd::Post(s, w)),
        2 => vec((0usize..3, http_req()), 2..6).prop_map(Cmd::Burst),
        3 => (0usize..3).prop_map(Cmd::Open),
        3 => (0usize..3).prop_map(Cmd::Close),
        4 => (0usize..3, any::<u16>(), prop_oneof![6 => Just(0u8), 1 => 1u8..5]).prop_map(|(s, k, a)| Cmd::Resume(s, k, a)),
        2 => (0usize..3, any::<u16>(), http_req(), 0u64..4).prop_map(|(s, k, w, g)| Cmd::ResumeDuring(s, k, w, g)),
    ];
    (conf(), srv::spec(), 1usize..4, vec(cmd, 1..16))
        .prop_map(|(mut conf, mut spec, n, mut cmds)| {
            conf.stateful = true;
            if conf.json && conf.store == 1 {
                conf.json = false;
            }
            for h in spec.tools.iter_mut().chain(&mut spec.prompts).chain(spec.resources.iter_mut().flat_map(|(a, b)| [a, b])).chain(&mut spec.sampling) {
                h.delay %= 4;
            }
            // ids tell the requests of a case apart
            let mut k = 0;
            let mut fresh = |w: &mut Value| {
                k += 1;
                w["id"] = if w["id"].is_string() { json!(format!("r{k}")) } else { json!(k) };
            };
            for c in &mut cmds {
                match c {
                    Cmd::Post(_, w) | Cmd::ResumeDuring(_, _, w, _) => fresh(w),
                    Cmd::Burst(v) => v.iter_mut().for_each(|(_, w)| fresh(w)),
                    _ => {},
                }
            }
            DelCase { conf, spec, n, cmds }
        })
        .boxed()
}
/// A client's knowledge of one session.
struct Cl {
    id: String,
    /// events in order; an id is unknown while the event went into a stream that was already closed
    ev: Vec<(Option<String>, Value)>,
    stream: Option<Stream>,
    hung: bool,
}
fn to_val(d: &str) -> Result<Value, Fail> {
    serde_json::from_str(d).map_err(|e| Fail::new("event-json", format!("{e}: {d:?}")))
}
fn event_ok(e: &Ev) -> Result<String, Fail> {
    ensure!(matches!(e.1.as_deref(), None | Some("message")), "event-name", "event {:?}", e.1);
    e.0.clone().filter(|i| !i.is_empty()).ok_or_else(|| Fail::new("event-id", format!("event without an id: {e:?}")))
}
struct Seen(HashSet<String>);
impl Seen {
    fn fresh(&mut self, id: &str) -> Result<(), Fail> {
        ensure!(self.0.insert(id.to_string()), "event-id-unique", "event id {id:?} used twice");
        Ok(())
    }
}
/// A POST whose reply arrived: where the answer went
async fn settle_post(c: &DelCase, cl: &mut Cl, w: &Value, r: &Resp, seen: &mut Seen) -> Result<(), Fail> {
    for g in sids(&r.headers) {
        ensure_eq!(g, cl.id.as_str(), "other-id", "session id of a reply");
    }
    match r.status {
        200 => {
            ensure!(cl.stream.is_none() || c.conf.json, "two-ways", "reply in the POST although the session's stream is open");
            let (id, m) = only(r, c.conf.json)?;
            answers(&c.spec, w, &m)?;
            if !c.conf.json {
                let id = id.ok_or_else(|| Fail::new("event-id", "event without an id"))?;
                seen.fresh(&id)?;
                cl.ev.push((Some(id), w.clone()));
            }
        },
        202 if !c.conf.json => {
            if let Some(st) = &mut cl.stream {
                let e = st.next(1).await;
                ensure_eq!(e.len(), 1, "timeout-stream-event", "202 for {w} and no event on the stream");
                let id = event_ok(&e[0])?;
                answers(&c.spec, w, &to_val(&e[0].2)?)?;
                seen.fresh(&id)?;
                cl.ev.push((Some(id), w.clone()));
            } else {
                ensure!(cl.hung, "lost", "202 for {w}, and there is no stream");
                cl.ev.push((None, w.clone()));
            }
        },
        s => fail!("status", "{w}: status {s} {}", r.text()),
    }
    Ok(())
}
/// Open the session's stream, waiting for the server to notice that the last one is gone
async fn open_stream(l: &Live, cl: &Cl, last: Option<&str>) -> Result<Stream, Fail> {
    let mut h = std_headers("GET", Some(&cl.id));
    if let Some(x) = last {
        h.push(("Last-Event-ID", x.as_bytes().to_vec()));
    }
    for _ in 0..120 {
        let st = get(l, &h).await?;
        if st.o.status == 409 && cl.hung {
            tokio::time::sleep(Duration::from_millis(20)).await;
            continue;
        }
        ensure_eq!(st.o.status, 200, "get-status", "GET of {:?}", cl.id);
        return Ok(st);
    }
    fail!("timeout-get", "the server still takes the closed stream for open")
}
/// The events expected after position `k` must come, in order, as the next events of the stream
async fn replayed(c: &DelCase, cl: &mut Cl, k: usize, seen: &mut Seen) -> Result<(), Fail> {
    let want: Vec<_> = cl.ev.split_off(k + 1);
    let mut st = cl.stream.take().unwrap();
    let e = st.next(want.len()).await;
    ensure_eq!(e.len(), want.len(), "timeout-replay", "events replayed after {:?}: {e:?}", cl.ev[k].0);
    for (e, (id, w)) in e.iter().zip(want) {
        let got = event_ok(e)?;
        answers(&c.spec, &w, &to_val(&e.2)?).map_err(|f| Fail::new(format!("replay-{}", f.sig), f.msg))?;
        match &id {
            Some(i) => ensure_eq!(&got, i, "replay-id", "id of a replayed event"),
            None => seen.fresh(&got)?,
        }
        cl.ev.push((Some(got), w));
    }
    cl.stream = Some(st);
    Ok(())
}
fn run_del(c: &DelCase) -> CaseResult {
    rrt(async {
        let l = live(c.conf, &c.spec).await;
        let mut v: Vec<Cl> = vec![];
        let mut seen = Seen(HashSet::new());
        let mut done: Vec<Value> = vec![];
        for n in 0..c.n {
            let w = init_wire(json!(format!("i{n}")), SUPPORTED_PROTOCOL_VERSIONS[n % 4]);
            let r = post(&l, None, &w).await?;
            answers(&c.spec, &w, &only(&r, true)?.1)?;
            v.push(Cl { id: r.h("mcp-session-id").unwrap_or("").to_string(), ev: vec![], stream: None, hung: false });
        }
        let (mut streamed, mut replays, mut foreign, mut burst) = (false, 0, false, false);
        let stored = c.conf.store > 0 && !c.conf.json;
        for cmd in &c.cmds {
            match cmd {
                Cmd::Post(i, w) => {
                    let x = &mut v[i % c.n];
                    let r = post(&l, Some(&x.id), w).await?;
                    streamed |= x.stream.is_some();
                    settle_post(c, x, w, &r, &mut seen).await?;
                    done.push(w.clone());
                },
                Cmd::Burst(ws) => {
                    // at most one request per session without a stream, so that the order of its events is known
                    let mut used = HashSet::new();
                    let ws: Vec<(usize, &Value)> = ws.iter().map(|(i, w)| (i % c.n, w)).filter(|(i, _)| used.insert(*i) || c.conf.json || (v[*i].stream.is_some())).collect();
                    burst |= ws.len() > 1;
                    let rs = futures::future::join_all(ws.iter().map(|(i, w)| post(&l, Some(&v[*i].id), w))).await;
                    let mut per: Vec<Vec<&Value>> = vec![vec![]; c.n];
                    for (r, (i, w)) in rs.into_iter().zip(&ws) {
                        let r = r?;
                        done.push((*w).clone());
                        if r.status == 202 && v[*i].stream.is_some() {
                            per[*i].push(w);
                        } else {
                            settle_post(c, &mut v[*i], w, &r, &mut seen).await?;
                        }
                    }
                    for (i, ws) in per.into_iter().enumerate() {
                        let mut left = ws;
                        let Some(st) = &mut v[i].stream else { continue };
                        for e in st.next(left.len()).await {
                            let id = event_ok(&e)?;
                            seen.fresh(&id)?;
                            let m = to_val(&e.2)?;
                            let Some(k) = left.iter().position(|w| w["id"] == m["id"]) else {
                                fail!("foreign-event", "the stream of {:?} carries {m}, which it did not ask for", v[i].id)
                            };
                            let w = left.remove(k);
                            answers(&c.spec, w, &m)?;
                            v[i].ev.push((Some(id), w.clone()));
                        }
                        ensure!(left.is_empty(), "timeout-stream-event", "not answered on the stream: {left:?}");
                    }
                },
                Cmd::Open(i) => {
                    let x = &mut v[i % c.n];
                    if x.stream.is_none() {
                        x.stream = Some(open_stream(&l, x, None).await?);
                    }
                },
                Cmd::Close(i) => {
                    let x = &mut v[i % c.n];
                    x.hung |= x.stream.take().is_some();
                },
                Cmd::Resume(i, k, how) => {
                    let i = i % c.n;
                    v[i].hung |= v[i].stream.take().is_some();
                    let known: Vec<usize> = (0..v[i].ev.len()).filter(|k| v[i].ev[*k].0.is_some()).collect();
                    let other: Vec<String> = (0..c.n).filter(|j| *j != i).flat_map(|j| v[j].ev.iter().filter_map(|e| e.0.clone()).collect::<Vec<_>>()).collect();
                    let last = match how {
                        0 | 1 => match known.get(*k as usize % known.len().max(1)) {
                            Some(p) if *how == 0 => (Some(*p), v[i].ev[*p].0.clone().unwrap()),
                            Some(p) => (None, format!("{}x", v[i].ev[*p].0.clone().unwrap())),
                            None => (None, "nothing".to_string()),
                        },
                        2 => (None, "0".to_string()),
                        _ => match other.get(*k as usize % other.len().max(1)) {
                            Some(o) => {
                                foreign = true;
                                (None, o.clone())
                            },
                            None => (None, "nothing".to_string()),
                        },
                    };
                    let st = open_stream(&l, &v[i], Some(&last.1)).await?;
                    v[i].stream = Some(st);
                    if let (Some(p), true) = (last.0, stored) {
                        replays += usize::from(p + 1 < v[i].ev.len());
                        replayed(c, &mut v[i], p, &mut seen).await?;
                    }
                },
                Cmd::ResumeDuring(i, k, w, gap) => {
                    let i = i % c.n;
                    v[i].hung |= v[i].stream.take().is_some();
                    let known: Vec<usize> = (0..v[i].ev.len()).filter(|k| v[i].ev[*k].0.is_some()).collect();
                    let Some(p) = known.get(*k as usize % known.len().max(1)).copied() else { continue };
                    if !stored {
                        continue;
                    }
                    let last = v[i].ev[p].0.clone().unwrap();
                    let (r, st) = {
                        let x = &v[i];
                        let a = post(&l, Some(&x.id), w);
                        let b = async {
                            tokio::time::sleep(Duration::from_millis(*gap)).await;
                            open_stream(&l, x, Some(&last)).await
                        };
                        futures::future::join(a, b).await
                    };
                    let (r, mut st) = (r?, st?);
                    done.push(w.clone());
                    let want: Vec<_> = v[i].ev.split_off(p + 1);
                    let e = st.next(want.len()).await;
                    ensure_eq!(e.len(), want.len(), "timeout-replay", "events replayed while another is sent: {e:?}");
                    for (e, (id, w)) in e.iter().zip(want) {
                        let got = event_ok(e)?;
                        answers(&c.spec, &w, &to_val(&e.2)?).map_err(|f| Fail::new(format!("replay-{}", f.sig), f.msg))?;
                        match &id {
                            Some(i) => ensure_eq!(&got, i, "replay-id", "id of a replayed event"),
                            None => seen.fresh(&got)?,
                        }
                        v[i].ev.push((Some(got), w));
                    }
                    // the new answer: in the POST reply, in the replay or live, never twice on the stream
                    let mut id = None;
                    if r.status == 200 {
                        let (eid, m) = only(&r, false)?;
                        answers(&c.spec, w, &m)?;
                        id = eid;
                    } else {
                        ensure_eq!(r.status, 202, "status", "{w}");
                    }
                    let extra = match (&id, st.rest(25).await) {
                        (None, e) if e.is_empty() => st.next(1).await,
                        (_, e) => e,
                    };
                    ensure!(extra.len() <= 1, "replay-twice", "an answer came {} times on one stream: {extra:?}", extra.len());
                    ensure!(id.is_some() || extra.len() == 1, "timeout-lost", "{w} was answered neither in the POST nor on the stream");
                    for e in &extra {
                        let got = event_ok(e)?;
                        answers(&c.spec, w, &to_val(&e.2)?)?;
                        ensure!(id.as_ref().is_none_or(|i| *i == got), "event-id-differs", "one answer under two event ids");
                        id = Some(got);
                    }
                    let id = id.unwrap();
                    seen.fresh(&id)?;
                    v[i].ev.push((Some(id), w.clone()));
                    v[i].stream = Some(st);
                    replays += 1;
                },
            }
        }
        // nothing further arrives anywhere
        for x in &mut v {
            if let Some(st) = &mut x.stream {
                let e = st.rest(3).await;
                ensure!(e.is_empty(), "extra-events", "unexpected events on the stream of {:?}: {e:?}", x.id);
            }
        }
        let mut want = srv::expected_calls(&c.spec, &done);
        let mut got = l.log.lock().unwrap().clone();
        let key = |c: &srv::Call| (c.kind, c.idx, canon(&c.arg), c.rid.clone());
        want.sort_by_key(key);
        got.sort_by_key(key);
        ensure_eq!(got, want, "calls", "handler calls");
        Ok(Info::nt(done.len() > 1 && (streamed || replays > 0 || c.conf.json))
            .label(c.conf.json, "JSON replies")
            .label(streamed, "answered on the open stream")
            .label(replays > 0, "replay of missed events")
            .label(foreign, "resume from another session's event")
            .label(burst, "requests at once"))
    })
}
pub fn c18(c: &mut Ctx) {
    c.check(sub("delivery", 2500, "several requests, answered as JSON, on a stream or through a replay").io(), del_case, run_del);
}
