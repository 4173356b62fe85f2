//! C19: the HTTP client transports against a scripted server.
use crate::core::*;
use crate::gen::*;
use crate::http::{Act, Req, Scripted};
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::streamable_http::{AuthProvider, SendOptions, StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::{Transport, TransportMessage};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;
use std::time::Duration;

const WAIT: Duration = Duration::from_secs(4);

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Evt {
    id: Option<String>,
    name: Option<String>,
    /// a message, or text that is none
    data: Result<Value, String>,
    /// spread the message over several data lines
    pretty: bool,
    comment: bool,
}
impl Evt {
    fn delivers(&self) -> bool {
        self.data.is_ok() && self.name.as_deref().is_none_or(|n| n == "message")
    }
}
/// How the bytes of a body travel
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Travel {
    /// 0 content-length, 1 chunked, 2 until the connection closes
    framing: u8,
    cuts: Vec<u16>,
    pause: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Body {
    Json { ct: u8, msgs: Vec<Value>, batch: bool, pretty: bool },
    Sse { ct: u8, evs: Vec<Evt>, nl: u8, hold: bool },
    Accepted,
    Status(u16, u8),
    Other(u8),
    Bad(u8, Value),
    /// a JSON body that ends early
    Short(Value, u16),
    Drop,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Reply {
    body: Body,
    sid: Option<String>,
    ver: Option<String>,
    tr: Travel,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Send { msg: Value, form: u8, reply: Reply, noauth: bool },
    Sse { token: Option<String>, via_send: bool, reply: Reply },
    SetSession(Option<String>),
    SetVersion(Option<String>),
    Close(Option<u16>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    path: String,
    extra: Vec<(u8, String)>,
    auth: bool,
    sid: Option<String>,
    steps: Vec<Step>,
    drain: bool,
}
fn hv() -> BoxedStrategy<String> {
    prop_oneof![6 => "[!-~]{1,16}", 1 => "[!-~]{1,6}  ?[!-~]{1,6}", 1 => "[0-9a-f]{8}-[0-9a-f]{4}"].boxed()
}
fn evid() -> BoxedStrategy<String> {
    prop_oneof![4 => "[0-9]{1,3}", 2 => "[!-9;-~]{1,12}", 1 => Just(String::from("é:1"))].boxed()
}
fn message() -> BoxedStrategy<Value> {
    prop_oneof![3 => wire::response_wire(), 2 => wire::notification_wire(), 2 => wire::request_wire()].boxed()
}
fn evt() -> BoxedStrategy<Evt> {
    let junk = prop_oneof![
        Just("not json".to_string()),
        Just("{}".to_string()),
        Just("{\"jsonrpc\":\"2.0\",\"method\":5}".to_string()),
        Just(String::new()),
        Just("[1]".to_string()),
    ];
    (
        proptest::option::weighted(0.5, evid()),
        prop_oneof![5 => Just(None), 4 => Just(Some("message".to_string())), 1 => prop::sample::select(vec!["ping", "Message", "error", "messages"]).prop_map(|s| Some(s.to_string()))],
        prop_oneof![8 => message().prop_map(Ok), 1 => junk.prop_map(Err)],
        prop::bool::weighted(0.2),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(id, name, data, pretty, comment)| Evt { id, name, data, pretty, comment })
        .boxed()
}
fn travel() -> BoxedStrategy<Travel> {
    (0u8..3, vec(any::<u16>(), 0..6), 0u64..3).prop_map(|(framing, cuts, pause)| Travel { framing, cuts, pause }).boxed()
}
fn sse_body() -> BoxedStrategy<Body> {
    (0u8..3, vec(evt(), 0..6), 0u8..3, any::<bool>()).prop_map(|(ct, evs, nl, hold)| Body::Sse { ct, evs, nl, hold }).boxed()
}
fn bad_status() -> BoxedStrategy<u16> {
    prop::sample::select(vec![400, 401, 403, 404, 406, 409, 413, 415, 429, 500, 502, 503]).boxed()
}
fn single() -> BoxedStrategy<Body> {
    (0u8..3, message(), any::<bool>()).prop_map(|(ct, m, pretty)| Body::Json { ct, msgs: vec![m], batch: false, pretty }).boxed()
}
fn failing() -> BoxedStrategy<Body> {
    prop_oneof![
        3 => (bad_status(), 0u8..3).prop_map(|(s, b)| Body::Status(s, b)),
        1 => (0u8..6, message()).prop_map(|(k, m)| Body::Bad(k, m)),
        1 => (message(), any::<u16>()).prop_map(|(m, k)| Body::Short(m, k)),
        1 => Just(Body::Drop),
    ]
    .boxed()
}
fn post_body() -> BoxedStrategy<Body> {
    prop_oneof![
        4 => single(),
        3 => (0u8..3, vec(message(), 0..5), any::<bool>()).prop_map(|(ct, msgs, pretty)| Body::Json { ct, msgs, batch: true, pretty }),
        6 => sse_body(),
        3 => Just(Body::Accepted),
        1 => (0u8..3).prop_map(Body::Other),
        2 => failing(),
    ]
    .boxed()
}
fn reply(b: BoxedStrategy<Body>) -> BoxedStrategy<Reply> {
    (b, proptest::option::weighted(0.3, hv()), proptest::option::weighted(0.2, hv()), travel())
        .prop_map(|(body, sid, ver, tr)| {
            // what an error reply says about the session is left open
            let ok = matches!(body, Body::Json { .. } | Body::Sse { .. } | Body::Accepted);
            Reply { body, sid: sid.filter(|_| ok), ver: ver.filter(|_| ok), tr }
        })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let get = prop_oneof![8 => sse_body(), 1 => Just(Body::Status(405, 0)), 2 => bad_status().prop_map(|s| Body::Status(s, 0)), 1 => Just(Body::Drop)].boxed();
    let step = prop_oneof![
        12 => (wire::any_wire(), 0u8..3, reply(post_body()), prop::bool::weighted(0.05)).prop_map(|(msg, form, reply, noauth)| Step::Send { msg, form, reply, noauth }),
        3 => (proptest::option::weighted(0.6, hv()), any::<bool>(), reply(get)).prop_map(|(token, v, reply)| Step::Sse { via_send: v && token.is_some(), token, reply }),
        1 => proptest::option::weighted(0.7, hv()).prop_map(Step::SetSession),
        1 => proptest::option::weighted(0.7, hv()).prop_map(Step::SetVersion),
        1 => proptest::option::weighted(0.9, prop_oneof![2 => Just(204u16), 1 => Just(200), 1 => Just(405), 1 => bad_status()]).prop_map(Step::Close),
    ];
    (
        prop::sample::select(vec!["/", "/mcp", "/a/b?x=1&y=%20z"]).prop_map(String::from),
        vec((0u8..4, hv()), 0..3),
        any::<bool>(),
        proptest::option::weighted(0.3, hv()),
        vec(step, 1..9),
        prop::bool::weighted(0.7),
    )
        .prop_map(|(path, extra, auth, sid, mut steps, drain)| {
            if matches!(steps.last(), Some(Step::Send { .. })) && steps.len() > 2 {
                steps.push(Step::Close(Some(204)));
            }
            if drain {
                // the end of every stream can be seen: it ends with a message
                for (n, s) in steps.iter_mut().enumerate() {
                    if let Step::Send { reply: Reply { body: Body::Sse { evs, .. }, .. }, .. } | Step::Sse { reply: Reply { body: Body::Sse { evs, .. }, .. }, .. } = s {
                        if evs.last().is_some_and(|e| !e.delivers()) {
                            evs.push(Evt { id: Some(format!("end-{n}")), name: None, data: Ok(json!({"jsonrpc": "2.0", "id": n, "result": {}})), pretty: false, comment: false });
                        }
                    }
                }
            }
            Case { path, extra, auth, sid, steps, drain }
        })
        .boxed()
}
fn pieces(b: &[u8], tr: &Travel, chunked: bool) -> Vec<(u64, Vec<u8>)> {
    let mut at: Vec<usize> = tr.cuts.iter().map(|c| *c as usize % (b.len() + 1)).chain([b.len()]).collect();
    at.sort_unstable();
    at.dedup();
    let (mut p, mut out) = (0, vec![]);
    for a in at {
        let s = &b[p..a];
        if chunked {
            if !s.is_empty() {
                let mut x = format!("{:x}\r\n", s.len()).into_bytes();
                x.extend_from_slice(s);
                x.extend_from_slice(b"\r\n");
                out.push((tr.pause, x));
            }
        } else {
            out.push((tr.pause, s.to_vec()));
        }
        p = a;
    }
    out
}
fn text_of(m: &Value, pretty: bool) -> String {
    if pretty {
        serde_json::to_string_pretty(m).unwrap()
    } else {
        m.to_string()
    }
}
fn render_events(evs: &[Evt], nl: u8) -> Vec<u8> {
    let nl = ["\n", "\r\n", "\n"][nl as usize];
    let mut s = String::new();
    for e in evs {
        if e.comment {
            s += &format!(": keep-alive{nl}{nl}retry: 50{nl}");
        }
        if let Some(n) = &e.name {
            s += &format!("event: {n}{nl}");
        }
        let d = match &e.data {
            Ok(m) => text_of(m, e.pretty),
            Err(t) => t.clone(),
        };
        for l in d.split('\n') {
            s += &format!("data: {l}{nl}");
        }
        if let Some(i) = &e.id {
            s += &format!("id:{i}{nl}");
        }
        s += nl;
    }
    s.into_bytes()
}
fn act(r: &Reply) -> Act {
    let head = |status: u16, ct: Option<&str>, rest: &str| {
        let mut o = format!("HTTP/1.1 {status} X\r\nConnection: close\r\n");
        if let Some(c) = ct {
            o += &format!("Content-Type: {c}\r\n");
        }
        if let Some(s) = &r.sid {
            o += &format!("Mcp-Session-Id: {s}\r\n");
        }
        if let Some(s) = &r.ver {
            o += &format!("mcp-protocol-version: {s}\r\n");
        }
        o + rest + "\r\n"
    };
    let send = |status: u16, ct: Option<&str>, b: &[u8], hold: bool| {
        let framing = if hold && r.tr.framing == 0 { 1 } else { r.tr.framing };
        let extra = match framing {
            0 => format!("Content-Length: {}\r\n", b.len()),
            1 => "Transfer-Encoding: chunked\r\n".into(),
            _ => String::new(),
        };
        let mut p = vec![(0, head(status, ct, &extra).into_bytes())];
        p.extend(pieces(b, &r.tr, framing == 1));
        if hold {
            return Act::Hold(p);
        }
        if framing == 1 {
            p.push((0, b"0\r\n\r\n".to_vec()));
        }
        Act::Write(p)
    };
    match &r.body {
        Body::Json { ct, msgs, batch, pretty } => {
            let ct = ["application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"][*ct as usize];
            let b = if *batch { text_of(&json!(msgs), *pretty) } else { text_of(&msgs[0], *pretty) };
            send(200, Some(ct), b.as_bytes(), false)
        },
        Body::Sse { ct, evs, nl, hold } => {
            let ct = ["text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream;charset=utf-8"][*ct as usize];
            send(200, Some(ct), &render_events(evs, *nl), *hold)
        },
        Body::Accepted => Act::Write(vec![(0, head(202, None, "Content-Length: 0\r\n").into_bytes())]),
        Body::Status(s, k) => match k {
            0 => send(*s, None, b"", false),
            1 => send(*s, Some("application/json"), br#"{"jsonrpc":"2.0","id":1,"result":{"refused":true}}"#, false),
            _ => send(*s, Some("text/event-stream"), b"data: {\"jsonrpc\":\"2.0\",\"id\":1,\"result\":{}}\n\n", false),
        },
        Body::Other(k) => send(200, [Some("text/html"), Some("application/octet-stream"), None][*k as usize], b"<html></html>", false),
        Body::Bad(k, m) => {
            let t = m.to_string();
            let b = match k {
                0 => t[..t.len() - 1].to_string(),
                1 => format!("{t}{t}"),
                2 => format!("[{t},{{\"jsonrpc\":\"2.0\"}}]"),
                3 => "\"text\"".into(),
                4 => format!("[{t}"),
                _ => "<html></html>".into(),
            };
            send(200, Some("application/json"), b.as_bytes(), false)
        },
        Body::Short(m, k) => {
            let t = m.to_string();
            let h = head(200, Some("application/json"), &format!("Content-Length: {}\r\n", t.len()));
            Act::Write(vec![(0, h.into_bytes()), (0, t.as_bytes()[..*k as usize % t.len()].to_vec())])
        },
        Body::Drop => Act::Drop,
    }
}

#[derive(Debug)]
struct Tokens {
    n: std::sync::atomic::AtomicU64,
    fail: std::sync::atomic::AtomicBool,
}
#[async_trait::async_trait]
impl AuthProvider for Tokens {
    async fn get_access_token(&self) -> pmcp::Result<String> {
        use std::sync::atomic::Ordering::SeqCst;
        if self.fail.load(SeqCst) {
            return Err(pmcp::Error::internal("no token"));
        }
        Ok(format!("token-{}", self.n.fetch_add(1, SeqCst)))
    }
}
/// What is still to come: one queue per reply; a reply's messages come in order, replies may interleave.
struct Due {
    queues: Vec<(Vec<Value>, bool)>,
    states: HashSet<Vec<usize>>,
}
impl Due {
    fn new() -> Self {
        Due { queues: vec![], states: HashSet::from([vec![]]) }
    }
    fn push(&mut self, q: Vec<Value>, optional: bool) {
        if q.is_empty() {
            return;
        }
        self.queues.push((q, optional));
        self.states = self.states.drain().map(|mut s| { s.push(0); s }).collect();
    }
    fn take(&mut self, m: &Value) -> bool {
        let mut next = HashSet::new();
        for s in &self.states {
            for (i, (q, _)) in self.queues.iter().enumerate() {
                if q.get(s[i]).is_some_and(|x| same(x, m)) {
                    let mut t = s.clone();
                    t[i] += 1;
                    next.insert(t);
                }
            }
        }
        self.states = next;
        !self.states.is_empty()
    }
    fn complete(&self) -> bool {
        self.states.iter().any(|s| self.queues.iter().enumerate().all(|(i, (q, o))| *o || s[i] == q.len()))
    }
    fn missing(&self) -> String {
        let s = self.states.iter().next().unwrap();
        self.queues.iter().enumerate().filter(|(_, (_, o))| !o).flat_map(|(i, (q, _))| q[s[i]..].iter().map(|m| m.to_string())).collect::<Vec<_>>().join(" ")
    }
}
async fn drain(t: &mut impl Transport, due: &mut Due) -> Result<(), Fail> {
    let end = tokio::time::Instant::now() + WAIT;
    while !due.complete() {
        match tokio::time::timeout_at(end, t.receive()).await {
            Err(_) => fail!("timeout-undelivered", "not delivered: {}", due.missing()),
            Ok(Err(e)) => fail!("receive", "receive failed: {e}"),
            Ok(Ok(m)) => got(due, &m)?,
        }
    }
    Ok(())
}
fn got(due: &mut Due, m: &TransportMessage) -> Result<(), Fail> {
    let v = wire::msg_o(m);
    ensure!(due.take(&v), "delivered-wrong", "delivered {v}, which is not what comes next of any reply");
    Ok(())
}
/// Nothing more may come
async fn quiet(t: &mut impl Transport, due: &mut Due) -> Result<(), Fail> {
    while let Ok(r) = tokio::time::timeout(Duration::from_millis(6), t.receive()).await {
        match r {
            Ok(m) => got(due, &m)?,
            Err(e) => fail!("receive", "receive failed: {e}"),
        }
    }
    Ok(())
}
fn types(r: &Req) -> Vec<String> {
    r.all("accept").iter().flat_map(|a| a.split(',')).map(|a| a.split(';').next().unwrap_or("").trim().to_ascii_lowercase()).collect()
}
fn check_headers(c: &Case, r: &Req, sid: &Option<String>, ver: &Option<String>, tok: u64) -> Result<(), Fail> {
    ensure_eq!(r.path, c.path, "request-path", "path of {}", r.method);
    for n in 0u8..4 {
        let h = format!("x-extra-{n}");
        let want: Vec<&str> = c.extra.iter().filter(|(k, _)| *k == n).map(|(_, v)| v.as_str()).collect();
        ensure_eq!(r.all(&h), want, "extra-header", "header {h} of {}", r.method);
    }
    let want = c.auth.then(|| format!("Bearer token-{tok}"));
    ensure_eq!(r.all("authorization"), want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "authorization", "authorization of {}", r.method);
    ensure_eq!(r.all("mcp-session-id"), sid.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "session-header", "session id of {}", r.method);
    ensure_eq!(r.all("mcp-protocol-version"), ver.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "version-header", "protocol version of {}", r.method);
    Ok(())
}
fn run(c: &Case) -> CaseResult {
    rrt(async {
        
        let plan: A<Option<Act>> = am(None);
        let p2 = plan.clone();
        let s = Scripted::start(move |_, _| p2.lock().unwrap().take().unwrap_or(Act::Drop)).await;
        let tokens = Arc::new(Tokens { n: 0.into(), fail: false.into() });
        let marks = am(Vec::<String>::new());
        let m2 = marks.clone();
        let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
            url: s.url(&c.path).parse().unwrap(),
            extra_headers: c.extra.iter().map(|(k, v)| (format!("X-Extra-{k}"), v.clone())).collect(),
            auth_provider: if c.auth { Some(tokens.clone() as Arc<dyn AuthProvider>) } else { None },
            session_id: c.sid.clone(),
            enable_json_response: false,
            on_resumption_token: Some(Arc::new(move |i| m2.lock().unwrap().push(i))),
        });
        let (mut sid, mut ver, mut tok, mut nreq) = (c.sid.clone(), None::<String>, 0u64, 0usize);
        let mut due = Due::new();
        let mut ids: Vec<String> = vec![];
        let mut last: Option<String> = None;
        // queue of the GET stream that is open, if any
        let mut open: Option<usize> = None;
        let (mut streams, mut parts, mut errs, mut assigned) = (0, 0, 0, false);
        for st in &c.steps {
            let before = s.seen().len();
            ensure_eq!(before, nreq, "request-count", "requests before a step");
            match st {
                Step::Send { msg, form, reply, noauth } => {
                    let bad_auth = *noauth && c.auth;
                    tokens.fail.store(bad_auth, std::sync::atomic::Ordering::SeqCst);
                    *plan.lock().unwrap() = Some(act(reply));
                    let r = tokio::time::timeout(WAIT, t.send(wire::msg_i(msg, *form))).await;
                    tokens.fail.store(false, std::sync::atomic::Ordering::SeqCst);
                    let Ok(r) = r else { fail!("timeout-send", "send of {msg} does not return") };
                    if bad_auth {
                        ensure!(r.is_err(), "send-without-token", "sent although there is no token");
                        ensure_eq!(s.seen().len(), nreq, "request-count", "requests after a send without a token");
                        errs += 1;
                        continue;
                    }
                    let seen = s.seen();
                    ensure_eq!(seen.len(), nreq + 1, "request-count", "requests for one message");
                    let q = &seen[nreq];
                    nreq += 1;
                    ensure_eq!(q.method, "POST", "post", "method");
                    check_headers(c, q, &sid, &ver, tok)?;
                    tok += 1;
                    ensure_eq!(q.all("content-type"), vec!["application/json"], "content-type", "content type of a POST");
                    let a = types(q);
                    ensure!(a.iter().any(|x| x == "application/json") && a.iter().any(|x| x == "text/event-stream"), "accept", "Accept of a POST {a:?}");
                    let body: Value = serde_json::from_slice(&q.body).map_err(|e| Fail::new("post-body", format!("{e}: {:?}", String::from_utf8_lossy(&q.body))))?;
                    ensure!(same(&body, msg), "post-body", "POST body {body}, message {msg}");
                    let ok = matches!(reply.body, Body::Json { .. } | Body::Sse { .. } | Body::Accepted);
                    match (&r, ok) {
                        (Err(e), true) => fail!("send-failed", "reply {:?}: {e}", reply.body),
                        (Ok(()), false) => fail!("send-ok", "send succeeded on the reply {:?}", reply.body),
                        _ => {},
                    }
                    errs += usize::from(!ok);
                    if let Some(x) = &reply.sid {
                        assigned |= sid.as_ref() != Some(x);
                        sid = Some(x.clone());
                    }
                    if let Some(x) = &reply.ver {
                        ver = Some(x.clone());
                    }
                    match &reply.body {
                        Body::Json { msgs, .. } => due.push(msgs.clone(), false),
                        Body::Sse { evs, .. } => {
                            streams += 1;
                            parts += reply.tr.cuts.len();
                            note(evs, &mut ids, &mut last);
                            due.push(evs.iter().filter(|e| e.delivers()).filter_map(|e| e.data.clone().ok()).collect(), false);
                        },
                        Body::Bad(2, m) => due.push(vec![m.clone()], true),
                        _ => {},
                    }
                },
                Step::Sse { token, via_send, reply } => {
                    // the stream this one replaces may end before all of it was delivered
                    if let Some(o) = open.take() {
                        if !c.drain {
                            due.queues[o].1 = true;
                        }
                    }
                    *plan.lock().unwrap() = Some(act(reply));
                    let r = if *via_send {
                        let o = SendOptions { related_request_id: None, resumption_token: token.clone() };
                        tokio::time::timeout(WAIT, t.send_with_options(wire::msg_i(&json!({"jsonrpc": "2.0", "method": "notifications/initialized"}), 1), o)).await
                    } else {
                        tokio::time::timeout(WAIT, t.start_sse(token.clone())).await
                    };
                    let Ok(r) = r else { fail!("timeout-sse", "start_sse does not return") };
                    let seen = s.seen();
                    ensure_eq!(seen.len(), nreq + 1, "request-count", "requests for one stream");
                    let q = &seen[nreq];
                    nreq += 1;
                    ensure_eq!(q.method, "GET", "get", "method");
                    check_headers(c, q, &sid, &ver, tok)?;
                    tok += 1;
                    ensure!(types(q).iter().any(|x| x == "text/event-stream"), "accept", "Accept of a GET {:?}", types(q));
                    ensure_eq!(q.all("last-event-id"), token.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "last-event-id", "Last-Event-ID");
                    let ok = matches!(reply.body, Body::Sse { .. } | Body::Status(405, _));
                    ensure_eq!(r.is_ok(), ok, "sse-result", "start_sse on the reply {:?}", reply.body);
                    errs += usize::from(!ok);
                    if let Some(x) = &reply.sid {
                        sid = Some(x.clone());
                    }
                    if let Some(x) = &reply.ver {
                        ver = Some(x.clone());
                    }
                    if let Body::Sse { evs, .. } = &reply.body {
                        streams += 1;
                        parts += reply.tr.cuts.len();
                        note(evs, &mut ids, &mut last);
                        let v: Vec<Value> = evs.iter().filter(|e| e.delivers()).filter_map(|e| e.data.clone().ok()).collect();
                        if !v.is_empty() {
                            open = Some(due.queues.len());
                        }
                        due.push(v, false);
                    }
                },
                Step::SetSession(x) => {
                    t.set_session_id(x.clone());
                    sid = x.clone();
                },
                Step::SetVersion(x) => {
                    t.set_protocol_version(x.clone());
                    ver = x.clone();
                },
                Step::Close(status) => {
                    if let Some(o) = open.take() {
                        if !c.drain {
                            due.queues[o].1 = true;
                        }
                    }
                    *plan.lock().unwrap() = Some(match status {
                        Some(s) => crate::http::reply(*s, &[], b""),
                        None => Act::Drop,
                    });
                    let Ok(r) = tokio::time::timeout(WAIT, t.close()).await else { fail!("timeout-close", "close does not return") };
                    ensure!(r.is_ok(), "close", "close with {status:?}: {r:?}");
                    let seen = s.seen();
                    ensure_eq!(seen.len(), nreq + usize::from(sid.is_some()), "close-request", "requests for close with session {sid:?}");
                    if sid.is_some() {
                        let q = &seen[nreq];
                        nreq += 1;
                        ensure_eq!(q.method, "DELETE", "delete", "method");
                        check_headers(c, q, &sid, &ver, tok)?;
                        tok += 1;
                    }
                    sid = None;
                },
            }
            ensure_eq!(t.session_id(), sid, "session-id", "session id the transport holds");
            ensure_eq!(t.protocol_version(), ver, "protocol-version", "version the transport holds");
            if c.drain {
                drain(&mut t, &mut due).await?;
                // events without a message come through in the same order, a little later
                let end = std::time::Instant::now() + WAIT;
                while t.last_event_id() != last || dedup(&marks) != ids {
                    ensure!(std::time::Instant::now() < end, "timeout-event-id", "last event id {:?}, expected {last:?}; ids reported {:?}, sent {ids:?}", t.last_event_id(), dedup(&marks));
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
        }
        drain(&mut t, &mut due).await?;
        quiet(&mut t, &mut due).await?;
        ensure_eq!(s.seen().len(), nreq, "request-count", "requests at the end");
        for i in marks.lock().unwrap().iter() {
            ensure!(ids.contains(i), "event-id", "event id {i:?} reported, which no stream had");
        }
        Ok(Info::nt(c.steps.len() > 1 && (streams > 0 || assigned || errs > 0))
            .label(streams > 0, "SSE replies")
            .label(parts > 1, "bodies in pieces")
            .label(assigned, "session id assigned")
            .label(errs > 0, "failing replies")
            .label(!c.drain && streams > 1, "several streams at once")
            .label(c.auth, "bearer tokens"))
    })
}
/// ids an SSE body reports, with immediate repetitions left out
fn note(evs: &[Evt], ids: &mut Vec<String>, last: &mut Option<String>) {
    let mut cur = None;
    for e in evs {
        if e.id.is_some() {
            cur.clone_from(&e.id);
        }
        if let Some(i) = &cur {
            if ids.last() != Some(i) {
                ids.push(i.clone());
            }
            *last = Some(i.clone());
        }
    }
}
fn dedup(m: &A<Vec<String>>) -> Vec<String> {
    let mut v = m.lock().unwrap().clone();
    v.dedup();
    v
}

// ------------------------------------------------------------------ the plain HTTP transport
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PlainCase {
    path: String,
    sse: Option<String>,
    headers: Vec<(u8, String)>,
    stream: Option<Reply>,
    sends: Vec<(Value, u8, Reply)>,
}
fn plain_case() -> BoxedStrategy<PlainCase> {
    let ev = evt().prop_map(|mut e| {
        // what other event names mean here is left open
        if e.name.as_deref().is_some_and(|n| n != "message") {
            e.name = None;
        }
        e
    });
    let sse = (vec(ev, 0..6), 0u8..3, any::<bool>()).prop_map(|(evs, nl, hold)| Body::Sse { ct: 0, evs, nl, hold }).boxed();
    let get = prop_oneof![6 => sse, 1 => bad_status().prop_map(|s| Body::Status(s, 0)), 1 => Just(Body::Drop)].boxed();
    let post = prop_oneof![6 => single(), 2 => Just(Body::Accepted), 2 => failing()].boxed();
    (
        prop::sample::select(vec!["/", "/mcp", "/a/b?x=1"]).prop_map(String::from),
        proptest::option::weighted(0.9, prop::sample::select(vec!["/events", "events", "/a/sse?y=2"]).prop_map(String::from)),
        vec((0u8..4, hv()), 0..3),
        proptest::option::weighted(0.6, reply(get)),
        vec((wire::any_wire(), 0u8..3, reply(post)), 0..6),
    )
        .prop_map(|(path, sse, headers, stream, sends)| PlainCase { path, sse, headers, stream, sends })
        .boxed()
}
fn run_plain(c: &PlainCase) -> CaseResult {
    rrt(async {
        let plan: A<Option<Act>> = am(None);
        let p2 = plan.clone();
        let s = Scripted::start(move |_, _| p2.lock().unwrap().take().unwrap_or(Act::Drop)).await;
        let mut t = HttpTransport::new(HttpConfig {
            base_url: s.url(&c.path).parse().unwrap(),
            sse_endpoint: c.sse.clone(),
            timeout: Duration::from_secs(10),
            headers: c.headers.iter().map(|(k, v)| (format!("X-Extra-{k}"), v.clone())).collect(),
            enable_pooling: true,
            max_idle_per_host: 2,
        });
        let extra = |q: &Req| -> Result<(), Fail> {
            for n in 0u8..4 {
                let h = format!("x-extra-{n}");
                let want: Vec<&str> = c.headers.iter().filter(|(k, _)| *k == n).map(|(_, v)| v.as_str()).collect();
                ensure_eq!(q.all(&h), want, "extra-header", "header {h} of {}", q.method);
            }
            Ok(())
        };
        let mut due = Due::new();
        let (mut nreq, mut errs) = (0, 0);
        if let Some(r) = &c.stream {
            *plan.lock().unwrap() = Some(act(r));
            let Ok(x) = tokio::time::timeout(WAIT, t.connect_sse()).await else { fail!("timeout-sse", "connect_sse does not return") };
            match &c.sse {
                None => {
                    ensure!(x.is_ok() && s.seen().is_empty(), "no-sse", "connect_sse without an endpoint: {x:?}, {} requests", s.seen().len());
                },
                Some(p) => {
                    nreq = 1;
                    let seen = s.seen();
                    ensure_eq!(seen.len(), 1, "request-count", "requests of connect_sse");
                    ensure_eq!(seen[0].method, "GET", "get", "method");
                    let base: url::Url = s.url(&c.path).parse().unwrap();
                    let u = base.join(p).unwrap();
                    let want = u.path().to_string() + &u.query().map(|q| format!("?{q}")).unwrap_or_default();
                    ensure_eq!(seen[0].path, want, "request-path", "path of the stream");
                    ensure!(types(&seen[0]).iter().any(|x| x == "text/event-stream"), "accept", "Accept of the GET");
                    extra(&seen[0])?;
                    let ok = matches!(r.body, Body::Sse { .. });
                    ensure_eq!(x.is_ok(), ok, "sse-result", "connect_sse on the reply {:?}", r.body);
                    errs += usize::from(!ok);
                    if let Body::Sse { evs, .. } = &r.body {
                        due.push(evs.iter().filter_map(|e| e.data.clone().ok()).collect(), false);
                    }
                },
            }
        }
        for (m, form, r) in &c.sends {
            *plan.lock().unwrap() = Some(act(r));
            let Ok(x) = tokio::time::timeout(WAIT, t.send(wire::msg_i(m, *form))).await else { fail!("timeout-send", "send of {m} does not return") };
            let seen = s.seen();
            ensure_eq!(seen.len(), nreq + 1, "request-count", "requests for one message");
            let q = &seen[nreq];
            nreq += 1;
            ensure_eq!(q.method, "POST", "post", "method");
            ensure_eq!(q.path, c.path, "request-path", "path of a POST");
            ensure_eq!(q.all("content-type"), vec!["application/json"], "content-type", "content type of a POST");
            extra(q)?;
            let body: Value = serde_json::from_slice(&q.body).map_err(|e| Fail::new("post-body", format!("{e}: {:?}", String::from_utf8_lossy(&q.body))))?;
            ensure!(same(&body, m), "post-body", "POST body {body}, message {m}");
            let ok = matches!(r.body, Body::Json { .. } | Body::Accepted);
            match (&x, ok) {
                (Err(e), true) => fail!("send-failed", "reply {:?}: {e}", r.body),
                (Ok(()), false) => fail!("send-ok", "send succeeded on the reply {:?}", r.body),
                _ => {},
            }
            errs += usize::from(!ok);
            if let Body::Json { msgs, .. } = &r.body {
                due.push(msgs.clone(), false);
            }
        }
        drain(&mut t, &mut due).await?;
        quiet(&mut t, &mut due).await?;
        ensure_eq!(s.seen().len(), nreq, "request-count", "requests at the end");
        Ok(Info::nt(due.queues.len() > 1 || errs > 0).label(errs > 0, "failing replies").label(c.stream.is_some() && c.sse.is_some(), "SSE stream"))
    })
}
pub fn c19(c: &mut Ctx) {
    c.check(sub("streamable", 4000, "several steps, with a stream, a session id assigned or a failing reply").io(), case, run);
    c.check(sub("plain", 2500, "several replies deliver messages, or a reply fails").io(), plain_case, run_plain);
}
