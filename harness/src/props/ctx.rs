//! C25 (request context), C41 (structured logging).
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use futures::future::{BoxFuture, FutureExt};
use pmcp::shared::context::{ClientInfo, ContextPropagator, RequestContext};
use pmcp::shared::logging::*;
use pmcp::types::RequestId;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Once};
use tracing_subscriber::layer::SubscriberExt;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct C {
    id: Value,
    user: Option<String>,
    session: Option<String>,
    client: Option<(String, Option<String>, Option<String>, Option<String>)>,
    meta: Vec<(String, Value)>,
    baggage: Vec<(String, String)>,
    trace: Option<String>,
    span: Option<String>,
}
fn rid_of(v: &Value) -> RequestId {
    match v {
        Value::Number(n) => RequestId::from(n.as_i64().unwrap()),
        v => RequestId::from(v.as_str().unwrap().to_string()),
    }
}
fn ctx_strategy() -> BoxedStrategy<C> {
    let hex = |n: usize| proptest::string::string_regex(&format!("[0-9a-f]{{{n}}}")).unwrap();
    (
        rid(),
        prop::option::of(text()),
        prop::option::of(text()),
        prop::option::of((text(), prop::option::of(text()), prop::option::of(text()), prop::option::of(text()))),
        vec((text(), jval()), 0..3),
        vec((prop_oneof![2 => name(), 1 => text()], text()), 0..4),
        prop::option::of(prop_oneof![hex(32), hex(31), hex(1), "[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}"]),
        prop::option::of(prop_oneof![hex(16), hex(15), hex(3), hex(32), Just(String::new()), "[a-z]{2}é{8}"]),
    )
        .prop_map(|(id, user, session, client, meta, baggage, trace, span)| C { id, user, session, client, meta, baggage, trace, span })
        .boxed()
}
fn build(c: &C) -> RequestContext {
    let mut x = RequestContext::new(rid_of(&c.id));
    if let Some(u) = &c.user {
        x = x.with_user_id(u.clone());
    }
    if let Some(u) = &c.session {
        x = x.with_session_id(u.clone());
    }
    if let Some((a, b, d, e)) = &c.client {
        x = x.with_client_info(ClientInfo { client_id: a.clone(), version: b.clone(), ip_address: d.clone(), user_agent: e.clone() });
    }
    for (k, v) in &c.meta {
        x = x.with_metadata(k.clone(), v.clone());
    }
    for (k, v) in &c.baggage {
        x = x.with_baggage(k.clone(), v.clone());
    }
    if let Some(t) = &c.trace {
        x.trace_id = t.clone();
    }
    if let Some(s) = &c.span {
        x.span_id = s.clone();
    }
    x
}
fn client_of(c: &C) -> Option<ClientInfo> {
    c.client.clone().map(|(client_id, version, ip_address, user_agent)| ClientInfo { client_id, version, ip_address, user_agent })
}
fn client_text(c: &RequestContext) -> String {
    format!("{:?}", c.client_info)
}
fn flat(s: &str) -> String {
    s.replace('-', "")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum T {
    Yield(u8),
    Scope(u8, Vec<T>),
    Spawn(Vec<T>),
    Join(Vec<T>, Vec<T>),
}
fn tree() -> BoxedStrategy<Vec<T>> {
    let leaf = (1u8..4).prop_map(T::Yield);
    let t = leaf.prop_recursive(5, 30, 4, |i| {
        prop_oneof![
            1 => (1u8..4).prop_map(T::Yield),
            3 => (any::<u8>(), vec(i.clone(), 0..4)).prop_map(|(a, b)| T::Scope(a, b)),
            1 => vec(i.clone(), 0..4).prop_map(T::Spawn),
            2 => (vec(i.clone(), 0..3), vec(i, 0..3)).prop_map(|(a, b)| T::Join(a, b)),
        ]
    });
    vec(t, 1..5).boxed()
}
type Seen = A<Vec<(Option<String>, Option<String>, &'static str)>>;
/// run a program, noting (current user id, expected user id) at every step
fn exec(p: Vec<T>, cur: Option<String>, seen: Seen) -> BoxFuture<'static, ()> {
    async move {
        let look = |w: &'static str| seen.lock().unwrap().push((RequestContext::current().map(|c| c.user_id.clone().unwrap()), cur.clone(), w));
        look("start");
        for t in p {
            match t {
                T::Yield(n) => {
                    for _ in 0..n {
                        tokio::task::yield_now().await;
                        look("after yield");
                    }
                },
                T::Scope(k, body) => {
                    let id = format!("u{k}");
                    let c = RequestContext::new(RequestId::from(k as i64)).with_user_id(id.clone());
                    c.run(exec(body, Some(id), seen.clone())).await;
                    look("after scope");
                },
                T::Spawn(body) => {
                    let h = tokio::spawn(exec(body, None, seen.clone()));
                    tokio::task::yield_now().await;
                    look("beside task");
                    h.await.unwrap();
                    look("after task");
                },
                T::Join(a, b) => {
                    futures::join!(exec(a, cur.clone(), seen.clone()), exec(b, cur.clone(), seen.clone()));
                    look("after join");
                },
            }
        }
    }
    .boxed()
}
fn depth(p: &[T]) -> usize {
    p.iter()
        .map(|t| match t {
            T::Yield(_) => 0,
            T::Scope(_, b) => 1 + depth(b),
            T::Spawn(b) => depth(b),
            T::Join(a, b) => depth(a).max(depth(b)),
        })
        .max()
        .unwrap_or(0)
}

pub fn c25(c: &mut Ctx) {
    c.check(sub("headers", 20_000, "user or session and at least one baggage entry"), ctx_strategy, |k: &C| {
        let x = build(k);
        let h = if k.meta.len() % 2 == 0 { x.to_headers() } else { ContextPropagator::inject(&x) };
        let r = if k.meta.len() % 2 == 0 { RequestContext::from_headers(&h) } else { ContextPropagator::extract(&h) };
        let Some(r) = r else { fail!("unreadable", "headers {h:?} do not read back") };
        ensure_eq!(r.request_id.to_string(), x.request_id.to_string(), "request-id", "request id read back");
        if k.id.is_number() {
            ensure_eq!(r.request_id, x.request_id, "request-id", "request id read back");
        }
        ensure_eq!(flat(&r.trace_id), flat(&x.trace_id), "trace-id", "trace id read back");
        if k.trace.as_ref().is_none_or(|t| t.contains('-')) {
            ensure_eq!(r.trace_id, x.trace_id, "trace-id", "trace id read back");
        }
        ensure_eq!(r.user_id, k.user, "user-id", "user id read back");
        ensure_eq!(r.session_id, k.session, "session-id", "session id read back");
        ensure_eq!(r.baggage, k.baggage.iter().cloned().collect::<HashMap<_, _>>(), "baggage", "baggage read back");
        let p = r.parent_span_id.clone().unwrap_or_default();
        let want: String = flat(&x.span_id).chars().take(16).collect();
        ensure!(flat(&p).starts_with(&want), "parent-span", "parent span {p}, the writer's span is {}", x.span_id);
        ensure!(r.span_id != x.span_id && r.span_id != p, "new-span", "span {} was reused", r.span_id);
        // the header itself is well formed for ordinary ids
        if k.trace.is_none() && k.span.is_none() {
            let tp = &h["traceparent"];
            let parts: Vec<&str> = tp.split('-').collect();
            ensure!(parts.len() == 4 && parts[0] == "00" && parts[1].len() == 32 && parts[2].len() == 16 && parts[3] == "01", "traceparent", "{tp}");
        }
        Ok(Info::nt((k.user.is_some() || k.session.is_some()) && !k.baggage.is_empty()).label(k.id.is_string(), "string id"))
    });
    c.check(sub("child", 5_000, "client information and metadata are present"), ctx_strategy, |k: &C| {
        let x = build(k);
        let y = x.child();
        let z = y.child();
        for (p, q) in [(&x, &y), (&y, &z)] {
            ensure_eq!(q.parent_span_id.as_ref(), Some(&p.span_id), "child-parent", "parent span of a child");
            ensure!(q.span_id != p.span_id && !q.span_id.is_empty(), "child-span", "the child reuses span {}", q.span_id);
            ensure_eq!(q.trace_id, p.trace_id, "child-trace", "trace of a child");
            ensure_eq!(q.request_id, p.request_id, "child-request", "request id of a child");
            ensure!(q.user_id == p.user_id && q.session_id == p.session_id, "child-identity", "{q:?}");
            ensure_eq!(client_text(q), client_text(p), "child-client", "client of a child");
            ensure!(q.metadata == p.metadata && q.baggage == p.baggage, "child-baggage", "{q:?}");
        }
        ensure!(z.span_id != x.span_id, "child-span", "grandchild reuses the span");
        let want: HashMap<String, Value> = k.meta.iter().cloned().collect();
        ensure_eq!(x.metadata, want, "metadata", "metadata kept");
        let fresh = RequestContext::new(rid_of(&k.id));
        for (w, t) in [("given", x.timestamp), ("child", y.timestamp), ("fresh", fresh.timestamp)] {
            let age = chrono::Utc::now().signed_duration_since(t).num_seconds();
            ensure!((-3600..3600).contains(&age), "timestamp", "the {w} context was made {age} s ago");
        }
        ensure_eq!(client_text(&x), format!("{:?}", client_of(k)), "client", "client information kept");
        ensure!(fresh.trace_id != x.trace_id && fresh.span_id != x.span_id && fresh.parent_span_id.is_none(), "fresh", "{fresh:?}");
        Ok(Info::nt(k.client.is_some() && !k.meta.is_empty()))
    });
    c.check(
        sub("any_headers", 30_000, "a traceparent with at least four parts"),
        || {
            let part = prop_oneof![
                4 => "[0-9a-f]{32}", 3 => "[0-9a-f]{16}", 2 => "[0-9a-fé世🦀]{8,16}", 1 => text(), 1 => Just("00".to_string()),
                2 => (vec(prop::sample::select(vec!["é", "世", "🦀", "a", "\u{7ff}"]), 1..20), prop::sample::select(vec![16usize, 32])).prop_map(|(v, n)| {
                    // exactly n bytes, with multi-byte characters anywhere
                    let mut s = v.concat();
                    while s.len() > n { s.pop(); }
                    while s.len() < n { s.push('x'); }
                    s
                })
            ];
            let tp = prop_oneof![6 => vec(part, 0..6).prop_map(|v| v.join("-")), 1 => text()];
            let key = prop_oneof![2 => prop::sample::select(vec!["x-request-id", "x-user-id", "x-session-id", "baggage-a", "baggage-", "baggage", "x-baggage-a", "x-user-id-2", "Traceparent"]).prop_map(String::from), 1 => text()];
            (prop::option::weighted(0.9, tp), vec((key, prop_oneof![1 => text(), 1 => int().prop_map(|i| i.to_string())]), 0..5)).boxed()
        },
        |(tp, rest): &(Option<String>, Vec<(String, String)>)| {
            let mut h: HashMap<String, String> = rest.iter().cloned().collect();
            h.remove("traceparent");
            if let Some(t) = tp {
                h.insert("traceparent".into(), t.clone());
            }
            let r = RequestContext::from_headers(&h);
            let full = tp.as_ref().is_some_and(|t| t.split('-').count() >= 4);
            if tp.is_none() {
                ensure!(r.is_none(), "no-trace", "a context without any traceparent header");
            }
            if let Some(r) = r {
                ensure_eq!(r.user_id, h.get("x-user-id").cloned(), "user-id", "user id");
                ensure_eq!(r.session_id, h.get("x-session-id").cloned(), "session-id", "session id");
                let bag: HashMap<String, String> = h.iter().filter_map(|(k, v)| Some((k.strip_prefix("baggage-")?.to_string(), v.clone()))).collect();
                ensure_eq!(r.baggage, bag, "baggage", "baggage");
                if let Some(id) = h.get("x-request-id") {
                    ensure!(r.request_id.to_string() == *id, "request-id", "{:?} from {id:?}", r.request_id);
                }
                let t = tp.as_ref().unwrap();
                ensure!(t.contains(flat(&r.trace_id).as_str()) || flat(t).contains(&flat(&r.trace_id)), "trace-id", "{} from {t:?}", r.trace_id);
            }
            Ok(Info::nt(full))
        },
    );
    c.check(sub("scopes", 5_000, "at least two nested scopes and several tasks or joined branches"), tree, |p: &Vec<T>| {
        let seen: Seen = am(vec![]);
        vrt(exec(p.clone(), None, seen.clone()));
        let seen = seen.lock().unwrap();
        for (got, want, w) in seen.iter() {
            ensure_eq!(got, want, "current", "current context {w}");
        }
        let txt = format!("{p:?}");
        Ok(Info::nt(depth(p) >= 2 && (txt.contains("Spawn") || txt.contains("Join"))))
    });
    c.check(sub("scopes_threads", 400, "at least two nested scopes and several tasks").io().workers(2), || (tree(), tree()).boxed(), |(p, q): &(Vec<T>, Vec<T>)| {
        let seen: Seen = am(vec![]);
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).build().unwrap();
        rt.block_on(async {
            let hs: Vec<_> = (0..4).map(|i| tokio::spawn(exec(if i % 2 == 0 { p.clone() } else { q.clone() }, None, seen.clone()))).collect();
            for h in hs {
                h.await.unwrap();
            }
        });
        let seen = seen.lock().unwrap();
        for (got, want, w) in seen.iter() {
            ensure_eq!(got, want, "current", "current context {w}");
        }
        Ok(Info::nt(depth(p) >= 2))
    });
    c.check(sub("macros", 2_000, "a context is current"), || (ctx_strategy(), any::<bool>(), rid()).boxed(), |(k, inside, other): &(C, bool, Value)| {
        vrt(async {
            let x = build(k);
            let (t, s) = (x.trace_id.clone(), x.span_id.clone());
            if *inside {
                let other = other.clone();
                let got = pmcp::with_context!(x, { pmcp::context_or_new!(rid_of(&other)) });
                ensure!(got.trace_id == t && got.span_id == s && got.request_id == rid_of(&k.id), "context-macro", "{got:?}");
            } else {
                let got = pmcp::context_or_new!(rid_of(other));
                ensure!(got.request_id == rid_of(other) && got.trace_id != t, "context-macro", "{got:?}");
            }
            Ok(Info::nt(*inside))
        })
    });
}

// ---- logging ------------------------------------------------------------------------------------

thread_local! {
    static EVENTS: RefCell<Vec<(tracing::Level, String)>> = const { RefCell::new(Vec::new()) };
    static SPANS: RefCell<Vec<HashMap<String, String>>> = const { RefCell::new(Vec::new()) };
    /// context attached to the last span by the correlation layer (trace id), with the flag off and on
    static ATTACHED: RefCell<Vec<Option<String>>> = const { RefCell::new(Vec::new()) };
}
struct Cap;
struct Vis<'a>(&'a mut HashMap<String, String>);
impl tracing::field::Visit for Vis<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.insert(f.name().into(), format!("{v:?}"));
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        self.0.insert(f.name().into(), v.into());
    }
}
impl<S: tracing::Subscriber + for<'l> tracing_subscriber::registry::LookupSpan<'l>> tracing_subscriber::Layer<S> for Cap {
    fn on_event(&self, e: &tracing::Event<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
        let mut m = HashMap::new();
        e.record(&mut Vis(&mut m));
        EVENTS.with(|x| x.borrow_mut().push((*e.metadata().level(), m.remove("message").unwrap_or_default())));
    }
    fn on_new_span(&self, a: &tracing::span::Attributes<'_>, id: &tracing::span::Id, ctx: tracing_subscriber::layer::Context<'_, S>) {
        let mut m = HashMap::new();
        a.record(&mut Vis(&mut m));
        SPANS.with(|x| x.borrow_mut().push(m));
        let s = ctx.span(id).unwrap();
        let got = s.extensions().get::<Arc<RequestContext>>().map(|c| c.trace_id.clone());
        ATTACHED.with(|x| x.borrow_mut().push(got));
    }
    fn on_record(&self, _: &tracing::span::Id, v: &tracing::span::Record<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
        SPANS.with(|x| {
            let mut x = x.borrow_mut();
            if let Some(m) = x.last_mut() {
                v.record(&mut Vis(m));
            }
        });
    }
}
static INIT: Once = Once::new();
fn subscriber() {
    INIT.call_once(|| {
        let cfg = LogConfig { correlation_ids: true, timestamps: false, source_location: false, ..Default::default() };
        let _ = tracing::subscriber::set_global_default(tracing_subscriber::registry().with(CorrelationLayer::new(cfg)).with(Cap));
    });
    EVENTS.with(|x| x.borrow_mut().clear());
    SPANS.with(|x| x.borrow_mut().clear());
    ATTACHED.with(|x| x.borrow_mut().clear());
}
type Entry = (String, String, Vec<(String, Value)>, Option<(String, String, Option<Vec<String>>, Option<String>)>);
fn entry_json(e: &Entry, c: Option<&RequestContext>) -> Value {
    let id = |v: Option<String>| v.map_or(Value::Null, Value::from);
    json!({
        "level": e.0, "message": e.1,
        "request_id": c.map_or(Value::Null, |c| match &c.request_id { RequestId::String(s) => json!(s), RequestId::Number(n) => json!(n) }),
        "trace_id": id(c.map(|c| c.trace_id.clone())), "span_id": id(c.map(|c| c.span_id.clone())),
        "user_id": id(c.and_then(|c| c.user_id.clone())), "session_id": id(c.and_then(|c| c.session_id.clone())),
        "fields": e.2.iter().cloned().collect::<serde_json::Map<_, _>>(),
        "error": e.3.as_ref().map_or(Value::Null, |(t, m, s, c)| json!({"error_type": t, "message": m, "stack_trace": s, "code": c})),
    })
}
fn make(e: &Entry) -> LogEntry {
    let mut l = LogEntry::new(e.0.clone(), e.1.clone());
    for (k, v) in &e.2 {
        l = l.with_field(k.clone(), v.clone());
    }
    if let Some((t, m, s, c)) = &e.3 {
        l = l.with_error(ErrorDetails { error_type: t.clone(), message: m.clone(), stack_trace: s.clone(), code: c.clone() });
    }
    l
}
fn same_entry(got: &Value, want: &Value) -> Result<(), Fail> {
    let mut got = got.clone();
    let ts = got.as_object_mut().and_then(|o| o.remove("timestamp"));
    ensure!(ts.as_ref().and_then(|t| t.as_str()).is_some_and(|t| chrono::DateTime::parse_from_rfc3339(t).is_ok()), "timestamp", "{ts:?}");
    // absent and null are the same
    for (k, v) in want.as_object().unwrap() {
        let g = got.get(k).cloned().unwrap_or(Value::Null);
        if k == "error" && v.is_object() {
            for (k2, v2) in v.as_object().unwrap() {
                ensure_eq!(g.get(k2).cloned().unwrap_or(Value::Null), *v2, "entry-error", "error field {k2}");
            }
            continue;
        }
        ensure!(canon(&g) == canon(v), "entry", "{k}: got {g}, expected {v}");
    }
    Ok(())
}
pub fn c41(c: &mut Ctx) {
    let entry = || {
        let level = prop_oneof![4 => prop::sample::select(vec!["trace", "debug", "info", "warn", "error", "ERROR", "Warn"]).prop_map(String::from), 1 => text()];
        let err = (text(), text(), prop::option::of(vec(text(), 0..3)), prop::option::of(text()));
        (level, text(), vec((prop_oneof![2 => name(), 1 => text()], jval()), 0..4), prop::option::of(err))
    };
    let all = move || (prop::option::weighted(0.8, ctx_strategy()), entry(), any::<bool>(), any::<bool>()).boxed();
    c.check(
        sub("entry", 10_000, "a current context with user or session, and at least one field"),
        all,
        |(k, e, nested, spawn): &(Option<C>, Entry, bool, bool)| {
            subscriber();
            vrt(async {
                let ctx = k.as_ref().map(build);
                let work = {
                    let e = e.clone();
                    async move {
                        let l = make(&e);
                        let v = serde_json::to_value(&l);
                        l.log();
                        v
                    }
                };
                let (v, want) = match &ctx {
                    None => (work.await, None),
                    Some(x) if *spawn => {
                        // a task started inside the scope is not in it
                        (x.clone().run(async { tokio::spawn(work).await.unwrap() }).await, None)
                    },
                    Some(x) if *nested => {
                        let y = x.child();
                        (x.clone().run(async { y.clone().run(work).await }).await, Some(y))
                    },
                    Some(x) => (x.clone().run(work).await, Some(x.clone())),
                };
                let v = v.map_err(|e| Fail::new("render", e.to_string()))?;
                let want_json = entry_json(e, want.as_ref());
                same_entry(&v, &want_json)?;
                let ev = EVENTS.with(|x| std::mem::take(&mut *x.borrow_mut()));
                let mine: Vec<_> = ev.iter().filter(|x| x.1.contains("timestamp")).collect();
                ensure!(mine.len() == 1, "logged-once", "logged {} times", mine.len());
                let lv = match e.0.to_lowercase().as_str() {
                    "trace" => tracing::Level::TRACE,
                    "debug" => tracing::Level::DEBUG,
                    "warn" => tracing::Level::WARN,
                    "error" => tracing::Level::ERROR,
                    _ => tracing::Level::INFO,
                };
                ensure_eq!(mine[0].0, lv, "level", "level of an entry of level {:?}", e.0);
                let parsed: Value = serde_json::from_str(&mine[0].1).map_err(|x| Fail::new("render", format!("{x}: {}", mine[0].1)))?;
                same_entry(&parsed, &want_json)?;
                Ok(Info::nt(want.is_some_and(|c| c.user_id.is_some() || c.session_id.is_some()) && !e.2.is_empty()).label(*spawn, "task"))
            })
        },
    );
    c.check(
        sub("macros", 5_000, "fields given inside a scope"),
        move || (prop::option::weighted(0.8, ctx_strategy()), text(), jval(), int(), 0u8..8).boxed(),
        |(k, m, v, n, which): &(Option<C>, String, Value, i64, u8)| {
            subscriber();
            vrt(async {
                let ctx = k.as_ref().map(build);
                let work = async {
                    match which {
                        0 => pmcp::info_correlated!(m.clone()),
                        1 => pmcp::error_correlated!(m.clone()),
                        2 => pmcp::warn_correlated!(m.clone()),
                        3 => pmcp::debug_correlated!(m.clone()),
                        4 => pmcp::info_correlated!(m.clone(), "a" => v, "n" => n),
                        5 => pmcp::error_correlated!(m.clone(), "a" => v, "n" => n),
                        6 => pmcp::warn_correlated!(m.clone(), "a" => v, "n" => n),
                        _ => pmcp::debug_correlated!(m.clone(), "a" => v, "n" => n,),
                    }
                };
                match &ctx {
                    Some(x) => x.clone().run(work).await,
                    None => work.await,
                }
                let ev = EVENTS.with(|x| std::mem::take(&mut *x.borrow_mut()));
                ensure!(ev.len() == 1, "logged-once", "logged {} times", ev.len());
                let (l, name) = [(tracing::Level::INFO, "info"), (tracing::Level::ERROR, "error"), (tracing::Level::WARN, "warn"), (tracing::Level::DEBUG, "debug")][*which as usize % 4];
                ensure_eq!(ev[0].0, l, "level", "level of macro {which}");
                let e: Entry = (name.into(), m.clone(), if *which >= 4 { vec![("a".into(), v.clone()), ("n".into(), json!(n))] } else { vec![] }, None);
                let parsed: Value = serde_json::from_str(&ev[0].1).map_err(|x| Fail::new("render", format!("{x}: {}", ev[0].1)))?;
                same_entry(&parsed, &entry_json(&e, ctx.as_ref()))?;
                Ok(Info::nt(ctx.is_some() && *which >= 4))
            })
        },
    );
    c.check(
        sub("logger", 5_000, "a current context with both user and session"),
        move || (prop::option::weighted(0.7, ctx_strategy()), ctx_strategy(), ident(), any::<bool>()).boxed(),
        |(k, other, op, explicit): &(Option<C>, C, String, bool)| {
            subscriber();
            vrt(async {
                let ctx = k.as_ref().map(build);
                let other = build(other);
                let work = async {
                    let l = if *explicit { CorrelatedLogger::from_context(op, &other) } else { CorrelatedLogger::new(op) };
                    l.in_scope(|| tracing::info!("x"));
                    let _e = l.enter();
                };
                match &ctx {
                    Some(x) => x.clone().run(work).await,
                    None => work.await,
                }
                let want = if *explicit { Some(&other) } else { ctx.as_ref() };
                let sp = SPANS.with(|x| std::mem::take(&mut *x.borrow_mut()));
                ensure!(sp.len() == 1, "span", "{} spans", sp.len());
                for (f, w) in [
                    ("name", Some(op.clone())),
                    ("request_id", want.map(|c| c.request_id.to_string())),
                    ("trace_id", want.map(|c| c.trace_id.clone())),
                    ("span_id", want.map(|c| c.span_id.clone())),
                    ("user_id", want.and_then(|c| c.user_id.clone())),
                    ("session_id", want.and_then(|c| c.session_id.clone())),
                ] {
                    ensure_eq!(sp[0].get(f).cloned(), w, "span-field", "span field {f}");
                }
                // the correlation layer attached the current context to the span
                let at = ATTACHED.with(|x| std::mem::take(&mut *x.borrow_mut()));
                ensure_eq!(at, vec![ctx.as_ref().map(|c| c.trace_id.clone())], "attached", "context attached to the span");
                Ok(Info::nt(want.is_some_and(|c| c.user_id.is_some() && c.session_id.is_some())))
            })
        },
    );
}
