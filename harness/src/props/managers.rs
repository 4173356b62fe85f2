//! C31 (elicitation), C32 (subscriptions), C33 (roots), C34 (cancellation), C35 (dynamic registration).
use crate::core::*;
use crate::gen::*;
use crate::props::server::jreq;
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::{Error, ErrorCode};
use pmcp::server::cancellation::{CancellationManager, RequestHandlerExtra};
use pmcp::server::dynamic::{DynamicConfigBuilder, DynamicServerManager};
use pmcp::server::elicitation::{ElicitInput, ElicitationContext, ElicitationManager};
use pmcp::server::roots::RootsManager;
use pmcp::server::subscriptions::SubscriptionManager;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, Server, ToolHandler};
use pmcp::shared::batch::BatchRequest;
use pmcp::types::elicitation::*;
use pmcp::types::*;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;

// ---- C31 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum E {
    /// id (made distinct from those pending), through the context object or not
    Elicit(u8, String, bool),
    /// answer the k-th elicitation ever made (any state)
    Respond(usize, Option<Value>, bool, Option<String>),
    /// answer an id never used
    Stray(u8),
    Cancel(usize),
    CancelStray(u8),
    CancelAll,
    /// multiples of 10 ms
    Sleep(u16),
    /// take messages off the request channel
    Drain(u8),
    DropRx,
}
#[derive(Debug, Clone, PartialEq)]
enum Res {
    Resp(Value),
    Timeout,
    Failed,
}
struct El {
    id: String,
    /// when it got into the channel
    sent: Option<u64>,
    /// what it was resolved with
    res: Option<Res>,
    /// when its future returned
    done: Option<u64>,
}
fn resp_v(r: &ElicitInputResponse) -> Value {
    json!([r.elicitation_id, r.value, r.cancelled, r.error])
}
const TYPES: [(InputType, &str); 15] = [
    (InputType::Text, "text"),
    (InputType::Textarea, "textarea"),
    (InputType::Boolean, "boolean"),
    (InputType::Number, "number"),
    (InputType::Select, "select"),
    (InputType::MultiSelect, "multiSelect"),
    (InputType::FilePath, "filePath"),
    (InputType::DirectoryPath, "directoryPath"),
    (InputType::Password, "password"),
    (InputType::Date, "date"),
    (InputType::Time, "time"),
    (InputType::DateTime, "dateTime"),
    (InputType::Color, "color"),
    (InputType::Url, "url"),
    (InputType::Email, "email"),
];
#[derive(Debug, Clone, Serialize, Deserialize)]
enum B {
    Id(String),
    Desc(String),
    Default(Value),
    Required,
    Min(f64),
    Max(f64),
    Pattern(String),
    Options(Vec<(Value, String, Option<String>, bool)>),
    Meta(String, Value),
}

/// many elicitations pending at once, each answered, cancelled or left, in any order; then all that are left are cancelled
fn run_many_elicit(c: &(u16, Vec<(u16, u8)>)) -> CaseResult {
    let n = c.0 as usize;
    vrt(async {
        let (tx, mut rx) = tokio::sync::mpsc::channel::<ServerRequest>(512);
        let mut mgr = ElicitationManager::new();
        mgr.set_request_channel(tx);
        mgr.set_timeout(Duration::from_secs(3600));
        let mgr = Arc::new(mgr);
        let mut hs = vec![];
        for k in 0..n {
            let (m, q) = (mgr.clone(), elicit_text(format!("p{k}")).id(format!("e{k}")).build());
            hs.push(tokio::spawn(async move { m.elicit_input(q).await }));
        }
        settle().await;
        let mut asked = BTreeSet::new();
        while let Ok(ServerRequest::ElicitInput(q)) = rx.try_recv() {
            asked.insert(q.elicitation_id.clone());
        }
        ensure_eq!(asked.len(), n, "sent", "elicitations on the request channel");
        // None: cancelled
        let mut want: BTreeMap<usize, Option<u64>> = BTreeMap::new();
        for (i, (k, how)) in c.1.iter().enumerate() {
            let k = *k as usize % n;
            let id = format!("e{k}");
            let fresh = !want.contains_key(&k);
            let ok = if *how == 0 {
                mgr.cancel(&id).await.is_ok()
            } else {
                mgr.handle_response(ElicitInputResponse { elicitation_id: id, value: Some(json!(i)), cancelled: false, error: None }).await.is_ok()
            };
            ensure_eq!(ok, fresh, "respond", "step {i} about e{k}, of {n} pending");
            if fresh {
                want.insert(k, (*how != 0).then_some(i as u64));
            }
        }
        mgr.cancel_all().await;
        let done = want.len();
        for (k, h) in hs.into_iter().enumerate() {
            let r = match tokio::time::timeout(Duration::from_secs(60), h).await {
                Ok(Ok(Ok(r))) => r,
                r => fail!("outcome", "e{k} of {n} pending: {r:?}"),
            };
            let w = want.get(&k).copied().flatten();
            ensure!(r.elicitation_id == format!("e{k}") && r.cancelled == w.is_none() && r.value == w.map(|i| json!(i)), "outcome", "e{k}: {r:?}, expected {w:?}");
        }
        Ok(Info::nt(n > 20).label(done > 0 && done < n, "some answered before"))
    })
}
pub fn c31(c: &mut Ctx) {
    let strat = || {
        let op = prop_oneof![
            6 => (0u8..6, text(), any::<bool>()).prop_map(|(a, b, c)| E::Elicit(a, b, c)),
            4 => (0usize..12, option::of(jval()), prop::bool::weighted(0.2), option::of(text())).prop_map(|(a, b, c, d)| E::Respond(a, b, c, d)),
            1 => (0u8..3).prop_map(E::Stray),
            2 => (0usize..12).prop_map(E::Cancel),
            1 => (0u8..3).prop_map(E::CancelStray),
            1 => Just(E::CancelAll),
            4 => (0u16..60).prop_map(E::Sleep),
            3 => (1u8..5).prop_map(E::Drain),
        ];
        let op = prop_oneof![40 => op, 1 => Just(E::DropRx)];
        (prop_oneof![1 => Just(0u64), 5 => 1u64..40], prop_oneof![2 => 1usize..3, 3 => Just(64usize)], vec(op, 1..40)).boxed()
    };
    c.check(sub("many", 400, "more than twenty pending at once").mul(10), || (1u16..150, vec((0u16..150, 0u8..4), 0..60)).boxed(), run_many_elicit);
    c.check(sub("history", 30_000, "at least two elicitations overlap and they end in two different ways"), strat, |(to, cap, ops): &(u64, usize, Vec<E>)| {
        vrt(async {
            let (tx, rx) = tokio::sync::mpsc::channel::<ServerRequest>(*cap);
            let mut mgr = ElicitationManager::new();
            mgr.set_request_channel(tx);
            // deadlines fall between the instants the operations happen at
            let timeout = to * 10 + 5;
            mgr.set_timeout(Duration::from_millis(timeout));
            let mgr = Arc::new(mgr);
            let mut rx = Some(rx);
            let t0 = Instant::now();
            let now = || t0.elapsed().as_millis() as u64;
            let out = am(Vec::<(usize, u64, pmcp::Result<ElicitInputResponse>)>::new());
            // model
            let mut els: Vec<El> = vec![];
            let mut queue: VecDeque<usize> = VecDeque::new();
            let mut blocked: VecDeque<usize> = VecDeque::new();
            let mut texts: Vec<String> = vec![];
            let mut seen: Vec<bool> = vec![];
            let (mut overlap, mut kinds) = (false, BTreeSet::new());
            for (n, op) in ops.iter().enumerate() {
                let unresolved = |els: &Vec<El>| els.iter().enumerate().filter(|(_, e)| e.res.is_none()).map(|(i, _)| i).collect::<Vec<_>>();
                match op {
                    E::Elicit(i, t, via) => {
                        let id = (0..).map(|k| if k == 0 { format!("e{i}") } else { format!("e{i}-{k}") }).find(|id| els.iter().all(|e| e.done.is_some() || e.id != *id)).unwrap();
                        let k = els.len();
                        overlap |= els.iter().any(|e| e.done.is_none());
                        let dropped = rx.is_none();
                        els.push(El { id: id.clone(), sent: None, res: dropped.then_some(Res::Failed), done: dropped.then(now) });
                        texts.push(t.clone());
                        seen.push(false);
                        if !dropped {
                            if queue.len() < *cap && blocked.is_empty() {
                                queue.push_back(k);
                                els[k].sent = Some(now());
                            } else {
                                blocked.push_back(k);
                            }
                        }
                        let (m, out, req, via) = (mgr.clone(), out.clone(), elicit_text(t.clone()).id(id).build(), *via);
                        tokio::spawn(async move {
                            let r = if via { ElicitationContext::new(m).elicit_input(req).await } else { m.elicit_input(req).await };
                            let t = t0.elapsed().as_millis() as u64;
                            out.lock().unwrap().push((k, t, r));
                        });
                    },
                    E::Respond(k, v, canc, err) if !els.is_empty() => {
                        let k = els.len() - 1 - k % els.len();
                        let id = els[k].id.clone();
                        let target = unresolved(&els).into_iter().find(|i| els[*i].id == id);
                        let r = ElicitInputResponse { elicitation_id: id, value: v.clone(), cancelled: *canc, error: err.clone() };
                        let want = resp_v(&r);
                        let got = mgr.handle_response(r).await;
                        ensure!(got.is_ok() == target.is_some(), "respond", "op {n}: answering {} gave {got:?}", want[0]);
                        if let Some(i) = target {
                            els[i].res = Some(Res::Resp(want));
                            kinds.insert("answered");
                        }
                    },
                    E::Stray(k) => {
                        let r = mgr.handle_response(ElicitInputResponse { elicitation_id: ["", "nobody", "E1"][*k as usize].into(), value: None, cancelled: false, error: None }).await;
                        ensure!(r.is_err(), "respond-unknown", "op {n}: accepted");
                    },
                    E::Cancel(k) if !els.is_empty() => {
                        let k = els.len() - 1 - k % els.len();
                        let id = els[k].id.clone();
                        let target = unresolved(&els).into_iter().find(|i| els[*i].id == id);
                        let got = mgr.cancel(&id).await;
                        ensure!(got.is_ok() == target.is_some(), "cancel", "op {n}: cancelling {id:?} gave {got:?}");
                        if let Some(i) = target {
                            els[i].res = Some(Res::Resp(json!([id, null, true])));
                            kinds.insert("cancelled");
                        }
                    },
                    E::CancelStray(k) => {
                        ensure!(mgr.cancel(["", "nobody", "E1"][*k as usize]).await.is_err(), "cancel-unknown", "op {n}: accepted");
                    },
                    E::CancelAll => {
                        mgr.cancel_all().await;
                        for i in unresolved(&els) {
                            let id = els[i].id.clone();
                            els[i].res = Some(Res::Resp(json!([id, null, true])));
                            kinds.insert("cancelled");
                        }
                    },
                    E::Sleep(t) => tokio::time::sleep(Duration::from_millis(*t as u64 * 10)).await,
                    E::Drain(k) => {
                        for _ in 0..*k {
                            let Some(r) = rx.as_mut() else { break };
                            settle().await;
                            match (r.try_recv(), queue.pop_front()) {
                                (Ok(ServerRequest::ElicitInput(q)), Some(i)) => {
                                    ensure!(q.elicitation_id == els[i].id && q.prompt == texts[i] && q.input_type == InputType::Text, "sent-request", "op {n}: {q:?} for {:?}", els[i].id);
                                    if let Some(b) = blocked.pop_front() {
                                        queue.push_back(b);
                                        els[b].sent = Some(now());
                                    }
                                },
                                (Err(_), None) => break,
                                (got, want) => fail!("sent", "op {n}: took {got:?} off the channel, expected elicitation {:?}", want.map(|i| els[i].id.clone())),
                            }
                        }
                    },
                    E::DropRx => {
                        if rx.take().is_some() {
                            queue.clear();
                            for b in blocked.drain(..) {
                                els[b].res = Some(Res::Failed);
                                els[b].done = Some(now());
                            }
                        }
                    },
                    _ => {},
                }
                settle().await;
                let t = now();
                for e in els.iter_mut() {
                    let Some(s) = e.sent else { continue };
                    if e.res.is_none() && t >= s + timeout {
                        e.res = Some(Res::Timeout);
                        e.done = Some(s + timeout);
                        kinds.insert("timed out");
                    } else if e.res.is_some() && e.done.is_none() {
                        e.done = Some(t);
                    }
                }
                ensure_eq!(mgr.pending_count().await, unresolved(&els).len(), "pending-count", "after op {n} {op:?}");
                for (k, at, r) in out.lock().unwrap().drain(..) {
                    let e = &els[k];
                    let (Some(res), Some(done)) = (&e.res, e.done) else { fail!("early", "op {n}: {:?} returned {r:?}", e.id) };
                    match (res, &r) {
                        (Res::Resp(v), Ok(r)) => {
                            let got = resp_v(r);
                            let m = if v.as_array().unwrap().len() == 3 { Value::Array(got.as_array().unwrap()[..3].to_vec()) == *v } else { same(&got, v) };
                            ensure!(m, "answer", "op {n}: {:?} returned {got}, resolved with {v}", e.id);
                        },
                        (Res::Timeout, Err(err)) => {
                            ensure!(err.is_error_code(ErrorCode::REQUEST_TIMEOUT), "timeout-error", "{err:?}");
                            ensure_eq!(at, done, "wrong-deadline", "{:?} sent at {:?}", e.id, e.sent);
                        },
                        (Res::Failed, Err(err)) => ensure!(!err.is_error_code(ErrorCode::REQUEST_TIMEOUT), "send-error", "{err:?}"),
                        _ => fail!("answer", "op {n}: {:?} returned {r:?}, resolved with {res:?}", e.id),
                    }
                    // once seen, never again
                    els[k].sent = None;
                    ensure!(!std::mem::replace(&mut seen[k], true), "twice", "{:?} returned twice", els[k].id);
                }
                for (k, e) in els.iter().enumerate() {
                    ensure!(e.done.is_none() || seen[k], "unresolved", "op {n}: {:?} was resolved with {:?} and never returned", e.id, e.res);
                }
            }
            Ok(Info::nt(overlap && kinds.len() >= 2).label(kinds.contains("timed out"), "a timeout").label(*cap < 64, "small channel"))
        })
    });
    // a manager nobody connected refuses at once
    c.check(sub("unconfigured", 300, "always"), || text().boxed(), |t: &String| {
        vrt(async {
            let m = ElicitationManager::default();
            let r = tokio::time::timeout(Duration::from_secs(1), m.elicit_input(elicit_text(t.clone()).build())).await;
            let Ok(r) = r else { fail!("hang", "elicitation without a channel waits") };
            ensure!(r.is_err() && m.pending_count().await == 0, "unconfigured", "{r:?}");
            Ok(Info::nt(true))
        })
    });
    let bs = || {
        let o = (scalar(), text(), option::of(text()), any::<bool>());
        let b = prop_oneof![
            2 => text().prop_map(B::Id),
            2 => text().prop_map(B::Desc),
            2 => jval().prop_map(B::Default),
            2 => Just(B::Required),
            2 => flt().prop_map(B::Min),
            2 => flt().prop_map(B::Max),
            2 => text().prop_map(B::Pattern),
            2 => vec(o, 0..3).prop_map(B::Options),
            2 => (ident(), jval()).prop_map(|(k, v)| B::Meta(format!("x{k}"), v)),
        ];
        (0usize..15, text(), 0u8..6, vec(b, 0..8)).boxed()
    };
    c.check(sub("builder", 15_000, "at least two validation settings"), bs, |(ty, prompt, ctor, bs): &(usize, String, u8, Vec<B>)| {
        let opts = |v: &Vec<(Value, String, Option<String>, bool)>| v.iter().map(|(a, b, c, d)| SelectOption { value: a.clone(), label: b.clone(), description: c.clone(), disabled: *d }).collect::<Vec<_>>();
        let one = vec![(json!(1), "one".to_string(), None, false)];
        let (mut q, tn) = match ctor {
            0 => (elicit_text(prompt.clone()), "text"),
            1 => (elicit_boolean(prompt.clone()), "boolean"),
            2 => (elicit_number(prompt.clone()), "number"),
            3 => (elicit_file(prompt.clone()), "filePath"),
            4 => (elicit_select(prompt.clone(), opts(&one)), "select"),
            _ => (ElicitInputBuilder::new(TYPES[*ty].0.clone(), prompt.clone()), TYPES[*ty].1),
        };
        let mut want = json!({"inputType": tn, "prompt": prompt});
        let mut val = json!({});
        let mut any_val = 0;
        let ov = |v: &Vec<(Value, String, Option<String>, bool)>| {
            Value::Array(v.iter().map(|(a, b, c, d)| {
                let mut o = json!({"value": a, "label": b, "disabled": d});
                if let Some(c) = c {
                    o["description"] = json!(c);
                }
                o
            }).collect())
        };
        if *ctor == 4 {
            val["options"] = ov(&one);
            any_val += 1;
        }
        let mut id = None;
        for b in bs {
            match b {
                B::Id(s) => { id = Some(s.clone()); q = q.id(s.clone()) },
                B::Desc(s) => { want["description"] = json!(s); q = q.description(s.clone()) },
                B::Default(v) => { want["default"] = v.clone(); q = q.default(v.clone()) },
                B::Required => { val["required"] = json!(true); any_val += 1; q = q.required() },
                B::Min(f) => { val["min"] = json!(f); any_val += 1; q = q.min(*f) },
                B::Max(f) => { val["max"] = json!(f); any_val += 1; q = q.max(*f) },
                B::Pattern(s) => { val["pattern"] = json!(s); any_val += 1; q = q.pattern(s.clone()) },
                B::Options(o) => { val["options"] = ov(o); any_val += 1; q = q.options(opts(o)) },
                B::Meta(k, v) => { want[k] = v.clone(); q = q.metadata(k.clone(), v.clone()) },
            }
        }
        if any_val > 0 {
            if val.get("required").is_none() {
                val["required"] = json!(false);
            }
            want["validation"] = val;
        }
        let r = q.build();
        match id {
            Some(i) => want["elicitationId"] = json!(i),
            None => {
                ensure!(r.elicitation_id.len() >= 16 && elicit_text("x").build().elicitation_id != r.elicitation_id, "builder-id", "{:?}", r.elicitation_id);
                want["elicitationId"] = json!(r.elicitation_id);
            },
        }
        let got = serde_json::to_value(&r).unwrap();
        ensure!(same(&got, &want), "builder", "built {got}, expected {want}");
        Ok(Info::nt(any_val >= 2).label(bs.len() > 4, "long chain"))
    });
}

fn note(n: &Notification) -> Value {
    let (m, p) = wire::not_o(n);
    match p {
        Some(p) => json!({"method": m, "params": p}),
        None => json!({"method": m}),
    }
}

// ---- C32 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum S {
    Sub(u8, u8),
    Unsub(u8, u8),
    Gone(u8),
    Update(u8),
    Clone_,
}
const URIS: [&str; 5] = ["file:///a", "file:///a/", "file:///A", "res://x?y=1", "ü"];
const WHO: [&str; 4] = ["c1", "c10", "C1", "клиент"];

pub fn c32(c: &mut Ctx) {
    let strat = |n: usize| {
        let op = prop_oneof![6 => (0u8..5, 0u8..4).prop_map(|(a, b)| S::Sub(a, b)), 4 => (0u8..5, 0u8..4).prop_map(|(a, b)| S::Unsub(a, b)), 1 => (0u8..4).prop_map(S::Gone), 5 => (0u8..5).prop_map(S::Update), 1 => Just(S::Clone_)];
        vec(op, 1..n).boxed()
    };
    c.check(sub("manager", 40_000, "an update goes to two subscribers and another to none after an unsubscription"), move || strat(40), |ops: &Vec<S>| {
        vrt(async {
            let log = am(Vec::<Value>::new());
            let mut m = SubscriptionManager::new();
            let l = log.clone();
            m.set_notification_sender(move |n: ServerNotification| l.lock().unwrap().push(note(&Notification::Server(n))));
            let mut rel: BTreeSet<(u8, u8)> = BTreeSet::new();
            let (mut two, mut unsub, mut none_after) = (false, false, false);
            for (n, op) in ops.iter().enumerate() {
                let mut want = vec![];
                match op {
                    S::Sub(u, w) => {
                        ensure!(m.subscribe(URIS[*u as usize].into(), WHO[*w as usize].into()).await.is_ok(), "subscribe", "op {n}");
                        rel.insert((*u, *w));
                    },
                    S::Unsub(u, w) => {
                        ensure!(m.unsubscribe(URIS[*u as usize].into(), WHO[*w as usize].into()).await.is_ok(), "unsubscribe", "op {n}");
                        unsub |= rel.remove(&(*u, *w));
                    },
                    S::Gone(w) => {
                        ensure!(m.unsubscribe_all(WHO[*w as usize]).await.is_ok(), "unsubscribe-all", "op {n}");
                        rel.retain(|x| x.1 != *w);
                    },
                    S::Clone_ => m = m.clone(),
                    S::Update(u) => {
                        let k = rel.iter().filter(|x| x.0 == *u).count();
                        let r = m.notify_resource_updated(URIS[*u as usize].into()).await;
                        ensure!(matches!(r, Ok(x) if x == k), "count", "op {n}: update reached {r:?}, {k} subscribers");
                        if k > 0 {
                            want.push(json!({"method": "notifications/resources/updated", "params": {"uri": URIS[*u as usize]}}));
                        }
                        two |= k >= 2;
                        none_after |= unsub && k == 0;
                    },
                }
                let got: Vec<Value> = log.lock().unwrap().drain(..).collect();
                ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| canon(a) == canon(b)), "notified", "op {n} {op:?}: sent {got:?}, expected {want:?}");
                for (i, w) in WHO.iter().enumerate() {
                    let mut g = m.get_subscriptions(w).await;
                    g.sort();
                    let mut e: Vec<String> = rel.iter().filter(|x| x.1 as usize == i).map(|x| URIS[x.0 as usize].to_string()).collect();
                    e.sort();
                    ensure_eq!(g, e, "subscriptions", "of {w} after op {n}");
                }
                for (i, u) in URIS.iter().enumerate() {
                    let mut g = m.get_subscribers(u).await;
                    g.sort();
                    let mut e: Vec<String> = rel.iter().filter(|x| x.0 as usize == i).map(|x| WHO[x.1 as usize].to_string()).collect();
                    e.sort();
                    ensure!(m.has_subscribers(u).await != e.is_empty(), "has-subscribers", "{u} after op {n}");
                    ensure_eq!(g, e, "subscribers", "of {u} after op {n}");
                }
                let st = m.get_stats().await;
                let (us, ws): (BTreeSet<u8>, BTreeSet<u8>) = (rel.iter().map(|x| x.0).collect(), rel.iter().map(|x| x.1).collect());
                ensure_eq!((st.total_resources, st.total_subscriptions, st.unique_subscribers), (us.len(), rel.len(), ws.len()), "stats", "after op {n}");
                let avg = if us.is_empty() { 0.0 } else { rel.len() as f64 / us.len() as f64 };
                ensure!((st.subscriptions_per_resource - avg).abs() < 1e-9, "stats", "average {} for {avg}", st.subscriptions_per_resource);
            }
            Ok(Info::nt(two && none_after))
        })
    });
    // many subscribers and resources
    let many = || (vec(0u16..70, 1..90), vec((0u8..40, 0u16..70), 0..200), vec(0u16..70, 0..4), vec((0u8..40, 0u16..70), 0..40)).boxed();
    type Many = (Vec<u16>, Vec<(u8, u16)>, Vec<u16>, Vec<(u8, u16)>);
    c.check(sub("many", 400, "one resource has more than twenty subscribers").mul(10), many, |(one, rest, gone, off): &Many| {
        vrt(async {
            let log = am(Vec::<Value>::new());
            let mut m = SubscriptionManager::new();
            let l = log.clone();
            m.set_notification_sender(move |n: ServerNotification| l.lock().unwrap().push(note(&Notification::Server(n))));
            let (uri, who) = (|u: u8| format!("res://{u}"), |w: u16| format!("client-{w}"));
            let mut rel: BTreeSet<(u8, u16)> = BTreeSet::new();
            for (u, w) in one.iter().map(|w| (0u8, *w)).chain(rest.iter().copied()) {
                ensure!(m.subscribe(uri(u), who(w)).await.is_ok(), "subscribe", "{u} {w}");
                rel.insert((u, w));
            }
            for w in gone {
                ensure!(m.unsubscribe_all(&who(*w)).await.is_ok(), "unsubscribe-all", "{w}");
                rel.retain(|x| x.1 != *w);
            }
            for (u, w) in off {
                ensure!(m.unsubscribe(uri(*u), who(*w)).await.is_ok(), "unsubscribe", "{u} {w}");
                rel.remove(&(*u, *w));
            }
            for u in 0..40u8 {
                let want: BTreeSet<String> = rel.iter().filter(|x| x.0 == u).map(|x| who(x.1)).collect();
                let got = m.get_subscribers(&uri(u)).await;
                ensure!(got.len() == want.len() && got.into_iter().collect::<BTreeSet<_>>() == want, "subscribers", "of {u}");
                let r = m.notify_resource_updated(uri(u)).await;
                ensure!(matches!(r, Ok(x) if x == want.len()), "count", "update of {u} reached {r:?}, {} subscribers", want.len());
                let n = log.lock().unwrap().drain(..).count();
                ensure_eq!(n, usize::from(!want.is_empty()), "notified", "update of {u}");
            }
            for w in 0..70u16 {
                let got: BTreeSet<String> = m.get_subscriptions(&who(w)).await.into_iter().collect();
                ensure_eq!(got, rel.iter().filter(|x| x.1 == w).map(|x| uri(x.0)).collect(), "subscriptions", "of {w}");
            }
            let st = m.get_stats().await;
            let (us, ws): (BTreeSet<u8>, BTreeSet<u16>) = (rel.iter().map(|x| x.0).collect(), rel.iter().map(|x| x.1).collect());
            ensure_eq!((st.total_resources, st.total_subscriptions, st.unique_subscribers), (us.len(), rel.len(), ws.len()), "stats", "at the end");
            Ok(Info::nt(rel.iter().filter(|x| x.0 == 0).count() > 20))
        })
    });
    // the server's own entry points keep the same relation
    c.check(sub("server", 8_000, "an update with subscribers and one without"), move || (strat(20), 0u8..4).boxed(), |(ops, blank): &(Vec<S>, u8)| {
        vrt(async {
            let s = Server::builder().name("s").version("1").build().unwrap();
            let mut rel: BTreeSet<(u8, u8)> = BTreeSet::new();
            let (mut some, mut none) = (false, false);
            for (n, op) in ops.iter().enumerate() {
                match op {
                    S::Sub(u, w) => {
                        ensure!(s.subscribe_resource(URIS[*u as usize].into(), WHO[*w as usize].into()).await.is_ok(), "subscribe", "op {n}");
                        rel.insert((*u, *w));
                    },
                    S::Unsub(u, w) => {
                        ensure!(s.unsubscribe_resource(URIS[*u as usize].into(), WHO[*w as usize].into()).await.is_ok(), "unsubscribe", "op {n}");
                        rel.remove(&(*u, *w));
                    },
                    S::Update(u) => {
                        let k = rel.iter().filter(|x| x.0 == *u).count();
                        let r = s.notify_resource_updated(URIS[*u as usize].into()).await;
                        ensure!(matches!(r, Ok(x) if x == k), "count", "op {n}: update reached {r:?}, {k} subscribers");
                        some |= k > 0;
                        none |= k == 0;
                    },
                    _ => {
                        let (u, w) = [("", "c1"), ("file:///a", ""), ("", ""), ("", "c1")][*blank as usize];
                        let r = if *blank == 3 { s.unsubscribe_resource(u.into(), w.into()).await } else { s.subscribe_resource(u.into(), w.into()).await };
                        ensure!(r.is_err(), "blank", "subscription of {w:?} to {u:?} accepted");
                    },
                }
            }
            Ok(Info::nt(some && none))
        })
    });
    // a client's own subscription request
    c.check(sub("protocol", 200, "always"), || (0usize..5).boxed(), |u: &usize| {
        vrt(async {
            let s = Arc::new(Server::builder().name("s").version("1").build().unwrap());
            let r = s.handle_batch_request(BatchRequest::Single(jreq(&json!({"jsonrpc": "2.0", "id": 1, "method": "resources/subscribe", "params": {"uri": URIS[*u]}})))).await;
            let acked = r.map(|r| serde_json::to_value(r).unwrap().get("result").is_some()).unwrap_or(false);
            let k = s.notify_resource_updated(URIS[*u].into()).await.unwrap_or(0);
            ensure!(!acked || k == 1, "subscribe-request-ignored", "resources/subscribe for {} was acknowledged; an update then reached {k} subscribers", URIS[*u]);
            Ok(Info::nt(true))
        })
    });
}

// ---- C33 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum R {
    Register(String, Option<String>),
    /// unregister the k-th accepted registration, when not yet done
    Unregister(usize),
    Clone_,
}
pub fn c33(c: &mut Ctx) {
    let strat = || {
        let uri = prop_oneof![
            6 => (0u8..4).prop_map(|i| format!("file:///p{i}")),
            2 => text().prop_map(|t| format!("file://{t}")),
            2 => prop_oneof![Just("file:/p"), Just("FILE:///p"), Just(" file:///p"), Just("http://x/file://"), Just(""), Just("file:"), Just("file//:p")].prop_map(String::from),
            1 => text(),
        ];
        let op = prop_oneof![8 => (uri, option::of(prop_oneof![(0u8..3).prop_map(|i| format!("n{i}")), text()])).prop_map(|(a, b)| R::Register(a, b)), 5 => (0usize..20).prop_map(R::Unregister), 1 => Just(R::Clone_)];
        (any::<bool>(), vec(op, 1..30)).boxed()
    };
    c.check(sub("history", 30_000, "a root is unregistered while others stay registered"), strat, |(via_server, ops): &(bool, Vec<R>)| {
        vrt(async {
            let log = am(Vec::<Value>::new());
            let srv = via_server.then(|| Server::builder().name("s").version("1").build().unwrap());
            let mut m = RootsManager::new();
            let l = log.clone();
            m.set_notification_sender(move |n: ServerNotification| l.lock().unwrap().push(note(&Notification::Server(n))));
            let mut live: Vec<(usize, String, Option<String>)> = vec![];
            let mut undo: Vec<Option<Box<dyn FnOnce() + Send>>> = vec![];
            let mut nt = false;
            for (n, op) in ops.iter().enumerate() {
                let mut notes = 0;
                match op {
                    R::Register(u, name) => {
                        let r: Result<Box<dyn FnOnce() + Send>, Error> = match &srv {
                            Some(s) => s.register_root(u.clone(), name.clone()).await.map(|f| Box::new(f) as _),
                            None => m.register_root(u.clone(), name.clone()).await.map(|f| Box::new(f) as _),
                        };
                        ensure!(r.is_ok() == u.starts_with("file://"), "accepted", "op {n}: registering {u:?} accepted={}", r.is_ok());
                        if let Ok(f) = r {
                            live.push((undo.len(), u.clone(), name.clone()));
                            undo.push(Some(f));
                            notes = 1;
                        }
                    },
                    R::Unregister(k) if !undo.is_empty() => {
                        let k = k % undo.len();
                        if let Some(f) = undo[k].take() {
                            f();
                            live.retain(|x| x.0 != k);
                            nt |= !live.is_empty();
                            notes = 1;
                        }
                    },
                    R::Clone_ => m = m.clone(),
                    _ => {},
                }
                settle().await;
                let roots = match &srv {
                    Some(s) => s.get_roots().await,
                    None => {
                        ensure!(m.has_roots().await != live.is_empty(), "has-roots", "after op {n}");
                        m.get_roots().await
                    },
                };
                let got: Vec<(String, Option<String>)> = roots.iter().map(|r| (r.uri.clone(), r.name.clone())).collect();
                let want: Vec<(String, Option<String>)> = live.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
                ensure_eq!(got, want, "roots", "after op {n} {op:?}");
                if srv.is_none() {
                    let notified: Vec<Value> = log.lock().unwrap().drain(..).collect();
                    ensure!(notified.len() == notes && notified.iter().all(|v| v["method"] == "notifications/roots/list_changed"), "notified", "op {n} {op:?}: {notified:?}, expected {notes}");
                }
            }
            Ok(Info::nt(nt).label(undo.len() > 3, "several roots"))
        })
    });
    // asking the client for its roots
    let ask = || {
        let root = (text(), option::of(text())).prop_map(|(u, n)| match n {
            Some(n) => json!({"uri": u, "name": n}),
            None => json!({"uri": u}),
        });
        prop_oneof![4 => vec(root, 0..4).prop_map(|r| (json!({"roots": r}), true)), 1 => jval().prop_filter("an array may stand for an object", |v| !v.is_array()).prop_map(|v| { let ok = v.get("roots").and_then(|r| r.as_array()).is_some_and(|a| a.is_empty()); (v, ok) }), 1 => Just((Value::Null, false)), 1 => Just((json!({"roots": [{"name": "x"}]}), false)), 1 => Just((json!({"roots": {"uri": "file:///"}}), false))].boxed()
    };
    c.check(sub("client_roots", 8_000, "a well-formed non-empty answer"), ask, |(ans, ok): &(Value, bool)| {
        vrt(async {
            let m = RootsManager::new();
            let asked = am(vec![]);
            let a = asked.clone();
            let ans2 = ans.clone();
            let r = m
                .request_client_roots(move |q| async move {
                    a.lock().unwrap().push(serde_json::to_value(&q).unwrap());
                    if ans2.is_null() { Err(Error::internal("no")) } else { Ok(ans2) }
                })
                .await;
            let asked = asked.lock().unwrap().clone();
            ensure!(asked.len() == 1 && asked[0]["method"] == "roots/list", "asked", "{asked:?}");
            match r {
                Ok(r) => ensure!(*ok && serde_json::to_value(&r).unwrap()["roots"] == ans["roots"], "answer", "{r:?} for {ans}"),
                Err(e) => ensure!(!ok, "refused", "{e} for {ans}"),
            }
            Ok(Info::nt(*ok && ans["roots"].as_array().is_some_and(|a| !a.is_empty())))
        })
    });
}

// ---- C34 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum K {
    Create(u8),
    Cancel(u8, Option<String>),
    Remove(u8),
    Clear,
    /// cancel the handed-out token itself
    Direct(usize),
    /// wait on the k-th token, through the handler's extra or the token
    Wait(usize, bool),
    Get(u8),
}
const IDS: [&str; 5] = ["1", "01", "req-α", "", " "];
pub fn c34(c: &mut Ctx) {
    let strat = || {
        let op = prop_oneof![
            6 => (0u8..5).prop_map(K::Create),
            5 => (0u8..5, option::of(text())).prop_map(|(a, b)| K::Cancel(a, b)),
            2 => (0u8..5).prop_map(K::Remove),
            1 => Just(K::Clear),
            1 => (0usize..10).prop_map(K::Direct),
            4 => (0usize..10, any::<bool>()).prop_map(|(a, b)| K::Wait(a, b)),
            2 => (0u8..5).prop_map(K::Get),
        ];
        (any::<bool>(), vec(op, 1..35)).boxed()
    };
    c.check(sub("manager", 40_000, "a request with a waiter is cancelled while another is active"), strat, |(listen, ops): &(bool, Vec<K>)| {
        vrt(async {
            let log = am(Vec::<Value>::new());
            let mut m = CancellationManager::new();
            if *listen {
                let l = log.clone();
                m.set_notification_sender(Arc::new(move |n| l.lock().unwrap().push(note(&n))));
            }
            // every token handed out: (request, handle, cancelled); which one each request has now
            let mut toks: Vec<(u8, tokio_util::sync::CancellationToken, bool)> = vec![];
            let mut cur: BTreeMap<u8, usize> = BTreeMap::new();
            let mut waits: Vec<(usize, tokio::task::JoinHandle<()>)> = vec![];
            let mut nt = false;
            for (n, op) in ops.iter().enumerate() {
                let mut want = vec![];
                match op {
                    K::Create(i) => {
                        let t = m.create_token(IDS[*i as usize].into()).await;
                        cur.insert(*i, toks.len());
                        toks.push((*i, t, false));
                    },
                    K::Cancel(i, why) => {
                        ensure!(m.cancel_request(IDS[*i as usize].into(), why.clone()).await.is_ok(), "cancel", "op {n}");
                        if let Some(k) = cur.remove(i) {
                            nt |= !toks[k].2 && waits.iter().any(|w| w.0 == k) && !cur.is_empty();
                            toks[k].2 = true;
                            if *listen {
                                want.push((IDS[*i as usize], why.clone()));
                            }
                        }
                    },
                    K::Remove(i) => {
                        m.remove_token(IDS[*i as usize]).await;
                        cur.remove(i);
                    },
                    K::Clear => {
                        m.clear().await;
                        for k in cur.values() {
                            toks[*k].2 = true;
                        }
                        cur.clear();
                    },
                    K::Direct(k) if !toks.is_empty() => {
                        let k = k % toks.len();
                        toks[k].1.cancel();
                        toks[k].2 = true;
                    },
                    K::Wait(k, extra) if !toks.is_empty() => {
                        let k = k % toks.len();
                        let t = toks[k].1.clone();
                        let extra = *extra;
                        waits.push((k, tokio::spawn(async move {
                            if extra {
                                RequestHandlerExtra::new("r".into(), t).cancelled().await
                            } else {
                                t.cancelled().await
                            }
                        })));
                    },
                    K::Get(i) => {
                        // a looked-up token is the request's own
                        if let Some(t) = m.get_token(IDS[*i as usize]).await {
                            let Some(k) = cur.get(i) else { fail!("get", "op {n}: a token for {:?}", IDS[*i as usize]) };
                            toks.push((*i, t, toks[*k].2));
                            let last = toks.len() - 1;
                            // both handles name one token: follow the older one
                            let k = *k;
                            toks[last].2 = toks[k].2;
                            ensure_eq!(toks[last].1.is_cancelled(), toks[k].2, "get", "op {n}");
                            toks.pop();
                        }
                    },
                    _ => {},
                }
                settle().await;
                let got: Vec<Value> = log.lock().unwrap().drain(..).collect();
                ensure!(
                    got.len() == want.len()
                        && got.iter().zip(&want).all(|(g, (id, why))| {
                            g["method"] == "notifications/cancelled" && g["params"]["requestId"] == json!(id) && match why { Some(w) => g["params"]["reason"] == json!(w), None => true }
                        }),
                    "notified",
                    "op {n} {op:?}: {got:?}, expected {want:?}"
                );
                for (k, (i, t, canc)) in toks.iter().enumerate() {
                    ensure_eq!(t.is_cancelled(), *canc, "token", "token {k} of {:?} after op {n} {op:?}", IDS[*i as usize]);
                    ensure_eq!(RequestHandlerExtra::new("r".into(), t.clone()).is_cancelled(), *canc, "extra", "token {k}");
                }
                for (i, id) in IDS.iter().enumerate() {
                    let k = cur.get(&(i as u8));
                    let t = m.get_token(id).await;
                    ensure!(t.is_some() == k.is_some(), "active", "{id:?} after op {n} {op:?}: token {}, expected {}", t.is_some(), k.is_some());
                    ensure_eq!(m.is_cancelled(id).await, k.is_some_and(|k| toks[*k].2), "is-cancelled", "{id:?} after op {n}");
                }
                for (k, h) in &waits {
                    ensure_eq!(h.is_finished(), toks[*k].2, "waiter", "on token {k} after op {n} {op:?}");
                }
            }
            for w in waits {
                w.1.abort();
            }
            Ok(Info::nt(nt))
        })
    });
    // through the server: the handler of the named request sees it
    let through = || (vec((0u8..5, prop_oneof![3 => (0i64..5).prop_map(|i| json!(i)), 1 => (0i64..5).prop_map(|i| json!(format!("r{i}")))], 10u64..60), 1..5), vec((0usize..6, 0u64..80), 0..4)).boxed();
    c.check(sub("server", 8_000, "a request in progress is cancelled while another is in progress"), through, |(reqs, cancels): &(Vec<(u8, Value, u64)>, Vec<(usize, u64)>)| {
        vrt(async {
            #[derive(Clone)]
            struct H(A<Vec<(String, u64, bool)>>, Instant);
            impl H {
                async fn go(&self, x: RequestHandlerExtra, ms: u64) {
                    let c = tokio::select! { biased; _ = x.cancelled() => true, _ = tokio::time::sleep(Duration::from_millis(ms * 2)) => false };
                    self.0.lock().unwrap().push((x.request_id.clone(), self.1.elapsed().as_millis() as u64 / 2, c));
                }
            }
            fn ms(s: &str) -> u64 {
                s.trim_start_matches("res://").parse().unwrap_or(0)
            }
            #[async_trait]
            impl ToolHandler for H {
                async fn handle(&self, a: Value, x: RequestHandlerExtra) -> pmcp::Result<Value> {
                    self.go(x, a["ms"].as_u64().unwrap_or(0)).await;
                    Ok(json!(1))
                }
            }
            #[async_trait]
            impl PromptHandler for H {
                async fn handle(&self, a: HashMap<String, String>, x: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> {
                    self.go(x, ms(&a["ms"])).await;
                    Ok(GetPromptResult { description: None, messages: vec![] })
                }
            }
            #[async_trait]
            impl ResourceHandler for H {
                async fn read(&self, uri: &str, x: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
                    self.go(x, ms(uri)).await;
                    Ok(ReadResourceResult { contents: vec![] })
                }
                async fn list(&self, cur: Option<String>, x: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
                    self.go(x, ms(&cur.unwrap_or_default())).await;
                    Ok(ListResourcesResult { resources: vec![], next_cursor: None })
                }
            }
            #[async_trait]
            impl SamplingHandler for H {
                async fn create_message(&self, p: CreateMessageParams, x: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
                    self.go(x, p.max_tokens.unwrap_or(0) as u64).await;
                    Ok(CreateMessageResult { content: Content::Text { text: String::new() }, model: "m".into(), usage: None, stop_reason: None })
                }
            }
            let t0 = Instant::now();
            let log = am(vec![]);
            let h = H(log.clone(), t0);
            let s = Arc::new(Server::builder().name("s").version("1").tool("t", h.clone()).prompt("p", h.clone()).resources(h.clone()).sampling(h).build().unwrap());
            // distinct ids; request i starts at 7i ms
            let mut ids: Vec<Value> = vec![];
            for (_, id, _) in reqs {
                ids.push(if ids.contains(id) { json!(format!("{id}x{}", ids.len())) } else { id.clone() });
            }
            let txt = |v: &Value| v.as_str().map_or_else(|| v.to_string(), String::from);
            let mut hs = vec![];
            for (i, (kind, _, ms)) in reqs.iter().enumerate() {
                let w = match kind {
                    0 => json!({"method": "tools/call", "params": {"name": "t", "arguments": {"ms": ms}}}),
                    1 => json!({"method": "prompts/get", "params": {"name": "p", "arguments": {"ms": ms.to_string()}}}),
                    2 => json!({"method": "resources/read", "params": {"uri": format!("res://{ms}")}}),
                    3 => json!({"method": "resources/list", "params": {"cursor": ms.to_string()}}),
                    _ => json!({"method": "sampling/createMessage", "params": {"messages": [], "maxTokens": ms}}),
                };
                let w = json!({"jsonrpc": "2.0", "id": ids[i], "method": w["method"], "params": w["params"]});
                let s = s.clone();
                let q = jreq(&w);
                let at = Duration::from_millis(14 * i as u64);
                hs.push(tokio::spawn(async move {
                    tokio::time::sleep(at).await;
                    s.handle_batch_request(BatchRequest::Single(q)).await.is_ok()
                }));
            }
            for (who, at) in cancels {
                // requests start and end at even instants
                let id = ids.get(*who).map_or("nobody".into(), txt);
                let s = s.clone();
                let at = Duration::from_millis(at * 2 + 1);
                hs.push(tokio::spawn(async move {
                    tokio::time::sleep(at).await;
                    s.cancel_request(id, None).await.is_ok()
                }));
            }
            for h in hs {
                ensure!(matches!(tokio::time::timeout(Duration::from_secs(60), h).await, Ok(Ok(true))), "call", "a call failed or never returned");
            }
            ensure!(s.cancel_request(String::new(), None).await.is_err(), "blank-id", "accepted");
            ensure!(s.cancel_request(" ".into(), None).await.is_ok(), "unknown-id", "refused");
            let got: BTreeMap<String, (u64, bool)> = log.lock().unwrap().iter().map(|x: &(String, u64, bool)| (x.0.clone(), (x.1, x.2))).collect();
            let mut nt = false;
            for (i, (_, _, ms)) in reqs.iter().enumerate() {
                let start = 7 * i as u64;
                let first = cancels.iter().filter(|c| c.0 == i && c.1 >= start && c.1 < start + ms).map(|c| c.1).min();
                let Some((end, canc)) = got.get(&txt(&ids[i])) else { fail!("handler", "request {} reached no handler", ids[i]) };
                match first {
                    Some(at) => ensure!(*canc && *end <= at, "not-cancelled", "request {} (handler {}) was cancelled at {at}.5 ms and its handler was told: {canc}, at {end} ms", ids[i], reqs[i].0),
                    None => ensure!(!canc && *end == start + ms, "wrongly-cancelled", "request {}: cancelled={canc} at {end} ms", ids[i]),
                }
                nt |= first.is_some_and(|at| reqs.iter().enumerate().any(|(j, r)| j != i && 7 * j as u64 <= at && 7 * j as u64 + r.2 > at));
            }
            Ok(Info::nt(nt).label(reqs.len() > 2, "several requests"))
        })
    });
}

// ---- C35 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum D {
    AddTool(u8),
    RemoveTool(u8),
    AddPrompt(u8),
    RemovePrompt(u8),
    Resources(bool),
    Sampling(bool),
    /// this many listeners more
    Listen(u8),
    Reload(Vec<u8>, Vec<u8>, bool, bool),
}
struct Tag(u64);
#[async_trait]
impl ToolHandler for Tag {
    async fn handle(&self, _: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> {
        Ok(json!(self.0))
    }
}
#[async_trait]
impl PromptHandler for Tag {
    async fn handle(&self, _: HashMap<String, String>, _: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> {
        Ok(GetPromptResult { description: Some(self.0.to_string()), messages: vec![] })
    }
}
#[async_trait]
impl ResourceHandler for Tag {
    async fn read(&self, _: &str, _: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
        Ok(ReadResourceResult { contents: vec![] })
    }
    async fn list(&self, _: Option<String>, _: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
        Ok(ListResourcesResult { resources: vec![], next_cursor: None })
    }
}
#[async_trait]
impl SamplingHandler for Tag {
    async fn create_message(&self, _: CreateMessageParams, _: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
        Err(Error::internal("no"))
    }
}
const NAMES: [&str; 5] = ["add", "Add", "add ", "", "инструмент"];

pub fn c35(c: &mut Ctx) {
    let strat = || {
        let op = prop_oneof![
            5 => (0u8..5).prop_map(D::AddTool),
            4 => (0u8..5).prop_map(D::RemoveTool),
            4 => (0u8..5).prop_map(D::AddPrompt),
            3 => (0u8..5).prop_map(D::RemovePrompt),
            2 => any::<bool>().prop_map(D::Resources),
            2 => any::<bool>().prop_map(D::Sampling),
            1 => Just(D::Listen(1)),
            1 => (1u8..25).prop_map(D::Listen),
            1 => (vec(0u8..5, 0..4), vec(0u8..5, 0..4), any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d)| D::Reload(a, b, c, d)),
        ];
        ((vec(0u8..5, 0..3), vec(0u8..5, 0..3), option::of(wire::server_caps())), vec(op, 1..30)).boxed()
    };
    type St = ((Vec<u8>, Vec<u8>, Option<Value>), Vec<D>);
    c.check(sub("history", 25_000, "an item is replaced or removed after being added, with a listener"), strat, |((st, sp, caps), ops): &St| {
        vrt(async {
            let mut b = Server::builder().name("s").version("1");
            if let Some(c) = caps {
                b = b.capabilities(serde_json::from_value(c.clone()).map_err(|e| Fail::new("harness", e.to_string()))?);
            }
            for i in st {
                b = b.tool(NAMES[*i as usize], Tag(0));
            }
            for i in sp {
                b = b.prompt(NAMES[*i as usize], Tag(0));
            }
            let server = Arc::new(b.build().unwrap());
            // what the server announces on its own
            let iw = json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"protocolVersion": "2025-06-18", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}});
            let own = match server.handle_batch_request(BatchRequest::Single(jreq(&iw))).await {
                Ok(r) => serde_json::to_value(&r).unwrap(),
                Err(e) => fail!("initialize", "{e}"),
            };
            let own = own["result"]["capabilities"].clone();
            let mut touched: BTreeSet<&str> = BTreeSet::new();
            let m = DynamicServerManager::new(server);
            let log = am(Vec::<(usize, Value)>::new());
            let mut listeners = 0;
            let mut tools: BTreeMap<u8, u64> = BTreeMap::new();
            let mut prompts: BTreeMap<u8, u64> = BTreeMap::new();
            let (mut replaced, mut heard) = (false, false);
            let ti = |i: u8| ToolInfo { name: NAMES[i as usize].into(), description: None, input_schema: json!({}) };
            let pi = |i: u8| PromptInfo { name: NAMES[i as usize].into(), description: None, arguments: None };
            for (n, op) in ops.iter().enumerate() {
                let tag = n as u64 + 1;
                // for each event expected: the member concerned and whether it must be present
                let mut want: Vec<Option<(&str, bool)>> = vec![];
                match op {
                    D::AddTool(i) => {
                        ensure!(m.add_tool(NAMES[*i as usize], Arc::new(Tag(tag)), ti(*i)).await.is_ok(), "add-tool", "op {n}");
                        replaced |= tools.insert(*i, tag).is_some();
                        want.push(Some(("tools", true)));
                    },
                    D::RemoveTool(i) => {
                        let r = m.remove_tool(NAMES[*i as usize]).await;
                        let had = tools.remove(i).is_some();
                        ensure!(r.is_ok() == had, "remove-tool", "op {n}: removing {:?} gave {r:?}, registered {had}", NAMES[*i as usize]);
                        replaced |= had;
                        if had {
                            want.push(None);
                        }
                    },
                    D::AddPrompt(i) => {
                        ensure!(m.add_prompt(NAMES[*i as usize], Arc::new(Tag(tag)), pi(*i)).await.is_ok(), "add-prompt", "op {n}");
                        replaced |= prompts.insert(*i, tag).is_some();
                        want.push(Some(("prompts", true)));
                    },
                    D::RemovePrompt(i) => {
                        let r = m.remove_prompt(NAMES[*i as usize]).await;
                        let had = prompts.remove(i).is_some();
                        ensure!(r.is_ok() == had, "remove-prompt", "op {n}: removing {:?} gave {r:?}, registered {had}", NAMES[*i as usize]);
                        replaced |= had;
                        if had {
                            want.push(None);
                        }
                    },
                    D::Resources(on) => {
                        let r = if *on { m.set_resource_handler(Arc::new(Tag(tag))).await } else { m.remove_resource_handler().await };
                        ensure!(r.is_ok(), "resources", "op {n}");
                        want.push(Some(("resources", *on)));
                    },
                    D::Sampling(on) => {
                        let r = if *on { m.set_sampling_handler(Arc::new(Tag(tag))).await } else { m.remove_sampling_handler().await };
                        ensure!(r.is_ok(), "sampling", "op {n}");
                        want.push(Some(("sampling", *on)));
                    },
                    D::Listen(more) => {
                        for _ in 0..*more {
                            let l = log.clone();
                            let k = listeners;
                            m.add_capability_listener(move |c: &ServerCapabilities| l.lock().unwrap().push((k, serde_json::to_value(c).unwrap()))).await;
                            listeners += 1;
                        }
                    },
                    D::Reload(t, p, r, s) => {
                        let mut cfg = DynamicConfigBuilder::new();
                        tools.clear();
                        prompts.clear();
                        for (k, i) in t.iter().enumerate() {
                            cfg = cfg.tool(NAMES[*i as usize], Arc::new(Tag(tag * 1000 + k as u64)), ti(*i));
                            tools.insert(*i, tag * 1000 + k as u64);
                        }
                        for (k, i) in p.iter().enumerate() {
                            cfg = cfg.prompt(NAMES[*i as usize], Arc::new(Tag(tag * 1000 + k as u64)), pi(*i));
                            prompts.insert(*i, tag * 1000 + k as u64);
                        }
                        if *r {
                            cfg = cfg.resources(Arc::new(Tag(tag)));
                        }
                        if *s {
                            cfg = cfg.sampling(Arc::new(Tag(tag)));
                        }
                        ensure!(m.reload_configuration(cfg.build()).await.is_ok(), "reload", "op {n}");
                        replaced = true;
                        want.extend(tools.iter().map(|_| Some(("tools", true))));
                        want.extend(prompts.iter().map(|_| Some(("prompts", true))));
                        want.extend(r.then_some(Some(("resources", true))));
                        want.extend(s.then_some(Some(("sampling", true))));
                    },
                }
                let events: Vec<(usize, Value)> = log.lock().unwrap().drain(..).collect();
                heard |= !events.is_empty();
                touched.extend(want.iter().flatten().map(|w| w.0));
                for (_, e) in &events {
                    for f in own.as_object().unwrap().keys().chain(e.as_object().unwrap().keys()).filter(|f| !touched.contains(f.as_str())) {
                        ensure!(e.get(f) == own.get(f), "other-capability", "op {n} {op:?} announced {e}: {f} was {:?} and nothing about it changed", own.get(f));
                    }
                }
                for k in 0..listeners {
                    let mine: Vec<&Value> = events.iter().filter(|e| e.0 == k).map(|e| &e.1).collect();
                    // a reload may announce its changes in any number of steps, at least one when it adds something
                    let reload = matches!(op, D::Reload(..));
                    if !reload {
                        ensure_eq!(mine.len(), want.len(), "events", "told listener {k} about op {n} {op:?}");
                        for (e, w) in mine.iter().zip(&want) {
                            if let Some((f, on)) = w {
                                ensure!(e.get(*f).is_some_and(|v| !v.is_null()) == *on, "event", "op {n} {op:?} announced {e}");
                                if *on && *f != "sampling" {
                                    ensure!(e[*f]["listChanged"] == json!(true), "event", "op {n} {op:?} announced {e}");
                                }
                            }
                        }
                    } else {
                        for w in want.iter().flatten() {
                            ensure!(mine.iter().any(|e| e.get(w.0).is_some_and(|v| !v.is_null())), "event", "op {n} {op:?} never announced {}", w.0);
                        }
                    }
                }
                let (gt, gp) = (m.get_dynamic_tools().await, m.get_dynamic_prompts().await);
                let mut t2 = BTreeMap::new();
                for (k, h) in &gt {
                    let extra = RequestHandlerExtra::new("r".into(), Default::default());
                    t2.insert(k.clone(), h.handle(json!({}), extra).await.ok().and_then(|v| v.as_u64()));
                }
                let mut p2 = BTreeMap::new();
                for (k, h) in &gp {
                    let extra = RequestHandlerExtra::new("r".into(), Default::default());
                    p2.insert(k.clone(), h.handle(HashMap::new(), extra).await.ok().and_then(|v| v.description).and_then(|d| d.parse().ok()));
                }
                ensure_eq!(t2, tools.iter().map(|(k, v)| (NAMES[*k as usize].to_string(), Some(*v))).collect(), "tools", "after op {n} {op:?}");
                ensure_eq!(p2, prompts.iter().map(|(k, v)| (NAMES[*k as usize].to_string(), Some(*v))).collect(), "prompts", "after op {n} {op:?}");
                for (i, name) in NAMES.iter().enumerate() {
                    let i = i as u8;
                    ensure_eq!(m.has_tool(name).await, tools.contains_key(&i) || st.contains(&i), "has-tool", "{name:?} after op {n} {op:?}");
                    ensure_eq!(m.has_prompt(name).await, prompts.contains_key(&i) || sp.contains(&i), "has-prompt", "{name:?} after op {n} {op:?}");
                }
            }
            Ok(Info::nt(replaced && heard).label(listeners > 1, "two listeners"))
        })
    });
}
