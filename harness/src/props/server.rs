//! C03, C04, C05, C09, C10: server dispatch, message loop, batches, pending requests.
use crate::core::*;
use crate::gen::*;
use crate::srv::*;
use crate::wire::{self, W};
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::{Error, TransportError};
use pmcp::shared::batch::{process_batch_request, BatchRequest, BatchResponse};
use pmcp::shared::protocol::TransportId;
use pmcp::shared::{Protocol, ProtocolOptions, Transport, TransportMessage};
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::*;
use pmcp::utils::parallel_batch::{
    process_batch_parallel, process_batch_parallel_stateful, rate_limited_processor, BatchProcessor, ParallelBatchConfig,
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;

pub fn jreq(w: &Value) -> JSONRPCRequest {
    JSONRPCRequest {
        jsonrpc: "2.0".into(),
        id: RequestId::i(&w["id"]),
        method: w["method"].as_str().unwrap().into(),
        params: w.get("params").cloned(),
    }
}
async fn single(s: &Arc<pmcp::Server>, w: &Value) -> Result<JSONRPCResponse, Fail> {
    let r = s.handle_batch_request(BatchRequest::Single(jreq(w))).await.map_err(|e| Fail::new("handle", format!("{w}: {e}")))?;
    let mut v = r.into_responses();
    ensure_eq!(v.len(), 1, "count", "responses to {w}");
    Ok(v.pop().unwrap())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    spec: Spec,
    reqs: Vec<Value>,
}

pub fn c04(c: &mut Ctx) {
    c.check(
        sub("history", 8_000, "at least one handler ran"),
        || (spec(), vec(request(), 1..8)).prop_map(|(spec, reqs)| Hist { spec, reqs }).boxed(),
        |h: &Hist| {
            let log: Log = am(vec![]);
            let mut ok = 0;
            vrt(async {
                let s = Arc::new(build(&h.spec, &log));
                for t in &h.spec.tools {
                    ensure!(s.has_tool(&t.name), "has-tool", "{:?} registered but not found", t.name);
                }
                for t in &h.spec.prompts {
                    ensure!(s.has_prompt(&t.name), "has-prompt", "{:?} registered but not found", t.name);
                }
                let mut init: Option<Value> = None;
                for w in &h.reqs {
                    if w["method"] == "tools/call" || w["method"] == "prompts/get" {
                        let n = w["params"]["name"].as_str().unwrap();
                        let (has, l) =
                            if w["method"] == "tools/call" { (s.has_tool(n), &h.spec.tools) } else { (s.has_prompt(n), &h.spec.prompts) };
                        ensure_eq!(has, l.iter().any(|t| t.name == n), "has", "registered {n:?}");
                    }
                    let before = log.lock().unwrap().len();
                    let t0 = Instant::now();
                    let r = single(&s, w).await?;
                    if check_response(&h.spec, w, &r)? {
                        ok += 1;
                    }
                    let (_, call, d) = model(&h.spec, w);
                    let got: Vec<Call> = log.lock().unwrap()[before..].to_vec();
                    let want: Vec<Call> =
                        call.into_iter().map(|(kind, idx, arg)| Call { kind, idx, arg, rid: rid_text(&w["id"]) }).collect();
                    ensure_eq!(got, want, "handler-calls", "handlers run for {w}");
                    ensure!(t0.elapsed() >= Duration::from_millis(d), "answered-early", "{w} answered before its handler finished");
                    if w["method"] == "initialize" {
                        init = Some(w["params"]["capabilities"].clone());
                    }
                    ensure_eq!(s.is_initialized().await, init.is_some(), "initialized", "initialized flag after {w}");
                    let cc = s.get_client_capabilities().await.map(|c| c.o());
                    ensure_eq!(cc, init, "client-caps", "stored client capabilities after {w}");
                }
                Ok(())
            })?;
            let n = log.lock().unwrap().len();
            Ok(Info::nt(n > 0)
                .label(n > 1, "several calls")
                .label(ok < h.reqs.len(), "error answers")
                .label(h.reqs.iter().any(|w| w["method"] == "initialize"), "initialize"))
        },
    );
    c.check(
        sub("builder", 10_000, "name or version missing"),
        || (prop::option::of(text()), prop::option::of(text()), spec()).boxed(),
        |(n, v, _s): &(Option<String>, Option<String>, Spec)| {
            let mut b = pmcp::Server::builder();
            if let Some(n) = n {
                b = b.name(n.clone());
            }
            if let Some(v) = v {
                b = b.version(v.clone());
            }
            let r = b.build();
            ensure_eq!(r.is_ok(), n.is_some() && v.is_some(), "build", "build with name {n:?} version {v:?}");
            Ok(Info::nt(r.is_err()))
        },
    );
}

// ---------- C05 ----------
#[derive(Debug)]
pub struct Chan {
    rx: mpsc::UnboundedReceiver<Result<TransportMessage, Error>>,
    out: A<Vec<(u64, TransportMessage)>>,
    t0: Instant,
}
#[async_trait]
impl Transport for Chan {
    async fn send(&mut self, m: TransportMessage) -> Result<(), Error> {
        self.out.lock().unwrap().push((self.t0.elapsed().as_millis() as u64, m));
        Ok(())
    }
    async fn receive(&mut self) -> Result<TransportMessage, Error> {
        match self.rx.recv().await {
            Some(r) => r,
            None => Err(TransportError::ConnectionClosed.into()),
        }
    }
    async fn close(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    Msg(Value),
    Junk(String),
    Gap(u64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Loop {
    spec: Spec,
    evs: Vec<Ev>,
}
fn evs() -> BoxedStrategy<Vec<Ev>> {
    vec(
        prop_oneof![
            6 => request().prop_map(Ev::Msg),
            2 => wire::notification_wire().prop_map(Ev::Msg),
            1 => wire::response_wire().prop_map(Ev::Msg),
            1 => text().prop_map(Ev::Junk),
            2 => delay().prop_map(Ev::Gap),
        ],
        1..14,
    )
    .boxed()
}
pub fn c05(c: &mut Ctx) {
    c.check(
        sub("loop", 8_000, "at least two requests and one other message"),
        || (spec(), evs()).prop_map(|(spec, evs)| Loop { spec, evs }).boxed(),
        |l: &Loop| {
            let log: Log = am(vec![]);
            let out = am(vec![]);
            let reqs: Vec<&Value> = l
                .evs
                .iter()
                .filter_map(|e| match e {
                    Ev::Msg(w) if w.get("method").is_some() && w.get("id").is_some() => Some(w),
                    _ => None,
                })
                .collect();
            let mut arrive = vec![];
            vrt(async {
                let s = build(&l.spec, &log);
                let (tx, rx) = mpsc::unbounded_channel();
                let t0 = Instant::now();
                let run = tokio::spawn(s.run(Chan { rx, out: out.clone(), t0 }));
                for e in &l.evs {
                    match e {
                        Ev::Msg(w) => {
                            if w.get("method").is_some() && w.get("id").is_some() {
                                arrive.push(t0.elapsed().as_millis() as u64);
                            }
                            let _ = tx.send(Ok(wire::msg_i(w, 0)));
                        },
                        Ev::Junk(t) => {
                            // what a transport reports for bytes that are not a message
                            let e = pmcp::StdioTransport::parse_message(format!("!{t}").as_bytes()).unwrap_err();
                            let _ = tx.send(Err(e));
                        },
                        Ev::Gap(d) => tokio::time::sleep(Duration::from_millis(*d)).await,
                    }
                }
                let total: u64 = reqs.iter().map(|w| model(&l.spec, w).2).sum();
                tokio::time::sleep(Duration::from_millis(total + 10_000)).await;
                run.abort();
            });
            let out = out.lock().unwrap();
            ensure!(
                out.iter().all(|(_, m)| matches!(m, TransportMessage::Response(_))),
                "uncaused",
                "the server sent something other than responses: {:?}",
                out.iter().find(|(_, m)| !matches!(m, TransportMessage::Response(_)))
            );
            ensure_eq!(out.len(), reqs.len(), "count", "responses for {} requests", reqs.len());
            let mut free = 0u64;
            for (i, ((at, m), w)) in out.iter().zip(&reqs).enumerate() {
                let TransportMessage::Response(r) = m else { unreachable!() };
                check_response(&l.spec, w, r)?;
                free = free.max(arrive[i]) + model(&l.spec, w).2;
                ensure!(*at <= free + 1000, "late", "request {i} answered at {at} ms, handler done by {free} ms");
            }
            let want = expected_calls(&l.spec, &reqs.iter().map(|w| (*w).clone()).collect::<Vec<_>>());
            let got = log.lock().unwrap().clone();
            ensure_eq!(got, want, "handler-calls", "handlers run by the loop");
            Ok(Info::nt(reqs.len() > 1 && l.evs.len() > reqs.len())
                .label(l.evs.iter().any(|e| matches!(e, Ev::Junk(_))), "undecodable message")
                .label(reqs.len() > 4, "five or more requests"))
        },
    );
}

// ---------- C03 ----------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Item {
    wire: Value,
    bad: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    spec: Spec,
    items: Vec<Item>,
    single: bool,
}
fn spoil(w: &Value, bad: u8) -> (Value, bool) {
    let mut w = w.clone();
    match bad {
        1 => {
            let m = format!("{}/nope", w["method"].as_str().unwrap());
            w["method"] = json!(m);
        },
        2 if w["method"] == "tools/call" || w["method"] == "prompts/get" => {
            w["params"].as_object_mut().unwrap().remove("name");
        },
        3 if w["method"] == "resources/read" => w["params"]["uri"] = json!(17),
        4 if w["method"] == "tools/call" => w["params"] = json!([1, 2]),
        _ => return (w, false),
    }
    (w, true)
}
pub fn c03(c: &mut Ctx) {
    c.check(
        sub("server_batch", 6_000, "two or more items"),
        || {
            let item = (request(), prop_oneof![5 => Just(0u8), 1 => 1u8..5]).prop_map(|(wire, bad)| Item { wire, bad });
            (spec(), vec(item, 0..10), any::<bool>()).prop_map(|(spec, items, single)| Batch { spec, items, single }).boxed()
        },
        |b: &Batch| {
            let ws: Vec<(Value, bool)> = b.items.iter().map(|i| spoil(&i.wire, i.bad)).collect();
            let log: Log = am(vec![]);
            let doc = if b.single && ws.len() == 1 {
                ws[0].0.clone()
            } else {
                Value::Array(ws.iter().map(|w| w.0.clone()).collect())
            };
            let batch = BatchRequest::from_value(doc.clone()).map_err(|e| Fail::new("batch-parse", format!("{doc}: {e}")))?;
            ensure_eq!(batch.is_batch(), doc.is_array(), "batch-kind", "{doc}");
            ensure_eq!(batch.len(), ws.len(), "batch-len", "{doc}");
            ensure_eq!(batch.is_empty(), ws.is_empty(), "batch-empty", "{doc}");
            let back = batch.to_value().map_err(|e| Fail::new("batch-serialize", e.to_string()))?;
            ensure!(back == doc, "batch-roundtrip", "{doc} came back as {back}");
            let (all, alone, ms) = vrt(async {
                let s = Arc::new(build(&b.spec, &log));
                let t0 = Instant::now();
                let all = s.handle_batch_request(batch).await;
                let ms = t0.elapsed().as_millis() as u64;
                let l2: Log = am(vec![]);
                let s2 = Arc::new(build(&b.spec, &l2));
                let mut alone = vec![];
                for (w, _) in &ws {
                    alone.push(single(&s2, w).await?);
                }
                Ok::<_, Fail>((all, alone, ms))
            })?;
            let all = all.map_err(|e| Fail::new("batch-failed", format!("{doc}: {e}")))?;
            let wire_out = all.to_value().map_err(|e| Fail::new("batch-serialize", e.to_string()))?;
            ensure!(ws.len() < 2 || wire_out.as_array().is_some_and(|a| a.len() == ws.len()), "batch-out", "{doc} answered with {wire_out}");
            let all = all.into_responses();
            ensure_eq!(all.len(), ws.len(), "count", "responses to {doc}");
            let mut bad = 0;
            for (i, (w, spoiled)) in ws.iter().enumerate() {
                let (r, a) = (&all[i], &alone[i]);
                ensure_eq!(serde_json::to_value(&r.id).unwrap(), w["id"], "id", "item {i} of {doc}");
                let same = match (&r.payload, &a.payload) {
                    (ResponsePayload::Error(x), ResponsePayload::Error(y)) => x.code == y.code && x.message == y.message && x.data == y.data,
                    (ResponsePayload::Result(x), ResponsePayload::Result(y)) => sorted(x) == sorted(y),
                    _ => false,
                };
                ensure!(same, "batch-differs", "item {i} of {doc}: in the batch {:?}, alone {:?}", r.payload, a.payload);
                if *spoiled {
                    bad += 1;
                    ensure!(matches!(r.payload, ResponsePayload::Error(_)), "malformed-accepted", "item {i} of {doc}: {:?}", r.payload);
                } else {
                    check_response(&b.spec, w, r)?;
                }
            }
            let good: Vec<Value> = ws.iter().filter(|w| !w.1).map(|w| w.0.clone()).collect();
            let mut want = expected_calls(&b.spec, &good);
            let mut got = log.lock().unwrap().clone();
            let key = |c: &Call| format!("{} {} {} {}", c.kind, c.idx, c.rid, canon(&c.arg));
            want.sort_by_key(key);
            got.sort_by_key(key);
            ensure_eq!(got, want, "handler-calls", "handlers run for {doc}");
            let _ = ms;
            Ok(Info::nt(ws.len() > 1).label(bad > 0, "malformed item").label(ws.is_empty(), "empty").label(ws.len() > 5, "six or more"))
        },
    );
    c.check(
        sub("process", 12_000, "two or more items finishing out of order"),
        || {
            (vec((rid(), prop_oneof![Just(0u64), 1u64..200, 20_000u64..29_000], any::<bool>()), 0..25), any::<bool>()).boxed()
        },
        |(items, one): &(Vec<(Value, u64, bool)>, bool)| {
            let reqs: Vec<JSONRPCRequest> = items
                .iter()
                .enumerate()
                .map(|(i, (id, d, ok))| jreq(&json!({"id": id, "method": "m", "params": {"i": i, "d": d, "ok": ok}})))
                .collect();
            let started = am(vec![]);
            let st = started.clone();
            let batch = if *one && reqs.len() == 1 { BatchRequest::Single(reqs[0].clone()) } else { BatchRequest::Batch(reqs) };
            let r = vrt(async {
                process_batch_request(batch, move |r: JSONRPCRequest| {
                    let st = st.clone();
                    async move {
                        let p = r.params.unwrap();
                        st.lock().unwrap().push(p["i"].as_u64().unwrap());
                        tokio::time::sleep(Duration::from_millis(p["d"].as_u64().unwrap())).await;
                        resp(r.id, p["i"].as_u64().unwrap(), p["ok"].as_bool().unwrap())
                    }
                })
                .await
            })
            .map_err(|e| Fail::new("batch-failed", e.to_string()))?;
            let single_form = matches!(r, BatchResponse::Single(_));
            ensure!(!single_form || items.len() == 1, "form", "{} items answered as a single response", items.len());
            let v = r.into_responses();
            check_order(&v, items.iter().map(|(id, _, ok)| (id.clone(), *ok)).collect())?;
            let mut s = started.lock().unwrap().clone();
            s.sort_unstable();
            ensure_eq!(s, (0..items.len() as u64).collect::<Vec<_>>(), "handler-calls", "items handled");
            let ooo = items.windows(2).any(|w| w[0].1 > w[1].1);
            Ok(Info::nt(items.len() > 1 && ooo).label(items.len() > 10, "more than the concurrency limit"))
        },
    );
    c.check(
        sub("forms", 20_000, "two or more items"),
        || vec(wire::response_wire(), 0..6).boxed(),
        |ws: &Vec<Value>| {
            let rs: Vec<JSONRPCResponse> = ws
                .iter()
                .map(|w| match wire::msg_i(w, 0) {
                    TransportMessage::Response(r) => r,
                    _ => unreachable!(),
                })
                .collect();
            let b = BatchResponse::from_responses(rs);
            let v = b.to_value().map_err(|e| Fail::new("serialize", e.to_string()))?;
            let got: Vec<Value> = if v.is_array() { v.as_array().unwrap().clone() } else { vec![v.clone()] };
            ensure!(v.is_array() || ws.len() == 1, "form", "{} responses serialised as {v}", ws.len());
            ensure!(got == *ws, "batch-roundtrip", "{ws:?} serialised as {v}");
            let back: Vec<Value> = b.into_responses().iter().map(wire::resp_o).collect();
            ensure!(back == *ws, "into-responses", "{ws:?} became {back:?}");
            Ok(Info::nt(ws.len() > 1))
        },
    );
    c.check(
        sub("rejects", 20_000, "an array holding something that is not a request"),
        || (vec(wire::request_wire(), 0..4), jval(), any::<u8>()).boxed(),
        |(ws, junk, at): &(Vec<Value>, Value, u8)| {
            let isreq = |v: &Value| {
                v["jsonrpc"].is_string() && v["method"].is_string() && (v["id"].is_string() || v["id"].is_i64())
            };
            let mut a = ws.clone();
            let k = *at as usize % (a.len() + 1);
            a.insert(k, junk.clone());
            let ok = a.iter().all(isreq);
            let r = BatchRequest::from_value(Value::Array(a.clone()));
            // an array that is no batch must not be taken for one
            if !ok {
                ensure!(r.is_err(), "accepted", "{a:?} accepted as {r:?}");
            }
            let r = BatchRequest::from_value(junk.clone());
            if !isreq(junk) && !junk.as_array().is_some_and(|a| a.iter().all(isreq)) {
                ensure!(r.is_err(), "accepted", "{junk} accepted as {r:?}");
            }
            Ok(Info::nt(!ok))
        },
    );
}
fn sorted(v: &Value) -> Value {
    let mut v = v.clone();
    for k in ["tools", "prompts"] {
        if let Some(a) = v.get_mut(k).and_then(Value::as_array_mut) {
            a.sort_by_key(canon);
        }
    }
    v
}
fn resp(id: RequestId, i: u64, ok: bool) -> JSONRPCResponse {
    JSONRPCResponse {
        jsonrpc: "2.0".into(),
        id,
        payload: if ok {
            ResponsePayload::Result(json!(i))
        } else {
            ResponsePayload::Error(JSONRPCError { code: -(i as i32), message: format!("e{i}"), data: None })
        },
    }
}
fn check_order(v: &[JSONRPCResponse], items: Vec<(Value, bool)>) -> Result<(), Fail> {
    ensure_eq!(v.len(), items.len(), "count", "number of responses");
    for (i, (r, (id, ok))) in v.iter().zip(&items).enumerate() {
        ensure_eq!(serde_json::to_value(&r.id).unwrap(), *id, "id", "response {i}");
        let want = wire::resp_o(&resp(r.id.clone(), i as u64, *ok));
        ensure_eq!(wire::resp_o(r), want, "payload", "response {i}");
    }
    Ok(())
}

// ---------- C10 ----------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Work {
    items: Vec<(Value, u64, bool)>,
    limit: usize,
    timeout: Option<u64>,
    mode: u8,
}
fn work() -> BoxedStrategy<Work> {
    (
        vec((rid(), prop_oneof![1 => Just(0u64), 3 => 1u64..300, 1 => 300u64..5000], prop::bool::weighted(0.7)), 0..30),
        prop_oneof![4 => 1usize..8, 1 => 8usize..100],
        prop::option::of(prop_oneof![1u64..400, 400u64..6000]),
        0u8..3,
    )
        .prop_map(|(items, limit, timeout, mode)| Work { items, limit, timeout, mode })
        .boxed()
}
pub fn c10(c: &mut Ctx) {
    c.check(sub("parallel", 15_000, "more items than the limit, or an item over its timeout"), work, |w: &Work| {
        // a delay equal to the timeout may fall either way
        let items: Vec<(Value, u64, bool)> =
            w.items.iter().map(|(id, d, ok)| (id.clone(), if Some(*d) == w.timeout { d + 1 } else { *d }, *ok)).collect();
        let reqs: Vec<JSONRPCRequest> = items
            .iter()
            .enumerate()
            .map(|(i, (id, d, ok))| jreq(&json!({"id": id, "method": "m", "params": {"i": i, "d": d, "ok": ok}})))
            .collect();
        let active = Arc::new(AtomicUsize::new(0));
        let peak = Arc::new(AtomicUsize::new(0));
        let calls = am(vec![]);
        struct G(Arc<AtomicUsize>);
        impl Drop for G {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let cfg = ParallelBatchConfig { max_concurrency: w.limit, fail_fast: false, request_timeout_ms: w.timeout };
        let (a2, p2, c2) = (active.clone(), peak.clone(), calls.clone());
        let handler = move |r: JSONRPCRequest| {
            let (a, p, c) = (a2.clone(), p2.clone(), c2.clone());
            async move {
                let n = a.fetch_add(1, Ordering::SeqCst) + 1;
                let _g = G(a);
                p.fetch_max(n, Ordering::SeqCst);
                let q = r.params.unwrap();
                c.lock().unwrap().push((q["i"].as_u64().unwrap(), q["d"].as_u64().unwrap()));
                tokio::time::sleep(Duration::from_millis(q["d"].as_u64().unwrap())).await;
                resp(r.id, q["i"].as_u64().unwrap(), q["ok"].as_bool().unwrap())
            }
        };
        let mut metrics = None;
        let n = items.len() as u64;
        let late = |d: u64| w.timeout.is_some_and(|t| d > t);
        let (rs, ms) = vrt(async {
            let t0 = Instant::now();
            let r = match w.mode {
                0 => process_batch_parallel(reqs, handler, cfg).await,
                1 => {
                    let state = Arc::new(tokio::sync::RwLock::new(0u64));
                    let r = process_batch_parallel_stateful(
                        reqs,
                        state.clone(),
                        move |r, s| {
                            let h = handler(r);
                            async move {
                                *s.write().await += 1;
                                h.await
                            }
                        },
                        cfg,
                    )
                    .await;
                    ensure_eq!(*state.read().await, n, "state", "shared state updates");
                    r
                },
                _ => {
                    let p = BatchProcessor::new(cfg);
                    let r = p.process(reqs, handler.clone()).await;
                    let m1 = p.metrics().await;
                    let again = p.process(vec![jreq(&json!({"id": 1, "method": "m", "params": {"i": 0, "d": 0, "ok": true}}))], handler).await;
                    let m2 = p.metrics().await;
                    calls.lock().unwrap().pop();
                    metrics = Some((m1, m2));
                    if let Ok(a) = again {
                        ensure_eq!(a.len(), 1, "count", "second run of the processor");
                    }
                    p.reset_metrics().await;
                    let m = p.metrics().await;
                    ensure!(m.total_requests == 0 && m.successful_responses == 0 && m.error_responses == 0 && m.timeout_responses == 0
                        && m.avg_processing_time_ms == 0.0 && m.max_processing_time_ms == 0, "reset", "reset metrics are {m:?}");
                    r
                },
            };
            Ok::<_, Fail>((r, t0.elapsed().as_millis() as u64))
        })?;
        let rs = rs.map_err(|e| Fail::new("failed", e.to_string()))?;
        ensure_eq!(rs.len(), items.len(), "count", "responses");
        let (mut nok, mut nerr, mut nto) = (0u64, 0u64, 0u64);
        for (i, (r, (id, d, ok))) in rs.iter().zip(&items).enumerate() {
            ensure_eq!(serde_json::to_value(&r.id).unwrap(), *id, "id", "response {i} (delay {d}, timeout {:?})", w.timeout);
            ensure_eq!(r.jsonrpc, "2.0", "version", "version of response {i}");
            if late(*d) {
                nto += 1;
                let ResponsePayload::Error(e) = &r.payload else { fail!("no-timeout", "item {i} ran {d} ms over a timeout of {:?}", w.timeout) };
                ensure!(e.message.to_lowercase().contains("time"), "timeout-error", "timeout reported as {e:?}");
            } else {
                if *ok { nok += 1 } else { nerr += 1 }
                ensure_eq!(wire::resp_o(r), wire::resp_o(&resp(r.id.clone(), i as u64, *ok)), "payload", "response {i}");
            }
        }
        let mut started: Vec<u64> = calls.lock().unwrap().iter().map(|c| c.0).collect();
        started.sort_unstable();
        ensure_eq!(started, (0..n).collect::<Vec<_>>(), "handler-calls", "items handled");
        let p = peak.load(Ordering::SeqCst);
        ensure!(p <= w.limit, "limit", "{p} handlers at once, limit {}", w.limit);
        ensure!(p >= w.limit.min(items.iter().filter(|i| i.1 > 0).count()).min(items.len()), "not-parallel", "only {p} handlers at once, limit {}, {} items", w.limit, items.len());
        // nobody waits longer than a list scheduler on `limit` workers needs
        let mut free = vec![0u64; w.limit];
        for (_, d, _) in &items {
            let k = (0..free.len()).min_by_key(|k| free[*k]).unwrap();
            free[k] += w.timeout.map_or(*d, |t| (*d).min(t));
        }
        let bound = free.iter().max().copied().unwrap_or(0);
        ensure!(ms <= bound + 2 * n + 50, "slow", "took {ms} ms, {bound} ms suffice");
        if let Some((m1, m2)) = metrics {
            let got = (m1.total_requests, m1.successful_responses, m1.error_responses, m1.timeout_responses);
            ensure_eq!(got, (n, nok, nerr, nto), "metrics", "total, successful, error and timeout counts");
            ensure_eq!((m2.total_requests, m2.successful_responses), (n + 1, nok + 1), "metrics", "counts after a second run");
            ensure!(m2.avg_processing_time_ms.is_finite() && m2.avg_processing_time_ms >= 0.0, "average", "average processing time {}", m2.avg_processing_time_ms);
            ensure!(m2.avg_processing_time_ms <= m2.max_processing_time_ms as f64 + 0.001, "average", "average {} above maximum {}", m2.avg_processing_time_ms, m2.max_processing_time_ms);
        }
        let over = items.iter().any(|i| late(i.1));
        Ok(Info::nt(items.len() > w.limit || over).label(over, "timeout").label(items.len() > w.limit, "queued").label(w.mode == 2, "processor"))
    });
    c.check(
        sub("rate", 3_000, "more requests than one second's allowance"),
        || (1usize..30, vec(rid(), 0..80)).boxed(),
        |(rate, ids): &(usize, Vec<Value>)| {
            let p = rate_limited_processor(*rate, ParallelBatchConfig::default());
            let reqs: Vec<JSONRPCRequest> = ids.iter().map(|i| jreq(&json!({"id": i, "method": "m"}))).collect();
            let (r, ms) = vrt(async {
                let t0 = Instant::now();
                let r = p(reqs).await;
                (r, t0.elapsed().as_millis() as u64)
            });
            let r = r.map_err(|e| Fail::new("failed", e.to_string()))?;
            let got: Vec<Value> = r.iter().map(|r| serde_json::to_value(&r.id).unwrap()).collect();
            ensure_eq!(got, *ids, "id", "responses");
            for r in &r {
                ensure_eq!(r.jsonrpc, "2.0", "version", "version of {r:?}");
            }
            if !ids.is_empty() {
                // at most `rate` per second, even when the first second's worth goes at once
                let least = ((ids.len() - 1) / rate) as u64 * 1000;
                ensure!(ms + 20 >= least, "rate", "{} requests in {ms} ms at {rate} per second", ids.len());
                let most = ids.len() as u64 * (1000 / *rate as u64 + 3) + 1000;
                ensure!(ms <= most, "rate-slow", "{} requests took {ms} ms at {rate} per second", ids.len());
            }
            Ok(Info::nt(ids.len() > *rate))
        },
    );
    c.check(
        sub("fail_fast", 200, "an early failure with work still queued"),
        || (1usize..6, 0usize..5).boxed(),
        |(n, bad): &(usize, usize)| {
            let reqs: Vec<JSONRPCRequest> = (0..*n).map(|i| jreq(&json!({"id": i, "method": "m", "params": {"i": i}}))).collect();
            let started = Arc::new(AtomicUsize::new(0));
            let (s2, bad) = (started.clone(), *bad);
            let cfg = ParallelBatchConfig { max_concurrency: 1, fail_fast: true, request_timeout_ms: None };
            let _ = vrt(process_batch_parallel(
                reqs,
                move |r: JSONRPCRequest| {
                    let s = s2.clone();
                    async move {
                        s.fetch_add(1, Ordering::SeqCst);
                        let i = r.params.unwrap()["i"].as_u64().unwrap();
                        resp(r.id, i, i != bad as u64)
                    }
                },
                cfg,
            ));
            let k = started.load(Ordering::SeqCst);
            let max = if bad < *n { bad + 1 } else { *n };
            ensure!(k <= max, "fail-fast-ignored", "{k} of {n} items were run although item {bad} failed with fail_fast set and a limit of 1");
            Ok(Info::nt(bad + 1 < *n))
        },
    );
}

// ---------- C09 ----------
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Register(usize, Value),
    Complete(usize, Value),
    CompleteFor(usize, Value, usize),
    Cancel(usize, Value),
    DropReceiver(usize),
}
pub fn c09(c: &mut Ctx) {
    let ops = || {
        let id = || prop_oneof![4 => (0i64..4).prop_map(Value::from), 2 => (0i64..4).prop_map(|n| Value::from(n.to_string())), 1 => rid()];
        let p = || 0usize..4;
        vec(
            prop_oneof![
                5 => (p(), id()).prop_map(|(a, b)| Op::Register(a, b)),
                3 => (p(), id()).prop_map(|(a, b)| Op::Complete(a, b)),
                3 => (p(), id(), p()).prop_map(|(a, b, c)| Op::CompleteFor(a, b, c)),
                2 => (p(), id()).prop_map(|(a, b)| Op::Cancel(a, b)),
                1 => (0usize..20).prop_map(Op::DropReceiver),
            ],
            1..40,
        )
        .boxed()
    };
    c.check(sub("pending", 30_000, "some request resolved and some refused or cancelled"), ops, |ops: &Vec<Op>| {
        vrt(async {
            // protocols 0 and 3 share one transport id; 1 and 2 have fresh ids
            let shared = TransportId::from_string("shared".into());
            let mut ps: Vec<Protocol> = vec![
                Protocol::with_transport_id(ProtocolOptions::default(), shared.clone()),
                Protocol::new(ProtocolOptions::default()),
                Protocol::new(ProtocolOptions::default()),
                Protocol::with_transport_id(ProtocolOptions::default(), shared.clone()),
            ];
            ensure!(ps[1].transport_id() != ps[2].transport_id(), "transport-id", "two protocols got the same transport id");
            ensure!(ps[0].transport_id() == &shared, "transport-id", "transport id not kept");
            let tids: Vec<TransportId> = ps.iter().map(|p| p.transport_id().clone()).collect();
            let mut pend: Vec<HashMap<String, usize>> = vec![HashMap::new(); 4];
            let mut rx = vec![];
            let mut want: Vec<Option<Value>> = vec![];
            let mut gone: Vec<bool> = vec![];
            let mut dropped: Vec<bool> = vec![];
            let (mut res, mut refuse) = (0, 0);
            for (n, op) in ops.iter().enumerate() {
                let mk = |id: &Value| json!({"jsonrpc": "2.0", "id": id, "result": {"n": n}});
                let r = |id: &Value| match wire::msg_i(&mk(id), 0) {
                    TransportMessage::Response(r) => r,
                    _ => unreachable!(),
                };
                match op {
                    Op::Register(p, id) => {
                        let k = id.to_string();
                        if let Some(old) = pend[*p].insert(k, rx.len()) {
                            gone[old] = true;
                        }
                        rx.push(Some(ps[*p].register_request(RequestId::i(id))));
                        want.push(None);
                        gone.push(false);
                        dropped.push(false);
                    },
                    Op::Complete(p, id) => {
                        let out = ps[*p].complete_request(&RequestId::i(id), r(id));
                        ensure!(out.is_ok(), "complete", "complete_request failed: {out:?}");
                        if let Some(i) = pend[*p].remove(&id.to_string()) {
                            want[i] = Some(mk(id));
                            res += 1;
                        } else {
                            refuse += 1;
                        }
                    },
                    Op::CompleteFor(p, id, t) => {
                        let out = ps[*p].complete_request_for_transport(&RequestId::i(id), r(id), &tids[*t]);
                        let ok = tids[*t] == tids[*p] && pend[*p].contains_key(&id.to_string());
                        match out {
                            Ok(b) => ensure_eq!(b, ok, "complete-for", "op {n} {op:?}"),
                            Err(e) => fail!("complete-for", "op {n} {op:?}: {e}"),
                        }
                        if ok {
                            let i = pend[*p].remove(&id.to_string()).unwrap();
                            want[i] = Some(mk(id));
                            res += 1;
                        } else {
                            refuse += 1;
                        }
                    },
                    Op::Cancel(p, id) => {
                        ps[*p].cancel_request(&RequestId::i(id));
                        if let Some(i) = pend[*p].remove(&id.to_string()) {
                            gone[i] = true;
                            refuse += 1;
                        }
                    },
                    Op::DropReceiver(i) => {
                        if let Some(x) = rx.get_mut(*i) {
                            *x = None;
                            dropped[*i] = true;
                        }
                    },
                }
            }
            settle().await;
            for (i, slot) in rx.iter_mut().enumerate() {
                let Some(slot) = slot else { continue };
                let got = slot.try_recv();
                use tokio::sync::oneshot::error::TryRecvError;
                match (&want[i], got) {
                    (Some(w), Ok(r)) => ensure_eq!(wire::resp_o(&r), *w, "wrong-response", "registration {i}"),
                    (Some(w), Err(e)) => fail!("lost", "registration {i} should have received {w}: {e:?}"),
                    (None, Ok(r)) => fail!("spurious", "registration {i} received {r:?}, nothing was due"),
                    (None, Err(e)) => {
                        let closed = matches!(e, TryRecvError::Closed);
                        ensure_eq!(closed, gone[i], "pending-state", "registration {i} closed");
                    },
                }
            }
            Ok(Info::nt(res > 0 && refuse > 0).label(res > 3, "four or more resolved"))
        })
    });
}
