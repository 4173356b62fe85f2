//! C22 (message batcher and debouncer), C23 (server notification debouncer and batcher).
use crate::core::*;
use crate::wire::W;
use crate::{ensure, ensure_eq, fail};
use pmcp::server::notification_debouncer::*;
use pmcp::types::*;
use pmcp::utils::{BatchingConfig, DebouncingConfig, MessageBatcher, MessageDebouncer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;

/// a notification carrying its number
fn note(n: usize) -> Notification {
    match n % 3 {
        0 => Notification::Progress(W::i(&json!({"progressToken": n as i64, "progress": n as f64}))),
        1 => Notification::Server(ServerNotification::ResourceUpdated(W::i(&json!({"uri": format!("u:{n}")})))),
        _ => Notification::Client(ClientNotification::Progress(W::i(&json!({"progressToken": n.to_string(), "progress": 1.0})))),
    }
}
fn num(n: &Notification) -> usize {
    let w = crate::wire::not_o(n).1.unwrap();
    let n2 = w.get("uri").and_then(|u| u.as_str()?[2..].parse().ok()).or_else(|| w["progressToken"].as_u64().map(|x| x as usize)).or_else(|| w["progressToken"].as_str()?.parse().ok());
    let k = n2.unwrap();
    // the variant must have survived too
    let want = match k % 3 {
        0 => matches!(n, Notification::Progress(_)),
        1 => matches!(n, Notification::Server(_)),
        _ => matches!(n, Notification::Client(_)),
    };
    assert!(want, "notification {k} changed its kind: {n:?}");
    k
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum B {
    Add(u8),
    /// several tasks adding a few each at once
    Burst(u8, u8),
    Wait(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum D {
    /// key, and how many times in a row
    Add(u8, u8),
    /// tens of milliseconds
    Wait(u8),
    Flush,
    /// many keys at once without anybody receiving, then time passes, then either flush or drain
    Flood(u8, bool),
}

pub fn c22(c: &mut Ctx) {
    c.check(
        sub("batcher", 10_000, "both full and timed batches came out"),
        || {
            let op = prop_oneof![4 => (1u8..6).prop_map(B::Add), 1 => (2u8..5, 1u8..8).prop_map(|(a, b)| B::Burst(a, b)), 3 => (0u16..400).prop_map(B::Wait)];
            (prop_oneof![1 => Just(0usize), 6 => 1usize..7, 1 => Just(50usize)], 1u64..200, any::<bool>(), vec(op, 1..25)).boxed()
        },
        |(max, wait, timer, ops): &(usize, u64, bool, Vec<B>)| {
            vrt(async {
                let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: *max, max_wait_time: Duration::from_millis(*wait), batched_methods: vec![] }));
                let out: A<Vec<(Instant, Vec<usize>)>> = am(vec![]);
                let (b2, out2) = (b.clone(), out.clone());
                let rx = tokio::spawn(async move {
                    while let Some(v) = b2.receive_batch().await {
                        out2.lock().unwrap().push((Instant::now(), v.iter().map(num).collect()));
                    }
                });
                if *timer {
                    b.start_timer();
                }
                let mut added: Vec<Instant> = vec![];
                let mut groups: Vec<Vec<usize>> = vec![]; // messages whose order is fixed
                let mut main: Vec<usize> = vec![];
                for op in ops {
                    match op {
                        B::Add(n) => {
                            for _ in 0..*n {
                                let k = added.len();
                                added.push(Instant::now());
                                main.push(k);
                                b.add(note(k)).await.map_err(|e| Fail::new("add", e.to_string()))?;
                            }
                        },
                        B::Burst(tasks, n) => {
                            let mut hs = vec![];
                            for _ in 0..*tasks {
                                let ks: Vec<usize> = (added.len()..added.len() + *n as usize).collect();
                                added.extend(ks.iter().map(|_| Instant::now()));
                                groups.push(ks.clone());
                                let b = b.clone();
                                hs.push(tokio::spawn(async move {
                                    for k in ks {
                                        b.add(note(k)).await.unwrap();
                                        tokio::task::yield_now().await;
                                    }
                                }));
                            }
                            for h in hs {
                                ensure!(h.await.is_ok(), "add", "a concurrent add failed");
                            }
                            // everything after comes later than everything in the burst
                            let after: Vec<Vec<usize>> = groups[groups.len() - *tasks as usize..].to_vec();
                            for g in after {
                                groups.push(main.iter().copied().chain(g).collect());
                            }
                        },
                        B::Wait(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
                    }
                }
                settle().await;
                if *timer {
                    tokio::time::sleep(Duration::from_millis(2 * wait + 5)).await;
                    settle().await;
                }
                rx.abort();
                groups.push(main);
                let out = out.lock().unwrap().clone();
                let cap = (*max).max(1);
                let flat: Vec<usize> = out.iter().flat_map(|x| x.1.clone()).collect();
                for (_, o) in &out {
                    ensure!(!o.is_empty() && o.len() <= cap, "batch-size", "a batch of {} came out, maximum {max}", o.len());
                }
                let mut pos: Vec<Option<usize>> = vec![None; added.len()];
                for (i, k) in flat.iter().enumerate() {
                    ensure!(pos[*k].is_none(), "duplicate", "message {k} came out twice: {out:?}");
                    pos[*k] = Some(i);
                }
                let missing = pos.iter().filter(|p| p.is_none()).count();
                if *timer {
                    ensure!(missing == 0, "lost", "{missing} of {} messages never came out: {flat:?}", added.len());
                } else {
                    ensure!(out.iter().all(|o| o.1.len() == cap), "untimed", "without a timer a batch that is not full came out: {out:?}, size {cap}");
                    ensure!(missing < cap, "lost", "{missing} of {} messages did not come out although batches hold {cap}: {flat:?}", added.len());
                    ensure!(pos.iter().skip_while(|p| p.is_some()).count() < cap + 40, "lost", "an early message did not come out: {flat:?}");
                }
                for g in &groups {
                    let p: Vec<usize> = g.iter().filter_map(|k| pos[*k]).collect();
                    ensure!(p.windows(2).all(|w| w[0] < w[1]), "order", "messages {g:?} came out as {flat:?}");
                    if g.iter().any(|k| pos[*k].is_none()) {
                        let n = g.iter().take_while(|k| pos[**k].is_some()).count();
                        ensure!(n == p.len(), "order", "a later message overtook an earlier one: {flat:?}");
                    }
                }
                if *timer {
                    for (t, o) in &out {
                        for k in o {
                            let d = *t - added[*k];
                            ensure!(d <= Duration::from_millis(wait + 3), "late", "message {k} waited {d:?}, maximum {wait} ms");
                        }
                    }
                }
                Ok(Info::nt(*timer && out.iter().any(|o| o.1.len() == cap) && out.iter().any(|o| o.1.len() < cap)).label(ops.iter().any(|o| matches!(o, B::Burst(..))), "concurrent"))
            })
        },
    );
    c.check(
        sub("batcher_threads", 1500, "batches were taken by both the timer and full adds").workers(2).io(),
        || (1usize..6, 200usize..1500).boxed(),
        |(max, n): &(usize, usize)| {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            let got = rt.block_on(async {
                let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: *max, max_wait_time: Duration::from_micros(300), batched_methods: vec![] }));
                b.start_timer();
                let (b2, n2) = (b.clone(), *n);
                let h = tokio::spawn(async move {
                    for k in 0..n2 {
                        b2.add(note(k)).await.unwrap();
                        if k % 7 == 0 {
                            tokio::task::yield_now().await;
                        }
                    }
                });
                let mut got: Vec<Vec<usize>> = vec![];
                let mut total = 0;
                while total < *n {
                    match tokio::time::timeout(Duration::from_secs(20), b.receive_batch()).await {
                        Ok(Some(v)) => {
                            total += v.len();
                            got.push(v.iter().map(num).collect());
                        },
                        _ => break,
                    }
                }
                let _ = h.await;
                got
            });
            rt.shutdown_background();
            let flat: Vec<usize> = got.iter().flatten().copied().collect();
            ensure!(flat.len() == *n, "timeout-lost", "{} of {n} messages came out", flat.len());
            if let Some(i) = (0..*n).find(|i| flat[*i] != *i) {
                fail!("order-threads", "message {} came out at position {i}: {:?}", flat[i], &flat[i.saturating_sub(5)..(i + 5).min(*n)]);
            }
            ensure!(got.iter().all(|g| !g.is_empty() && g.len() <= *max), "batch-size", "batch sizes");
            Ok(Info::nt(got.iter().any(|g| g.len() < *max) && got.iter().any(|g| g.len() == *max)))
        },
    );
    c.check(
        sub("debouncer", 10_000, "a value was superseded and another key was emitted or flushed"),
        || {
            let op = prop_oneof![
                8 => (0u8..5, 1u8..4).prop_map(|(a, b)| D::Add(a, b)),
                6 => (0u8..30).prop_map(D::Wait),
                1 => Just(D::Flush),
                1 => (prop_oneof![3 => 5u8..40, 1 => 90u8..130], any::<bool>()).prop_map(|(a, b)| D::Flood(a, b)),
            ];
            (0u64..12, vec((0u8..5, 0u64..20), 0..4), vec(op, 1..30)).boxed()
        },
        |(wait, special, ops): &(u64, Vec<(u8, u64)>, Vec<D>)| {
            vrt(async {
                let ms = |k: u64| Duration::from_millis(10 * k + 5);
                let sp: HashMap<String, Duration> = special.iter().map(|(k, w)| (format!("k{k}"), ms(*w))).collect();
                let d = Arc::new(MessageDebouncer::new(DebouncingConfig { wait_time: ms(*wait), debounced_methods: sp.clone() }));
                let out: A<Vec<(Instant, usize)>> = am(vec![]);
                let listen = |d: Arc<MessageDebouncer>, out: A<Vec<(Instant, usize)>>| {
                    tokio::spawn(async move {
                        while let Some(v) = d.receive().await {
                            out.lock().unwrap().push((Instant::now(), num(&v)));
                        }
                    })
                };
                let mut rx = listen(d.clone(), out.clone());
                // key -> (latest value, due time)
                let mut pend: BTreeMap<String, (usize, Instant)> = BTreeMap::new();
                let mut n = 0;
                let mut expect: Vec<(usize, Instant)> = vec![];
                let mut flushed = 0;
                let mut superseded = false;
                for op in ops {
                    match op {
                        D::Add(k, times) => {
                            let key = format!("k{k}");
                            for _ in 0..*times {
                                let w = sp.get(&key).copied().unwrap_or(ms(*wait));
                                d.add(key.clone(), note(n)).await.map_err(|e| Fail::new("add", e.to_string()))?;
                                superseded |= pend.insert(key.clone(), (n, Instant::now() + w)).is_some();
                                n += 1;
                            }
                        },
                        D::Wait(t) => tokio::time::sleep(Duration::from_millis(10 * *t as u64)).await,
                        D::Flush | D::Flood(_, true) => {
                            if let D::Flood(k, _) = op {
                                rx.abort();
                                let _ = (&mut rx).await;
                                for i in 0..*k {
                                    let key = format!("f{i}");
                                    d.add(key.clone(), note(n)).await.map_err(|e| Fail::new("add", e.to_string()))?;
                                    pend.insert(key, (n, Instant::now() + ms(*wait)));
                                    n += 1;
                                }
                                tokio::time::sleep(Duration::from_millis(300)).await;
                                settle().await;
                            }
                            let got: Vec<usize> = d.flush().await.iter().map(num).collect();
                            if matches!(op, D::Flood(..)) {
                                // every key must be in what the flush returned or in what was already sent
                                rx = listen(d.clone(), out.clone());
                                settle().await;
                                let mut all: Vec<usize> = got.iter().copied().chain(out.lock().unwrap().iter().map(|x| x.1)).collect();
                                let mut want: Vec<usize> = expect.iter().map(|x| x.0).chain(pend.values().map(|x| x.0)).collect();
                                all.sort();
                                want.sort();
                                ensure_eq!(all, want, "flood-lost", "values flushed or emitted");
                                out.lock().unwrap().clear();
                                expect.clear();
                                pend.clear();
                            } else {
                                let now = Instant::now();
                                let mut want: Vec<usize> = pend.values().filter(|x| x.1 > now).map(|x| x.0).collect();
                                let mut got = got;
                                got.sort();
                                want.sort();
                                ensure_eq!(got, want, "flush", "values returned by flush");
                                flushed += got.len();
                                pend.retain(|_, x| x.1 <= now);
                            }
                        },
                        D::Flood(k, false) => {
                            rx.abort();
                            let _ = (&mut rx).await;
                            for i in 0..*k {
                                let key = format!("f{i}");
                                d.add(key.clone(), note(n)).await.map_err(|e| Fail::new("add", e.to_string()))?;
                                pend.insert(key, (n, Instant::now() + ms(*wait)));
                                n += 1;
                            }
                            tokio::time::sleep(Duration::from_millis(300)).await;
                            rx = listen(d.clone(), out.clone());
                            settle().await;
                            let mut all: Vec<usize> = out.lock().unwrap().iter().map(|x| x.1).collect();
                            let mut want: Vec<usize> = expect.iter().map(|x| x.0).chain(pend.values().map(|x| x.0)).collect();
                            all.sort();
                            want.sort();
                            ensure_eq!(all, want, "flood-lost", "values emitted after a flood");
                            out.lock().unwrap().clear();
                            expect.clear();
                            pend.clear();
                        },
                    }
                    settle().await;
                    let now = Instant::now();
                    expect.extend(pend.values().filter(|x| x.1 <= now));
                    pend.retain(|_, x| x.1 > now);
                    let got = out.lock().unwrap().clone();
                    let mut a: Vec<usize> = got.iter().map(|x| x.1).collect();
                    let mut b: Vec<usize> = expect.iter().map(|x| x.0).collect();
                    a.sort();
                    b.sort();
                    ensure_eq!(a, b, "emitted", "values emitted so far, after {op:?}");
                    for (t, v) in &got {
                        let due = expect.iter().find(|e| e.0 == *v).unwrap().1;
                        ensure!(*t >= due && *t <= due + Duration::from_millis(3), "emit-time", "value {v} emitted {:?} away from its due time", if *t > due { *t - due } else { due - *t });
                    }
                }
                tokio::time::sleep(Duration::from_millis(400)).await;
                settle().await;
                let got = out.lock().unwrap().len();
                ensure_eq!(got, expect.len() + pend.len(), "emitted", "values emitted in the end");
                rx.abort();
                Ok(Info::nt(superseded && !expect.is_empty()).label(flushed > 0, "flushed"))
            })
        },
    );
}

const KINDS: usize = 9;
/// server notification number `n` of kind `k`; kinds 0,1 and 2,3 are two subjects of one type
fn snote(k: u8, n: usize) -> ServerNotification {
    match k {
        0 | 1 => ServerNotification::Progress(W::i(&json!({"progressToken": format!("t{k}"), "progress": n as f64}))),
        2 | 3 => ServerNotification::ResourceUpdated(W::i(&json!({"uri": format!("u{k}")}))),
        4 => ServerNotification::ResourcesChanged,
        5 => ServerNotification::ToolsChanged,
        6 => ServerNotification::PromptsChanged,
        7 => ServerNotification::RootsListChanged,
        _ => ServerNotification::LogMessage(W::i(&json!({"level": "info", "message": format!("m{n}")}))),
    }
}
/// (kind, number where the notification can carry one)
fn snum(s: &ServerNotification) -> (u8, Option<usize>) {
    match s {
        ServerNotification::Progress(p) => {
            let o = p.o();
            (o["progressToken"].as_str().unwrap()[1..].parse().unwrap(), o["progress"].as_f64().map(|f| f as usize))
        },
        ServerNotification::ResourceUpdated(p) => (p.uri[1..].parse().unwrap(), None),
        ServerNotification::ResourcesChanged => (4, None),
        ServerNotification::ToolsChanged => (5, None),
        ServerNotification::PromptsChanged => (6, None),
        ServerNotification::RootsListChanged => (7, None),
        ServerNotification::LogMessage(p) => (8, p.message[1..].parse().ok()),
    }
}
fn carries(k: u8) -> bool {
    k < 2 || k == 8
}
fn type_name(k: u8) -> &'static str {
    match k {
        0 | 1 => "progress",
        2 | 3 => "resources/updated",
        4 => "resources/list_changed",
        5 => "tools/list_changed",
        6 => "prompts/list_changed",
        7 => "roots/list_changed",
        8 => "log",
        _ => "",
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum N {
    Submit(u8, u8),
    Wait(u16),
    Flush,
    Stop,
}
pub fn c23(c: &mut Ctx) {
    c.check(
        sub("debouncer", 10_000, "several notifications of one subject, delivered by interval, maximum wait or flush"),
        || {
            let op = prop_oneof![
                8 => (0u8..KINDS as u8, 1u8..4).prop_map(|(a, b)| N::Submit(a, b)),
                5 => (0u16..400).prop_map(N::Wait),
                1 => (400u16..3000).prop_map(N::Wait),
                1 => Just(N::Flush),
            ];
            let iv = vec((prop::sample::select(vec!["progress", "log", "resources/list_changed", "resources/updated", "tools/list_changed", "prompts/list_changed", "roots/list_changed"]).prop_map(String::from), 0u64..600), 0..4);
            (any::<bool>(), 0u64..500, iv, prop_oneof![2 => 0usize..5, 3 => Just(100usize)], 50u64..1500, vec(op, 1..30), any::<bool>()).boxed()
        },
        |(merge, interval, types, maxb, maxw, ops, stop): &(bool, u64, Vec<(String, u64)>, usize, u64, Vec<N>, bool)| {
            vrt(async {
                let (tx, mut rx) = mpsc::channel(10_000);
                let out: A<Vec<(Instant, u8, Option<usize>)>> = am(vec![]);
                let types: HashMap<String, Duration> = types.iter().map(|(k, v)| (k.clone(), Duration::from_millis(*v))).collect();
                let mut d = NotificationDebouncer::new(
                    NotificationDebouncerConfig {
                        default_interval: Duration::from_millis(*interval),
                        type_intervals: types.clone(),
                        max_batch_size: *maxb,
                        enable_merging: *merge,
                        max_wait_time: Duration::from_millis(*maxw),
                    },
                    tx,
                );
                d.start().await.map_err(|e| Fail::new("start", e.to_string()))?;
                let o2 = out.clone();
                tokio::spawn(async move {
                    while let Some(s) = rx.recv().await {
                        let (k, n) = snum(&s);
                        o2.lock().unwrap().push((Instant::now(), k, n));
                    }
                });
                // per kind: what is pending, (number, time)
                let mut pend: Vec<Vec<(usize, Instant)>> = vec![vec![]; KINDS];
                let mut seen = vec![0usize; KINDS]; // consumed outputs per kind
                let mut n = 0;
                let (mut multi, mut by_interval, mut by_flush, mut by_max) = (false, false, false, false);
                let iv = |k: u8| types.get(type_name(k)).copied().unwrap_or(Duration::from_millis(*interval));
                // reconcile what came out with what was pending; `upto` = everything due must be out
                macro_rules! reconcile {
                    ($flushed:expr) => {{
                        settle().await;
                        let now = Instant::now();
                        let all = out.lock().unwrap().clone();
                        for k in 0..KINDS as u8 {
                            let mine: Vec<(Instant, Option<usize>)> = all.iter().filter(|x| x.1 == k).map(|x| (x.0, x.2)).skip(seen[k as usize]).collect();
                            let p = &mut pend[k as usize];
                            if p.is_empty() {
                                ensure!(mine.is_empty(), "repeated", "kind {k} delivered {mine:?} though nothing was pending");
                                continue;
                            }
                            let first = p[0].1;
                            let last = p[p.len() - 1].1;
                            let due = (last + iv(k)).min(first + Duration::from_millis(*maxw));
                            let nums: Vec<usize> = p.iter().map(|x| x.0).collect();
                            if mine.is_empty() {
                                ensure!(!$flushed, "flush", "kind {k}: {nums:?} not delivered by the flush");
                                ensure!(now <= due + Duration::from_millis(55), "late", "kind {k}: {nums:?} due {:?} ago, not delivered", now - due);
                                continue;
                            }
                            if !$flushed {
                                ensure!(mine[0].0 >= due, "early", "kind {k} delivered {:?} before it was due", due - mine[0].0);
                            }
                            let lim = 1 + *maxb;
                            if *merge {
                                let full = nums.len() <= lim;
                                ensure!(if full { mine.len() == nums.len() } else { mine.len() <= nums.len() && mine.len() >= lim.min(nums.len()) }, "merged-count", "kind {k}: submitted {nums:?} (merge limit {maxb}), delivered {mine:?}");
                                if carries(k) {
                                    let got: Vec<usize> = mine.iter().filter_map(|x| x.1).collect();
                                    ensure!(got.len() == mine.len(), "content", "kind {k}: {mine:?}");
                                    if full {
                                        ensure_eq!(got, nums, "merged", "kind {k} delivered");
                                    } else {
                                        ensure!(got.windows(2).all(|w| w[0] < w[1]) && got.iter().all(|g| nums.contains(g)), "merged-order", "kind {k}: submitted {nums:?}, delivered {got:?}");
                                    }
                                }
                            } else {
                                ensure!(mine.len() == 1, "superseded", "kind {k}: submitted {nums:?} without merging, delivered {mine:?}");
                                if carries(k) {
                                    ensure_eq!(mine[0].1, nums.last().copied(), "latest", "kind {k} delivered");
                                }
                            }
                            multi |= nums.len() > 1;
                            if $flushed { by_flush = true } else if due < last + iv(k) { by_max = true } else { by_interval = true }
                            seen[k as usize] += mine.len();
                            p.clear();
                        }
                    }};
                }
                for op in ops {
                    match op {
                        N::Submit(k, times) => {
                            for _ in 0..*times {
                                d.submit(snote(*k, n)).await.map_err(|e| Fail::new("submit", e.to_string()))?;
                                pend[*k as usize].push((n, Instant::now()));
                                n += 1;
                            }
                        },
                        N::Wait(ms) => {
                            // step so that deliveries are attributed to the right pending set
                            let mut left = *ms as u64;
                            while left > 0 {
                                let s = left.min(50);
                                tokio::time::sleep(Duration::from_millis(s)).await;
                                left -= s;
                                reconcile!(false);
                            }
                        },
                        N::Flush => {
                            reconcile!(false);
                            d.flush().await.map_err(|e| Fail::new("flush", e.to_string()))?;
                            reconcile!(true);
                        },
                        N::Stop => {},
                    }
                    reconcile!(false);
                    let st = d.stats().await;
                    ensure_eq!(st.pending_count, pend.iter().filter(|p| !p.is_empty()).count(), "stats", "pending subjects");
                    ensure_eq!(st.total_notifications, pend.iter().map(|p| p.len()).sum::<usize>(), "stats", "pending notifications");
                    ensure_eq!(st.oldest_pending, pend.iter().filter_map(|p| Some(p.first()?.1.elapsed())).max().unwrap_or_default(), "stats", "age of the oldest pending notification");
                }
                if *stop {
                    d.stop().await;
                    reconcile!(true);
                    tokio::time::sleep(Duration::from_secs(20)).await;
                    reconcile!(false);
                } else {
                    for _ in 0..60 {
                        tokio::time::sleep(Duration::from_millis(50)).await;
                        reconcile!(false);
                    }
                    ensure!(pend.iter().all(|p| p.is_empty()), "lost", "never delivered: {pend:?}");
                }
                Ok(Info::nt(multi && (by_interval || by_flush || by_max)).label(by_max, "maximum wait").label(by_flush, "flush"))
            })
        },
    );
    c.check(
        sub("slow_reader", 8000, "the reader was behind when more came out"),
        || {
            let op = prop_oneof![6 => (0u8..KINDS as u8, 1u8..4).prop_map(|(a, b)| N::Submit(a, b)), 4 => (0u16..300).prop_map(N::Wait), 2 => Just(N::Flush)];
            (any::<bool>(), 0u64..200, 1usize..4, vec(0u16..400, 1..6), vec(op, 2..30)).boxed()
        },
        |(merge, interval, room, pauses, ops): &(bool, u64, usize, Vec<u16>, Vec<N>)| {
            vrt(async {
                let (tx, mut rx) = mpsc::channel(*room);
                let types = ["progress", "log", "resources/list_changed"].into_iter().map(|t| (t.to_string(), Duration::from_millis(*interval))).collect();
                let mut d = NotificationDebouncer::new(
                    NotificationDebouncerConfig { default_interval: Duration::from_millis(*interval), type_intervals: types, max_batch_size: 1000, enable_merging: *merge, max_wait_time: Duration::from_secs(1) },
                    tx,
                );
                d.start().await.map_err(|e| Fail::new("start", e.to_string()))?;
                let p2 = pauses.clone();
                let reader = tokio::spawn(async move {
                    let (mut got, mut late) = (vec![], false);
                    while let Some(s) = rx.recv().await {
                        late |= rx.len() > 0;
                        got.push(snum(&s));
                        tokio::time::sleep(Duration::from_millis(p2[got.len() % p2.len()].into())).await;
                    }
                    (got, late)
                });
                let d = Arc::new(tokio::sync::RwLock::new(d));
                let (mut n, mut sent, mut hs) = (0, vec![], vec![]);
                for o in ops {
                    match o {
                        N::Submit(k, m) => {
                            for _ in 0..*m {
                                let g = d.read().await;
                                if tokio::time::timeout(Duration::from_secs(60), g.submit(snote(*k, n))).await.is_err() {
                                    fail!("stuck", "submit did not return while the reader kept reading");
                                }
                                sent.push((*k, n));
                                n += 1;
                            }
                        },
                        N::Wait(t) => tokio::time::sleep(Duration::from_millis((*t).into())).await,
                        N::Flush => {
                            let d = d.clone();
                            hs.push(tokio::spawn(async move { d.read().await.flush().await.is_ok() }));
                            settle().await;
                        },
                        N::Stop => {},
                    }
                }
                // everything that is still pending comes out with the stop, and then the output closes
                let end = tokio::time::timeout(Duration::from_secs(600), async {
                    for h in hs {
                        let _ = h.await;
                    }
                    let mut g = d.write().await;
                    g.stop().await;
                    drop(g);
                    drop(d);
                    reader.await
                })
                .await;
                let Ok(Ok((got, late))) = end else { fail!("stuck", "the output never closed after the stop") };
                for k in 0..KINDS as u8 {
                    let mine: Vec<Option<usize>> = got.iter().filter(|g| g.0 == k).map(|g| g.1).collect();
                    let want: Vec<usize> = sent.iter().filter(|g| g.0 == k).map(|g| g.1).collect();
                    if *merge {
                        ensure_eq!(mine.len(), want.len(), "count", "kind {k}: delivered {mine:?} of {want:?}");
                        if carries(k) {
                            let mine: Vec<usize> = mine.into_iter().flatten().collect();
                            ensure_eq!(mine, want, "order-slow", "kind {k}");
                        }
                    } else {
                        ensure!(mine.len() <= want.len() && mine.is_empty() == want.is_empty(), "count", "kind {k}: delivered {mine:?} of {want:?}");
                        if carries(k) {
                            let mine: Vec<usize> = mine.into_iter().flatten().collect();
                            ensure!(mine.windows(2).all(|w| w[0] < w[1]), "order-slow", "kind {k}: delivered {mine:?} of {want:?}");
                            ensure_eq!(mine.last(), want.last(), "latest-slow", "kind {k}: delivered {mine:?} of {want:?}");
                        }
                    }
                }
                Ok(Info::nt(late).label(ops.iter().any(|o| matches!(o, N::Flush)), "flush while sending"))
            })
        },
    );
    c.check(
        sub("batcher", 10_000, "one kind came out in several batches, timed or full"),
        || {
            let op = prop_oneof![
                8 => (0u8..KINDS as u8, 1u8..5).prop_map(|(a, b)| N::Submit(a, b)),
                4 => (0u16..300).prop_map(N::Wait),
                1 => Just(N::Flush),
            ];
            (0usize..7, 1u64..300, vec(op, 1..30)).boxed()
        },
        |(max, timeout, ops): &(usize, u64, Vec<N>)| {
            vrt(async {
                let (tx, mut rx) = mpsc::channel(10_000);
                let b = NotificationBatcher::new(*max, Duration::from_millis(*timeout), tx);
                let out: A<Vec<(Instant, Vec<(u8, Option<usize>)>)>> = am(vec![]);
                let o2 = out.clone();
                tokio::spawn(async move {
                    while let Some(s) = rx.recv().await {
                        o2.lock().unwrap().push((Instant::now(), s.iter().map(snum).collect()));
                    }
                });
                let mut sub: Vec<Vec<(usize, Instant)>> = vec![vec![]; KINDS];
                let mut flushes: Vec<Instant> = vec![];
                let mut n = 0;
                for op in ops {
                    match op {
                        N::Submit(k, times) => {
                            for _ in 0..*times {
                                b.add(snote(*k, n)).await.map_err(|e| Fail::new("add", e.to_string()))?;
                                sub[*k as usize].push((n, Instant::now()));
                                n += 1;
                            }
                        },
                        N::Wait(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
                        _ => {
                            b.flush().await.map_err(|e| Fail::new("flush", e.to_string()))?;
                            flushes.push(Instant::now());
                            settle().await;
                            let got: usize = out.lock().unwrap().iter().map(|x| x.1.len()).sum();
                            ensure_eq!(got, n, "flush", "notifications delivered after a flush");
                        },
                    }
                }
                tokio::time::sleep(Duration::from_millis(timeout + 5)).await;
                settle().await;
                let all = out.lock().unwrap().clone();
                for (t, o) in &all {
                    ensure!(!o.is_empty() && o.len() <= (*max).max(1), "batch-size", "a batch of {} came out, maximum {max}", o.len());
                    // a batch that is not full waits for somebody's timeout or a flush
                    let due = |w: &(usize, Instant)| { let d = w.1 + Duration::from_millis(*timeout); d <= *t + Duration::from_millis(2) && *t <= d + Duration::from_millis(3) };
                    ensure!(o.len() == (*max).max(1) || flushes.contains(t) || sub[o[0].0 as usize].iter().any(due), "early", "an incomplete batch {o:?} came out before its timeout of {timeout} ms");
                }
                let mut many = false;
                for k in 0..KINDS as u8 {
                    let mine: Vec<(Instant, Option<usize>)> = all.iter().flat_map(|(t, o)| o.iter().filter(|x| x.0 == k).map(|x| (*t, x.1))).collect();
                    let want = &sub[k as usize];
                    ensure_eq!(mine.len(), want.len(), "count", "notifications of kind {k}");
                    if carries(k) {
                        ensure_eq!(mine.iter().filter_map(|x| x.1).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>(), "order", "kind {k}");
                    }
                    for (a, w) in mine.iter().zip(want) {
                        ensure!(a.0 >= w.1 && a.0 <= w.1 + Duration::from_millis(timeout + 3), "late", "kind {k}: delivered {:?} after it was added, timeout {timeout} ms", a.0 - w.1);
                    }
                    many |= all.iter().filter(|(_, o)| o.iter().any(|x| x.0 == k)).count() > 1;
                }
                Ok(Info::nt(many))
            })
        },
    );
    c.check(
        sub("batcher_threads", 1000, "batches were taken by both the timer and full adds").workers(2).io(),
        || (1usize..6, 200usize..1500).boxed(),
        |(max, n): &(usize, usize)| {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            let got = rt.block_on(async {
                let (tx, mut rx) = mpsc::channel(50);
                let b = Arc::new(NotificationBatcher::new(*max, Duration::from_micros(300), tx));
                let (b2, n2) = (b.clone(), *n);
                let h = tokio::spawn(async move {
                    for k in 0..n2 {
                        b2.add(snote(8, k)).await.unwrap();
                        if k % 7 == 0 {
                            tokio::task::yield_now().await;
                        }
                    }
                });
                let mut got: Vec<Vec<usize>> = vec![];
                let mut total = 0;
                while total < *n {
                    match tokio::time::timeout(Duration::from_secs(20), rx.recv()).await {
                        Ok(Some(v)) => {
                            total += v.len();
                            got.push(v.iter().map(|s| snum(s).1.unwrap()).collect());
                        },
                        _ => break,
                    }
                }
                let _ = h.await;
                got
            });
            rt.shutdown_background();
            let flat: Vec<usize> = got.iter().flatten().copied().collect();
            ensure!(flat.len() == *n, "timeout-lost", "{} of {n} messages came out", flat.len());
            if let Some(i) = (0..*n).find(|i| flat[*i] != *i) {
                fail!("order-threads", "message {} came out at position {i}: {:?}", flat[i], &flat[i.saturating_sub(5)..(i + 5).min(*n)]);
            }
            ensure!(got.iter().all(|g| !g.is_empty() && g.len() <= *max), "batch-size", "batch sizes");
            Ok(Info::nt(got.iter().any(|g| g.len() < *max) && got.iter().any(|g| g.len() == *max)))
        },
    );
}
