//! C15 (event store), C24 (session manager).
use crate::core::*;
use crate::gen::*;
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use chrono::{DateTime, Duration as CD, Utc};
use pmcp::shared::event_store::*;
use pmcp::shared::session::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    /// minutes since the previous event's timestamp, outbound, session, sequence, wire message
    Store(i64, bool, u8, u64, Value),
    /// reference to a stored event (modulo all ever stored), limit
    Since(u16, Option<usize>),
    Latest,
    /// clear before the timestamp of this stored event, plus offset (-1, 0, 1 seconds)
    Clear(u16, i64),
    ClearAll,
    Token,
    /// reference to a created token; 255 unknown
    Check(u8),
    Record(bool, Value),
    Resume(u8),
    Pending(u16),
}
struct MEv {
    id: String,
    ts: DateTime<Utc>,
    msg: Value,
    out: bool,
    sid: String,
    seq: u64,
}
fn same_ev(e: &StoredEvent, m: &MEv) -> bool {
    e.id == m.id && wire::msg_o(&e.message) == m.msg && (e.direction == MessageDirection::Outbound) == m.out && e.session_id == m.sid && e.sequence == m.seq
}
fn show(v: &[StoredEvent]) -> Vec<String> {
    v.iter().map(|e| format!("{}#{}", e.id, e.sequence)).collect()
}
pub fn c15(c: &mut Ctx) {
    let strat = || {
        let msg = || prop_oneof![wire::request_wire(), wire::notification_wire(), wire::response_wire()];
        let lim = prop_oneof![3 => Just(None), 3 => (0usize..12).prop_map(Some), 1 => Just(Some(usize::MAX))];
        let op = prop_oneof![
            10 => (prop_oneof![3 => Just(0i64), 2 => 0i64..100, 1 => Just(600i64)], any::<bool>(), 0u8..3, prop_oneof![0u64..50, any::<u32>().prop_map(u64::from)], msg())
                .prop_map(|(a, b, c, d, e)| Ev::Store(a, b, c, d, e)),
            6 => (any::<u16>(), lim).prop_map(|(a, b)| Ev::Since(a, b)),
            1 => Just(Ev::Latest),
            1 => (any::<u16>(), -1i64..=1).prop_map(|(a, b)| Ev::Clear(a, b)),
            1 => Just(Ev::ClearAll),
            2 => Just(Ev::Token),
            2 => (prop_oneof![6 => 0u8..6, 1 => Just(255u8)]).prop_map(Ev::Check),
            4 => (any::<bool>(), msg()).prop_map(|(a, b)| Ev::Record(a, b)),
            2 => (prop_oneof![6 => 0u8..6, 1 => Just(255u8)]).prop_map(Ev::Resume),
            2 => any::<u16>().prop_map(Ev::Pending),
        ];
        // maximum, maximum age in minutes, minutes before now at which the history starts
        (prop_oneof![4 => 1usize..8, 1 => Just(0usize), 2 => Just(1000usize)], prop::sample::select(vec![60i64, 600, 100_000]), prop::sample::select(vec![0i64, 300, 3000]), vec(op, 1..40)).boxed()
    };
    c.check(
        sub("history", 20_000, "events were read back after at least one had been dropped or cleared"),
        strat,
        |(max, age, back, ops): &(usize, i64, i64, Vec<Ev>)| {
            vrt(async {
                let store = Arc::new(InMemoryEventStore::new(*max, CD::minutes(*age)));
                let man = ResumptionManager::new(store.clone(), "mine".into());
                let now = Utc::now();
                // timestamps never come within 20 s of the age limit
                let mut ts = now - CD::minutes(*back) - CD::seconds(30);
                let mut all: Vec<MEv> = vec![]; // everything ever stored
                let mut first = 0usize; // index of the first retained
                let mut tokens: Vec<(String, String, String, u64)> = vec![];
                let mut next = 0u64;
                let (mut dropped, mut read) = (false, false);
                for (i, op) in ops.iter().enumerate() {
                    match op {
                        Ev::Store(dt, out, sid, seq, msg) => {
                            ts = (ts + CD::minutes(*dt)).min(now);
                            let e = MEv { id: format!("e{i}"), ts, msg: msg.clone(), out: *out, sid: format!("s{sid}"), seq: *seq };
                            let m = wire::msg_i(msg, 0);
                            let want = wire::msg_o(&m);
                            store
                                .store_event(StoredEvent {
                                    id: e.id.clone(),
                                    timestamp: ts,
                                    message: m,
                                    direction: if *out { MessageDirection::Outbound } else { MessageDirection::Inbound },
                                    session_id: e.sid.clone(),
                                    sequence: *seq,
                                })
                                .await
                                .map_err(|e| Fail::new("store", e.to_string()))?;
                            all.push(MEv { msg: want, ..e });
                        },
                        Ev::Record(out, msg) => {
                            let m = wire::msg_i(msg, 0);
                            let want = wire::msg_o(&m);
                            let r = if *out { man.record_outbound(m).await } else { man.record_inbound(m).await };
                            ensure!(r.is_ok(), "record", "{r:?}");
                            ts = now;
                            let id = store.get_latest_event_id().await.unwrap();
                            let got = match &id {
                                Some(_) if *max > 0 => {
                                    let prev = if all.len() > first { all[all.len() - 1].id.clone() } else { "none".into() };
                                    store.get_events_since(&prev, None).await.unwrap().pop()
                                },
                                _ => None,
                            };
                            let id = if *max == 0 { format!("r{i}") } else { id.unwrap_or_default() };
                            ensure!(!id.is_empty() && !all.iter().any(|e| e.id == id), "record-id", "recorded event got the id {id:?}");
                            if let Some(g) = got {
                                ensure!(g.timestamp >= now, "record-time", "{:?}", g.timestamp);
                            }
                            all.push(MEv { id, ts: now, msg: want, out: *out, sid: "mine".into(), seq: next });
                            next += 1;
                        },
                        Ev::Since(k, lim) => {
                            let (id, from) = if all.is_empty() || *k == 65535 {
                                ("never".to_string(), first)
                            } else {
                                let k = *k as usize % all.len();
                                (all[k].id.clone(), first.max(k + 1))
                            };
                            let got = store.get_events_since(&id, *lim).await.unwrap();
                            let want: Vec<&MEv> = all[from..].iter().take(lim.unwrap_or(usize::MAX)).collect();
                            ensure!(
                                got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_ev(a, b)),
                                "events-since",
                                "after {id} (limit {lim:?}): {:?}, expected {:?}",
                                show(&got),
                                want.iter().map(|e| &e.id).collect::<Vec<_>>()
                            );
                            read |= dropped && !want.is_empty();
                        },
                        Ev::Pending(k) => {
                            if all.is_empty() {
                                continue;
                            }
                            let k = *k as usize % all.len();
                            let got = man.get_pending_events(&all[k].id).await.unwrap();
                            let want: Vec<&MEv> = all[first.max(k + 1)..].iter().filter(|e| e.out).collect();
                            ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_ev(a, b)), "pending", "{:?}, expected {:?}", show(&got), want.iter().map(|e| &e.id).collect::<Vec<_>>());
                        },
                        Ev::Latest => {
                            let got = store.get_latest_event_id().await.unwrap();
                            ensure_eq!(got, all[first..].last().map(|e| e.id.clone()), "latest", "latest event id");
                        },
                        Ev::Clear(k, off) => {
                            let t = if all.is_empty() { now } else { all[*k as usize % all.len()].ts + CD::seconds(*off) };
                            let n = store.clear_events_before(t).await.unwrap();
                            let keep = all[first..].iter().position(|e| e.ts >= t).map_or(all.len(), |p| first + p);
                            // events recorded by the manager carry the real time, a little after `now`
                            if t < now || keep == first {
                                ensure_eq!(n, keep - first, "cleared", "number of events cleared before {t}");
                            } else {
                                let real = all[first..].iter().filter(|e| e.ts < now).count();
                                ensure!(n >= real, "cleared", "cleared {n} of {real}");
                                if n != keep - first {
                                    return Ok(Info::nt(false)); // the clock decided; nothing more to compare
                                }
                            }
                            first = keep;
                            dropped |= n > 0;
                        },
                        Ev::ClearAll => {
                            let n = store.clear_events_before(Utc::now() + CD::hours(1)).await.unwrap();
                            ensure_eq!(n, all.len() - first, "cleared", "number of events cleared");
                            first = all.len();
                            dropped |= n > 0;
                        },
                        Ev::Token => {
                            let r = if i % 2 == 0 { man.create_token().await } else { store.create_resumption_token().await };
                            match all[first..].last() {
                                None => ensure!(r.is_err(), "token-empty", "a resumption token was created without any event"),
                                Some(e) => {
                                    let t = r.map_err(|e| Fail::new("token", e.to_string()))?;
                                    ensure!(t.last_event_id == e.id && t.session_id == e.sid, "token", "token names {} of {}, the last event is {} of {}", t.last_event_id, t.session_id, e.id, e.sid);
                                    ensure!(!tokens.iter().any(|x| x.0 == t.token), "token-unique", "token {} twice", t.token);
                                    ensure!(t.expires_at > t.created_at, "token-expiry", "{t:?}");
                                    tokens.push((t.token, e.id.clone(), e.sid.clone(), e.seq + 1));
                                },
                            }
                        },
                        Ev::Check(k) => {
                            let known = tokens.get(*k as usize);
                            let name = known.map_or("nope", |t| t.0.as_str());
                            let got = store.validate_resumption_token(name).await.unwrap();
                            ensure_eq!(got.is_some(), known.is_some(), "token-known", "token {k}");
                            if let (Some(s), Some(t)) = (got, known) {
                                ensure!(s.last_event_id == t.1 && s.session_id == t.2 && s.next_sequence == t.3 && s.pending_requests.is_empty(), "token-state", "{s:?} for token {t:?}");
                            }
                        },
                        Ev::Resume(k) => {
                            let known = tokens.get(*k as usize).cloned();
                            let r = man.resume_from_token(known.as_ref().map_or("nope", |t| t.0.as_str())).await;
                            match known {
                                None => ensure!(r.is_err(), "resume-unknown", "an unknown token was resumed"),
                                Some(t) => {
                                    let got = r.map_err(|e| Fail::new("resume", e.to_string()))?;
                                    let p = all.iter().position(|e| e.id == t.1).unwrap();
                                    let want = &all[first.max(p + 1)..];
                                    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same_ev(a, b)), "resume", "{:?}, expected {:?}", show(&got), want.iter().map(|e| &e.id).collect::<Vec<_>>());
                                    next = t.3;
                                    read |= dropped && !want.is_empty();
                                },
                            }
                        },
                    }
                    if matches!(op, Ev::Store(..) | Ev::Record(..)) {
                        let f0 = first;
                        first = first.max(all.len().saturating_sub(*max));
                        while first < all.len() && all[first].ts < now - CD::minutes(*age) {
                            first += 1;
                        }
                        dropped |= first > f0;
                        let n = store.get_events_since("never", None).await.unwrap().len();
                        ensure!(n <= *max, "over-maximum", "{n} events retained, maximum {max}");
                        ensure_eq!(n, all.len() - first, "retained", "events retained after a store");
                    }
                }
                Ok(Info::nt(read).label(dropped, "dropped").label(!tokens.is_empty(), "token"))
            })
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Create(Option<(Option<String>, Option<String>, String)>),
    Get(u8),
    Validate(u8),
    Data(u8, Value),
    Auth(u8, String),
    Destroy(u8),
    /// set the expiry this many minutes from now
    Expiry(u8, i64),
    Cleanup,
    CleanupTask,
    List,
    /// through the middleware, by cookie, upper- or lower-case header
    Middleware(u8, u8),
}
#[derive(Clone)]
struct MS {
    created: DateTime<Utc>,
    expires: DateTime<Utc>,
    info: Option<(Option<String>, Option<String>, String)>,
    data: Value,
    auth: Option<String>,
    seen: DateTime<Utc>,
}
fn same_session(s: &Session, m: &MS) -> Result<(), Fail> {
    let info = s.client_info.as_ref().map(|c| (c.user_agent.clone(), c.ip_address.clone(), c.protocol_version.clone()));
    ensure!(info == m.info && s.data == m.data && s.authenticated == m.auth.is_some() && s.auth_info == m.auth, "session-data", "{s:?}, expected info {:?} data {} auth {:?}", m.info, m.data, m.auth);
    ensure!(s.created_at == m.created && s.expires_at == m.expires, "session-times", "{s:?}");
    Ok(())
}
fn headers_ref(h: &[(String, String)]) -> Option<String> {
    let get = |n: &str| h.iter().rev().find(|(k, _)| k == n).map(|x| x.1.clone());
    if let Some(ck) = get("cookie").or_else(|| get("Cookie")) {
        for part in ck.split(';') {
            if let Some((k, v)) = part.trim().split_once('=') {
                if k == "mcp-session-id" {
                    return Some(v.to_string());
                }
            }
        }
    }
    get("X-Session-ID").or_else(|| get("x-session-id"))
}
pub fn c24(c: &mut Ctx) {
    let strat = || {
        let info = prop::option::of((prop::option::of(text()), prop::option::of(text()), text()));
        let k = || 0u8..8;
        let op = prop_oneof![
            6 => info.prop_map(Op::Create),
            4 => k().prop_map(Op::Get),
            3 => k().prop_map(Op::Validate),
            3 => (k(), jval()).prop_map(|(a, b)| Op::Data(a, b)),
            2 => (k(), text()).prop_map(|(a, b)| Op::Auth(a, b)),
            3 => k().prop_map(Op::Destroy),
            4 => (k(), prop::sample::select(vec![-600i64, -1, 1, 600])).prop_map(|(a, b)| Op::Expiry(a, b)),
            2 => Just(Op::Cleanup),
            1 => Just(Op::CleanupTask),
            1 => Just(Op::List),
            2 => (k(), 0u8..3).prop_map(|(a, b)| Op::Middleware(a, b)),
        ];
        (prop_oneof![4 => 0usize..6, 1 => Just(1000usize)], prop::sample::select(vec![-5i64, 1, 60, 1440]), vec(op, 1..40)).boxed()
    };
    c.check(
        sub("history", 20_000, "a session was removed or expired and one was looked up afterwards"),
        strat,
        |(max, timeout, ops): &(usize, i64, Vec<Op>)| {
            vrt(async {
                let mut man = SessionManager::new(SessionConfig { timeout: CD::minutes(*timeout), max_sessions: *max, ..Default::default() });
                let log: A<Vec<(char, String)>> = am(vec![]);
                let cb = |w: char| -> Option<SessionCallback> {
                    let log = log.clone();
                    Some(Box::new(move |s: &Session| log.lock().unwrap().push((w, s.id.clone()))))
                };
                man.set_callbacks(SessionCallbacks { on_create: cb('c'), on_destroy: cb('d'), on_expire: cb('e') });
                let man = Arc::new(man);
                let mut live: BTreeMap<String, MS> = BTreeMap::new();
                let mut ids: Vec<String> = vec!["unknown".into()];
                let mut want: Vec<(char, String)> = vec![];
                let (mut removed, mut looked) = (false, false);
                for op in ops {
                    let t0 = Utc::now();
                    let id = |k: u8| ids[k as usize % ids.len()].clone();
                    let expired = |m: &MS| m.expires < t0;
                    match op {
                        Op::Create(info) => {
                            let r = man.create_session(info.as_ref().map(|(a, b, c)| ClientInfo { user_agent: a.clone(), ip_address: b.clone(), protocol_version: c.clone() }));
                            if live.len() >= *max {
                                ensure!(r.is_err(), "limit", "session {} created with a maximum of {max}", live.len() + 1);
                            } else {
                                let s = r.map_err(|e| Fail::new("create", format!("{} live, maximum {max}: {e}", live.len())))?;
                                ensure!(!s.id.is_empty() && !ids.contains(&s.id), "id-unique", "id {:?} given twice", s.id);
                                let t1 = Utc::now();
                                ensure!(s.created_at >= t0 && s.created_at <= t1 && s.last_activity >= t0 && s.last_activity <= t1, "session-times", "{s:?}");
                                ensure!(s.expires_at - s.created_at == CD::minutes(*timeout), "session-timeout", "expires {} after creation, timeout {timeout} min", s.expires_at - s.created_at);
                                let m = MS { created: s.created_at, expires: s.expires_at, info: info.clone(), data: json!({}), auth: None, seen: t0 };
                                same_session(&s, &m)?;
                                want.push(('c', s.id.clone()));
                                ids.push(s.id.clone());
                                live.insert(s.id, m);
                            }
                        },
                        Op::Get(k) | Op::Middleware(k, _) => {
                            let id = id(*k);
                            let r = match op {
                                Op::Middleware(_, how) => {
                                    let mw = SessionMiddleware::new(man.clone());
                                    let h: HashMap<String, String> = match how {
                                        0 => [("cookie".to_string(), format!("a=b; mcp-session-id={id}; c"))].into(),
                                        1 => [("X-Session-ID".to_string(), id.clone())].into(),
                                        _ => [("x-session-id".to_string(), id.clone())].into(),
                                    };
                                    let (s, seen) = mw.process(&h, |s| s.map(|s| s.id)).await.map_err(|e| Fail::new("middleware", e.to_string()))?;
                                    ensure_eq!(seen, s.as_ref().map(|s| s.id.clone()), "middleware", "session handed to the handler");
                                    s
                                },
                                _ => man.get_session(&id),
                            };
                            match live.get_mut(&id) {
                                None => ensure!(r.is_none(), "get-dead", "a removed or unknown session was returned: {r:?}"),
                                // an expired session that nothing removed yet may or may not be shown
                                Some(m) if expired(m) && r.is_none() => {},
                                Some(m) => {
                                    let Some(s) = r else { fail!("get-live", "live session {id} not found") };
                                    ensure!(s.id == id, "get-other", "asked for {id}, got {}", s.id);
                                    same_session(&s, m)?;
                                    ensure!(s.last_activity >= t0, "activity", "last activity {} before the lookup at {t0}", s.last_activity);
                                    m.seen = t0;
                                    looked |= removed;
                                },
                            }
                        },
                        Op::Validate(k) => {
                            let id = id(*k);
                            let r = man.validate_session(&id);
                            match live.get(&id) {
                                None => ensure!(r.is_err(), "validate-dead", "{r:?}"),
                                Some(m) if expired(m) => {
                                    ensure!(r.is_err(), "validate-expired", "an expired session was accepted: {r:?}");
                                    let was = live.remove(&id).is_some();
                                    ensure!(was && man.get_session(&id).is_none(), "validate-expired", "an expired session survived validation");
                                    // whichever of the two removal callbacks, but exactly one
                                    let last = log.lock().unwrap().last().cloned();
                                    ensure!(matches!(&last, Some((w, i)) if (*w == 'd' || *w == 'e') && *i == id), "callback", "expired session {id} removed, last callback {last:?}");
                                    want.push(last.unwrap());
                                    removed = true;
                                },
                                Some(m) => {
                                    let s = r.map_err(|e| Fail::new("validate-live", e.to_string()))?;
                                    ensure!(s.id == id, "get-other", "asked for {id}, got {}", s.id);
                                    same_session(&s, m)?;
                                    looked |= removed;
                                },
                            }
                        },
                        Op::Data(k, v) => {
                            let id = id(*k);
                            let r = man.update_session(&id, |s| s.data = v.clone());
                            ensure_eq!(r.is_ok(), live.contains_key(&id), "update", "update of {id}");
                            if let Some(m) = live.get_mut(&id) {
                                m.data = v.clone();
                                m.seen = t0;
                            }
                        },
                        Op::Auth(k, who) => {
                            let id = id(*k);
                            let r = man.authenticate_session(&id, who.clone());
                            ensure_eq!(r.is_ok(), live.contains_key(&id), "authenticate", "authentication of {id}");
                            if let Some(m) = live.get_mut(&id) {
                                m.auth = Some(who.clone());
                                m.seen = t0;
                            }
                        },
                        Op::Expiry(k, min) => {
                            let id = id(*k);
                            let t = t0 + CD::minutes(*min);
                            let r = man.update_session(&id, |s| s.expires_at = t);
                            ensure_eq!(r.is_ok(), live.contains_key(&id), "update", "update of {id}");
                            if let Some(m) = live.get_mut(&id) {
                                m.expires = t;
                                m.seen = t0;
                            }
                        },
                        Op::Destroy(k) => {
                            let id = id(*k);
                            let r = man.destroy_session(&id);
                            ensure_eq!(r.is_ok(), live.contains_key(&id), "destroy", "destruction of {id}");
                            if live.remove(&id).is_some() {
                                want.push(('d', id));
                                removed = true;
                            }
                        },
                        Op::Cleanup | Op::CleanupTask => {
                            if matches!(op, Op::Cleanup) {
                                man.cleanup_expired();
                            } else {
                                let h = tokio::spawn(session_cleanup_task(man.clone(), CD::seconds(10)));
                                tokio::time::sleep(std::time::Duration::from_secs(11)).await;
                                h.abort();
                                let _ = h.await;
                            }
                            let gone: Vec<String> = live.iter().filter(|(_, m)| expired(m)).map(|(k, _)| k.clone()).collect();
                            for g in gone {
                                live.remove(&g);
                                want.push(('e', g));
                                removed = true;
                            }
                        },
                        Op::List => {},
                    }
                    ensure_eq!(man.session_count(), live.len(), "count", "session count after {op:?}");
                    let act = man.active_sessions();
                    let got: BTreeMap<&str, &Session> = act.iter().map(|s| (s.id.as_str(), s)).collect();
                    ensure!(act.len() == live.len() && got.keys().all(|k| live.contains_key(*k)), "active", "active sessions {:?}, expected {:?}", got.keys(), live.keys());
                    for (k, m) in &live {
                        same_session(got[k.as_str()], m)?;
                        ensure!(got[k.as_str()].last_activity >= m.seen, "activity", "activity of {k} not recorded after {op:?}");
                    }
                    let mut a = log.lock().unwrap().clone();
                    let mut b = want.clone();
                    a.sort();
                    b.sort();
                    ensure_eq!(a, b, "callback", "callbacks after {op:?}");
                }
                Ok(Info::nt(looked).label(removed, "removed").label(want.iter().any(|w| w.0 == 'e'), "expired"))
            })
        },
    );
    c.check(
        sub("headers", 20_000, "both a cookie header and another session header, or several cookies, are present"),
        || {
            let cookie = vec(
                (
                    prop_oneof![4 => Just("mcp-session-id".to_string()), 1 => Just("MCP-Session-Id".into()), 1 => prop::sample::select(vec!["mcp-session-id2", "x-mcp-session-id", "mcp-session", "session-id", "mcp-session-id "]).prop_map(String::from), 2 => name()],
                    prop_oneof![3 => Just("="), 1 => Just("")],
                    prop_oneof![3 => "[a-z0-9=]{0,6}", 1 => text()],
                    prop_oneof![3 => Just("; "), 2 => Just(";"), 1 => Just(" ;  ")],
                ),
                0..4,
            )
            .prop_map(|v| v.into_iter().map(|(a, b, c, d)| format!("{a}{b}{c}{d}")).collect::<String>());
            let key = prop_oneof![
                3 => prop::sample::select(vec!["cookie", "Cookie", "COOKIE", "X-Session-ID", "x-session-id", "X-Session-Id", "mcp-session-id"]).prop_map(String::from),
                1 => name()
            ];
            vec((key, prop_oneof![3 => cookie, 1 => text()]), 0..5).boxed()
        },
        |h: &Vec<(String, String)>| {
            let map: HashMap<String, String> = h.iter().cloned().collect();
            // header names are compared literally in the two documented spellings only; when both
            // spellings are present either may win
            let amb = (map.contains_key("cookie") && map.contains_key("Cookie")) || (map.contains_key("X-Session-ID") && map.contains_key("x-session-id"));
            let got = extract_session_id(&map);
            if !amb {
                let other = map.keys().any(|k| ["cookie", "x-session-id"].contains(&k.to_lowercase().as_str()) && !["cookie", "Cookie", "X-Session-ID", "x-session-id"].contains(&k.as_str()));
                if !other {
                    ensure_eq!(got, headers_ref(h), "extract", "session id of {map:?}");
                }
            }
            let ck = map.get("cookie").or(map.get("Cookie"));
            Ok(Info::nt(ck.is_some_and(|c| c.matches('=').count() > 1 || map.keys().any(|k| k.to_lowercase() == "x-session-id"))).label(got.is_some(), "found"))
        },
    );
    c.check(
        sub("threads", 400, "several threads acted on the same sessions").workers(2),
        || (2usize..5, 1usize..12, 1usize..30, any::<bool>()).boxed(),
        |(threads, max, per, destroy): &(usize, usize, usize, bool)| {
            let man = SessionManager::new(SessionConfig { max_sessions: *max, ..Default::default() });
            let log: A<Vec<(char, String)>> = am(vec![]);
            let mut man = man;
            let cb = |w: char| -> Option<SessionCallback> {
                let log = log.clone();
                Some(Box::new(move |s: &Session| log.lock().unwrap().push((w, s.id.clone()))))
            };
            man.set_callbacks(SessionCallbacks { on_create: cb('c'), on_destroy: cb('d'), on_expire: cb('e') });
            let bar = std::sync::Barrier::new(*threads);
            let made: A<Vec<String>> = am(vec![]);
            std::thread::scope(|s| {
                for _ in 0..*threads {
                    s.spawn(|| {
                        bar.wait();
                        for _ in 0..*per {
                            if let Ok(x) = man.create_session(None) {
                                made.lock().unwrap().push(x.id);
                            }
                        }
                    });
                }
            });
            let made = made.lock().unwrap().clone();
            ensure_eq!(made.len(), (*max).min(threads * per), "limit-race", "sessions created by {threads} threads");
            ensure_eq!(man.session_count(), made.len(), "count-race", "sessions tracked");
            ensure_eq!(made.iter().collect::<HashSet<_>>().len(), made.len(), "id-unique", "ids unique");
            if *destroy {
                // one thread destroys each session while the others keep using it
                let destroyed: A<Vec<String>> = am(vec![]);
                std::thread::scope(|s| {
                    for t in 0..*threads {
                        let (bar, made, man, destroyed) = (&bar, &made, &man, &destroyed);
                        s.spawn(move || {
                            bar.wait();
                            for id in made {
                                match t {
                                    0 | 1 => {
                                        if man.destroy_session(id).is_ok() {
                                            destroyed.lock().unwrap().push(id.clone());
                                        }
                                    },
                                    2 => {
                                        let _ = man.get_session(id);
                                        let _ = man.validate_session(id);
                                    },
                                    _ => {
                                        let _ = man.authenticate_session(id, "x".into());
                                        let _ = man.get_session(id);
                                    },
                                }
                            }
                        });
                    }
                });
                let mut d = destroyed.lock().unwrap().clone();
                let mut m = made.clone();
                d.sort();
                m.sort();
                ensure_eq!(d, m, "destroy-once", "sessions whose destruction succeeded");
                ensure_eq!(man.session_count(), 0, "revived", "sessions left after all were destroyed");
                let mut cb: Vec<String> = log.lock().unwrap().iter().filter(|x| x.0 == 'd').map(|x| x.1.clone()).collect();
                cb.sort();
                ensure_eq!(cb, m, "callback", "destruction callbacks");
            }
            Ok(Info::nt(*destroy && *threads > 2).label(threads * per > *max, "limit reached"))
        },
    );
    // callbacks that use the manager themselves, in the middle of a clean-up
    c.check(
        sub("renewal", 8_000, "a session that had expired was renewed, or another removed, while the expired ones were being cleaned up"),
        || {
            let act = prop_oneof![1 => Just(0u8), 3 => Just(1), 1 => Just(2), 1 => Just(3)];
            vec((any::<bool>(), act, 0u8..8), 1..8).boxed()
        },
        |plan: &Vec<(bool, u8, u8)>| {
            let slot: A<Option<Arc<SessionManager>>> = am(None);
            let ids: A<Vec<String>> = am(vec![]);
            // what each callback saw: kind, id, expiry still to come
            let log: A<Vec<(char, String, bool)>> = am(vec![]);
            let renewed: A<Vec<(String, bool)>> = am(vec![]);
            let acted = am(false);
            let mut man = SessionManager::new(SessionConfig { max_sessions: 100, timeout: CD::minutes(60), ..Default::default() });
            let (sl, id2, lg, rn, pl, ac) = (slot.clone(), ids.clone(), log.clone(), renewed.clone(), plan.clone(), acted.clone());
            let lg2 = log.clone();
            man.set_callbacks(SessionCallbacks {
                on_create: None,
                on_destroy: Some(Box::new(move |s: &Session| lg2.lock().unwrap().push(('d', s.id.clone(), s.expires_at > Utc::now())))),
                on_expire: Some(Box::new(move |s: &Session| {
                    lg.lock().unwrap().push(('e', s.id.clone(), s.expires_at > Utc::now()));
                    let m = sl.lock().unwrap().clone().unwrap();
                    let ids = id2.lock().unwrap().clone();
                    let Some(i) = ids.iter().position(|x| *x == s.id) else { return };
                    let (_, what, k) = pl[i];
                    let other = &ids[k as usize % ids.len()];
                    let known = m.active_sessions().iter().any(|x| x.id == *other);
                    match what {
                        1 => {
                            let ok = m.update_session(other, |s| s.expires_at = Utc::now() + CD::minutes(30)).is_ok();
                            rn.lock().unwrap().push((other.clone(), ok));
                            *ac.lock().unwrap() |= ok;
                        },
                        2 => {
                            let ok = m.destroy_session(other).is_ok();
                            assert_eq!(ok, known);
                            *ac.lock().unwrap() |= ok;
                        },
                        3 => {
                            let _ = m.create_session(None);
                        },
                        _ => {},
                    }
                })),
            });
            let man = Arc::new(man);
            *slot.lock().unwrap() = Some(man.clone());
            for (expired, _, _) in plan {
                let s = man.create_session(None).map_err(|e| Fail::new("create", e.to_string()))?;
                if *expired {
                    man.update_session(&s.id, |s| s.expires_at = Utc::now() - CD::minutes(1)).map_err(|e| Fail::new("update", e.to_string()))?;
                }
                ids.lock().unwrap().push(s.id);
            }
            man.cleanup_expired();
            *slot.lock().unwrap() = None;
            let ids = ids.lock().unwrap().clone();
            let log = log.lock().unwrap().clone();
            let active: HashSet<String> = man.active_sessions().into_iter().map(|s| s.id).collect();
            for (kind, id, live) in &log {
                ensure!(*kind != 'e' || !*live, "expire-live", "session {id} was removed as expired, but it had been renewed before that");
            }
            for (i, id) in ids.iter().enumerate() {
                let ends = log.iter().filter(|x| x.1 == *id).count();
                ensure!(ends == usize::from(!active.contains(id)), "callback", "session {i}: {ends} removal callbacks, active: {}", active.contains(id));
                let kept = !plan[i].0 || renewed.lock().unwrap().iter().any(|(r, ok)| r == id && *ok);
                let destroyed = log.iter().any(|x| x.0 == 'd' && x.1 == *id);
                ensure!(active.contains(id) == (kept && !destroyed), "renewal", "session {i} (expired at first: {}, renewed: {kept}, destroyed: {destroyed}) is active: {}", plan[i].0, active.contains(id));
            }
            let acted = *acted.lock().unwrap();
            Ok(Info::nt(acted).label(acted, "renewed"))
        },
    );
    // a renewal and a validation or clean-up at the same moment: either the renewal finds the
    // session gone, or the session is still there afterwards
    c.check(
        sub("renew_race", 150, "always").workers(2),
        || (1usize..12, any::<bool>(), 20usize..120).boxed(),
        |(n, cleanup, rounds): &(usize, bool, usize)| {
            let man = SessionManager::new(SessionConfig { max_sessions: 100, timeout: CD::minutes(60), ..Default::default() });
            let bar = std::sync::Barrier::new(2);
            let ids: A<Vec<String>> = am(vec![]);
            let oks: A<Vec<bool>> = am(vec![]);
            let mut bad: Option<String> = None;
            std::thread::scope(|s| {
                s.spawn(|| {
                    for _ in 0..*rounds {
                        bar.wait();
                        let v = ids.lock().unwrap().clone();
                        bar.wait();
                        let r: Vec<bool> = v.iter().rev().map(|id| man.update_session(id, |s| s.expires_at = Utc::now() + CD::minutes(30)).is_ok()).collect();
                        *oks.lock().unwrap() = r.into_iter().rev().collect();
                        bar.wait();
                    }
                });
                for round in 0..*rounds {
                    let mut v = vec![];
                    for _ in 0..*n {
                        if let Ok(s) = man.create_session(None) {
                            let _ = man.update_session(&s.id, |s| s.expires_at = Utc::now() - CD::minutes(1));
                            v.push(s.id);
                        }
                    }
                    *ids.lock().unwrap() = v.clone();
                    bar.wait();
                    bar.wait();
                    if *cleanup {
                        man.cleanup_expired();
                    } else {
                        for id in &v {
                            let _ = man.validate_session(id);
                        }
                    }
                    bar.wait();
                    let oks = oks.lock().unwrap().clone();
                    for (i, id) in v.iter().enumerate() {
                        let there = man.get_session(id).is_some();
                        if there != oks[i] && bad.is_none() {
                            bad = Some(format!("round {round}: renewal of session {i} succeeded: {}, session there afterwards: {there}", oks[i]));
                        }
                        let _ = man.destroy_session(id);
                    }
                }
            });
            ensure!(bad.is_none(), "renew-race", "{}", bad.unwrap_or_default());
            Ok(Info::nt(true))
        },
    );
}
