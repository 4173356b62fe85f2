//! C26 (middleware chain), C27 (reconnection), C28 (retry, fallback, circuit breaking).
use crate::core::*;
use crate::gen::*;
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use pmcp::error::recovery::*;
use pmcp::error::{Error, ErrorCode};
use pmcp::shared::reconnect::*;
use pmcp::shared::{AuthMiddleware, LoggingMiddleware, Middleware, MiddlewareChain, RetryMiddleware, TransportMessage};
use pmcp::types::{JSONRPCRequest, JSONRPCResponse, RequestId};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;

// ---- C26 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum M {
    /// appends its index to the method / result, failing at hooks in the mask, yielding first
    Mark(u8, bool),
    Log(u8),
    Auth,
    Retry,
    /// implements nothing
    Default_,
    /// one that is in the chain already, once more
    Again(usize),
}
struct Mark {
    i: usize,
    fail: u8,
    slow: bool,
    log: A<Vec<(usize, char, String)>>,
}
impl Mark {
    async fn step(&self, w: char, bit: u8, seen: String) -> pmcp::Result<()> {
        self.log.lock().unwrap().push((self.i, w, seen));
        if self.slow {
            tokio::time::sleep(Duration::from_millis(3)).await;
            tokio::task::yield_now().await;
        }
        if self.fail & bit != 0 {
            return Err(Error::protocol(ErrorCode::other(-500 - self.i as i32), format!("stop {} {w}", self.i)));
        }
        Ok(())
    }
}
#[async_trait]
impl Middleware for Mark {
    async fn on_request(&self, r: &mut JSONRPCRequest) -> pmcp::Result<()> {
        let seen = r.method.clone();
        r.method.push_str(&format!(",{}", self.i));
        self.step('q', 1, seen).await
    }
    async fn on_response(&self, r: &mut JSONRPCResponse) -> pmcp::Result<()> {
        let seen = r.id.to_string();
        r.id = RequestId::from(format!("{seen},{}", self.i));
        self.step('r', 2, seen).await
    }
    async fn on_send(&self, m: &TransportMessage) -> pmcp::Result<()> {
        self.step('s', 4, wire::msg_o(m).to_string()).await
    }
    async fn on_receive(&self, m: &TransportMessage) -> pmcp::Result<()> {
        self.step('v', 8, wire::msg_o(m).to_string()).await
    }
}
struct Nothing;
impl Middleware for Nothing {}

pub fn c26(c: &mut Ctx) {
    let strat = || {
        let fail = prop_oneof![6 => Just(0u8), 2 => 0u8..16];
        let m = prop_oneof![6 => (fail, any::<bool>()).prop_map(|(a, b)| M::Mark(a, b)), 1 => (0u8..5).prop_map(M::Log), 1 => Just(M::Auth), 1 => Just(M::Retry), 1 => Just(M::Default_), 1 => (0usize..7).prop_map(M::Again)];
        (vec(m, 0..7), vec((0u8..4, wire::any_wire()), 1..5), text(), jval()).boxed()
    };
    c.check(sub("chain", 10_000, "at least two recording middlewares, one of which fails or follows another"), strat, |(ms, calls, method, val): &(Vec<M>, Vec<(u8, Value)>, String, Value)| {
        vrt(async {
            let log = am(vec![]);
            let mut ch = MiddlewareChain::new();
            let mut marks: Vec<(usize, u8)> = vec![];
            let mut own: Vec<Arc<Mark>> = vec![];
            for (i, m) in ms.iter().enumerate() {
                match m {
                    M::Mark(f, slow) => {
                        marks.push((i, *f));
                        own.push(Arc::new(Mark { i, fail: *f, slow: *slow, log: log.clone() }));
                        ch.add(own[own.len() - 1].clone());
                    },
                    M::Log(l) => ch.add(Arc::new(LoggingMiddleware::new([tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO, tracing::Level::WARN, tracing::Level::ERROR][*l as usize]))),
                    M::Auth => ch.add(Arc::new(AuthMiddleware::new("t".into()))),
                    M::Retry => ch.add(Arc::new(RetryMiddleware::default())),
                    M::Default_ => ch.add(Arc::new(Nothing)),
                    M::Again(k) => {
                        if !own.is_empty() {
                            let o = own[k % own.len()].clone();
                            marks.push((o.i, o.fail));
                            ch.add(o);
                        }
                    },
                }
            }
            for (hook, w) in calls {
                log.lock().unwrap().clear();
                let bit = 1u8 << hook;
                let stop = marks.iter().position(|m| m.1 & bit != 0);
                let visited: Vec<usize> = marks.iter().take(stop.map_or(marks.len(), |s| s + 1)).map(|m| m.0).collect();
                let trail = |base: &str, n: usize| visited[..n].iter().fold(base.to_string(), |a, i| format!("{a},{i}"));
                let msg = wire::msg_i(w, 0);
                let before = wire::msg_o(&msg);
                let mut seen_base: Option<String> = None;
                let r = match hook {
                    0 => {
                        let mut q = JSONRPCRequest { jsonrpc: "2.0".into(), method: method.clone(), params: Some(val.clone()), id: RequestId::from(7i64) };
                        let r = ch.process_request(&mut q).await;
                        ensure_eq!(q.method, trail(method, visited.len()), "request-changes", "method after the chain");
                        ensure!(q.params.as_ref() == Some(val) && q.id == RequestId::from(7i64) && q.jsonrpc == "2.0", "request-changed", "{q:?}");
                        seen_base = Some(method.clone());
                        r
                    },
                    1 => {
                        let mut q: JSONRPCResponse = serde_json::from_value(json!({"jsonrpc": "2.0", "id": "r", "result": val})).map_err(|e| Fail::new("harness", e.to_string()))?;
                        let p0 = serde_json::to_value(&q).unwrap()["result"].clone();
                        let r = ch.process_response(&mut q).await;
                        ensure_eq!(q.id.to_string(), trail("r", visited.len()), "response-changes", "id after the chain");
                        ensure!(serde_json::to_value(&q).unwrap()["result"] == p0, "response-changed", "{q:?}");
                        seen_base = Some("r".into());
                        r
                    },
                    2 => ch.process_send(&msg).await,
                    _ => ch.process_receive(&msg).await,
                };
                let got = log.lock().unwrap().clone();
                ensure_eq!(got.iter().map(|x| x.0).collect::<Vec<_>>(), visited, "order", "middlewares visited by hook {hook}");
                ensure!(got.iter().all(|x| x.1 == ['q', 'r', 's', 'v'][*hook as usize]), "hook", "hook {hook}: {got:?}");
                for (n, g) in got.iter().enumerate() {
                    match &seen_base {
                        Some(b) => ensure_eq!(g.2, trail(b, n), "predecessors", "what middleware {} saw", g.0),
                        None => ensure_eq!(g.2, before.to_string(), "message", "what middleware {} saw", g.0),
                    }
                }
                match (stop, r) {
                    (None, Ok(())) => {},
                    (Some(s), Err(Error::Protocol { code, message, .. })) => {
                        let i = marks[s].0;
                        ensure!(code.as_i32() == -500 - i as i32 && message == format!("stop {i} {}", ['q', 'r', 's', 'v'][*hook as usize]), "error", "{code:?} {message}");
                    },
                    (s, r) => fail!("outcome", "hook {hook}: first failing {s:?}, chain returned {r:?}"),
                }
            }
            Ok(Info::nt(marks.len() >= 2).label(marks.iter().any(|m| m.1 != 0), "failing"))
        })
    });
}

// ---- C27 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RC {
    initial: u64,
    max: u64,
    /// quarters
    growth: u32,
    /// hundredths
    jitter: u32,
    retries: Option<u32>,
    reset: bool,
    threshold: Option<u32>,
    /// circuit timeout, in units of time
    circuit: u8,
    /// success threshold, in units of time
    long_lived: u8,
}
/// Time passes in units of 1000 s of (skewed) monotonic time, so that the milliseconds a case really
/// takes never decide a comparison.
const UNIT: u64 = 1000;
fn units(n: u8) -> Duration {
    Duration::from_secs(n as u64 * UNIT)
}
impl RC {
    fn make(&self) -> ReconnectConfig {
        ReconnectConfig {
            initial_delay: Duration::from_millis(self.initial),
            max_delay: Duration::from_millis(self.max),
            growth_factor: self.growth as f64 / 4.0,
            max_retries: self.retries,
            jitter_factor: self.jitter as f64 / 100.0,
            reset_on_success: self.reset,
            success_threshold: units(self.long_lived),
            circuit_breaker_threshold: self.threshold,
            circuit_breaker_timeout: units(self.circuit),
        }
    }
    fn bounds(&self, fails: u32) -> (f64, f64) {
        let c = (self.initial as f64 / 1000.0 * (self.growth as f64 / 4.0).powi(fails as i32)).min(self.max as f64 / 1000.0);
        let j = self.jitter as f64 / 100.0;
        (c * (1.0 - j), (c * (1.0 + j)).min(self.max as f64 / 1000.0))
    }
}
fn rc() -> BoxedStrategy<RC> {
    (
        0u64..500,
        prop_oneof![2 => 500u64..5000, 1 => 1u64..600, 1 => Just(30_000u64)],
        prop::sample::select(vec![4u32, 5, 6, 8, 12, 40]),
        prop::sample::select(vec![0u32, 10, 50, 100]),
        prop::option::weighted(0.8, 0u32..8),
        any::<bool>(),
        prop::option::weighted(0.6, 1u32..6),
        0u8..4,
        0u8..4,
    )
        .prop_map(|(initial, max, growth, jitter, retries, reset, threshold, circuit, long_lived)| RC { initial, max, growth, jitter, retries, reset, threshold, circuit, long_lived })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum R {
    /// outcomes of successive connection attempts (after the end: success)
    Reconnect(Vec<bool>),
    /// one hand-driven attempt, if allowed
    Attempt(bool),
    Disconnected,
    Guard,
    Enable(bool),
    Reset,
    Should,
    Delay,
    /// units of time pass
    Wait(u8),
}
#[derive(Default)]
struct Model {
    enabled: bool,
    state: Option<ConnectionState>,
    retry: u32,
    fails: u32,
    attempts: u64,
    successes: u64,
    ev: Vec<String>,
    now: u64,
    opened: u64,
    last_success: u64,
}
impl Model {
    fn st(&self) -> ConnectionState {
        self.state.unwrap_or(ConnectionState::Disconnected)
    }
    fn should(&mut self, c: &RC) -> bool {
        if !self.enabled {
            return false;
        }
        let left = c.retries.is_none_or(|m| self.retry < m);
        match self.st() {
            ConnectionState::Connected | ConnectionState::Connecting => false,
            ConnectionState::CircuitOpen => {
                if self.now - self.opened >= c.circuit as u64 {
                    self.state = Some(ConnectionState::Disconnected);
                    self.ev.push("close".into());
                    left
                } else {
                    false
                }
            },
            _ => left,
        }
    }
    fn connecting(&mut self) {
        self.state = Some(ConnectionState::Connecting);
        self.attempts += 1;
        self.ev.push(format!("connecting {}", self.retry));
    }
    fn connected(&mut self, c: &RC) {
        self.state = Some(ConnectionState::Connected);
        self.successes += 1;
        self.last_success = self.now;
        self.fails = 0;
        if c.reset {
            self.retry = 0;
        }
        self.ev.push("connected".into());
    }
    fn failed(&mut self, c: &RC, n: u64) {
        self.state = Some(ConnectionState::WaitingRetry);
        self.retry += 1;
        self.fails += 1;
        if c.threshold.is_some_and(|t| self.fails >= t) {
            self.state = Some(ConnectionState::CircuitOpen);
            self.opened = self.now;
            self.ev.push("open".into());
        }
        self.ev.push(format!("failed {n}"));
    }
    fn disconnected(&mut self, c: &RC) {
        if self.st() == ConnectionState::Connected && self.now - self.last_success >= c.long_lived as u64 {
            self.retry = 0;
        }
        if self.st() != ConnectionState::CircuitOpen {
            self.state = Some(ConnectionState::Disconnected);
        }
    }
}
fn conn_err(n: u64) -> Error {
    Error::protocol(ErrorCode::other(-700), format!("attempt {n}"))
}
pub fn c27(c: &mut Ctx) {
    let strat = || {
        let op = prop_oneof![
            5 => vec(prop::bool::weighted(0.25), 0..8).prop_map(R::Reconnect),
            3 => prop::bool::weighted(0.3).prop_map(R::Attempt),
            3 => Just(R::Disconnected),
            1 => Just(R::Guard),
            1 => prop::bool::weighted(0.7).prop_map(R::Enable),
            1 => Just(R::Reset),
            2 => Just(R::Should),
            2 => Just(R::Delay),
            4 => (1u8..4).prop_map(R::Wait),
        ];
        (rc(), vec(op, 1..18)).boxed()
    };
    c.check(sub("history", 20_000, "an episode with a failed attempt, and a circuit opened or a limit reached"), strat, |(cfg, ops): &(RC, Vec<R>)| {
        let clock = Clock::new();
        vrt(async {
            let ev: A<Vec<String>> = am(vec![]);
            let mut m = ReconnectManager::new(cfg.make());
            let (e1, e2, e3, e4, e5) = (ev.clone(), ev.clone(), ev.clone(), ev.clone(), ev.clone());
            m.set_callbacks(ReconnectCallbacks {
                on_connecting: Some(Box::new(move |n| e1.lock().unwrap().push(format!("connecting {n}")))),
                on_connected: Some(Box::new(move || e2.lock().unwrap().push("connected".into()))),
                on_failed: Some(Box::new(move |e| e3.lock().unwrap().push(format!("failed {}", e.to_string().rsplit(' ').next().unwrap())))),
                on_circuit_open: Some(Box::new(move || e4.lock().unwrap().push("open".into()))),
                on_circuit_close: Some(Box::new(move || e5.lock().unwrap().push("close".into()))),
            });
            let m = Arc::new(m);
            let mut x = Model { enabled: true, ..Default::default() };
            let n = Arc::new(AtomicUsize::new(0)); // attempts made through `connect`
            let (mut failed, mut limit) = (false, false);
            let (mut recovered, mut kept) = (false, false);
            for op in ops {
                match op {
                    R::Reconnect(outs) => {
                        let at: A<Vec<Instant>> = am(vec![]);
                        let base = n.load(Ordering::SeqCst);
                        // beyond the script every attempt succeeds, so an unbounded loop ends too
                        let r = m
                            .reconnect_with(|| {
                                let k = n.fetch_add(1, Ordering::SeqCst);
                                at.lock().unwrap().push(Instant::now());
                                let ok = outs.get(k - base).copied().unwrap_or(true);
                                async move {
                                    tokio::task::yield_now().await;
                                    if ok {
                                        Ok(())
                                    } else {
                                        Err(conn_err(k as u64))
                                    }
                                }
                            })
                            .await;
                        // the model of the same episode
                        let mut k = base as u64;
                        let mut gaps: Vec<(f64, f64)> = vec![];
                        let mut tries = 0u32;
                        let want: Result<(), String> = loop {
                            if !x.should(cfg) {
                                break Err("limit".into());
                            }
                            tries += 1;
                            x.connecting();
                            if outs.get((k - base as u64) as usize).copied().unwrap_or(true) {
                                x.connected(cfg);
                                break Ok(());
                            }
                            x.failed(cfg, k);
                            failed = true;
                            k += 1;
                            if !x.should(cfg) {
                                break Err(format!("attempt {}", k - 1));
                            }
                            gaps.push(cfg.bounds(x.retry));
                        };
                        let made = (n.load(Ordering::SeqCst) - base) as u32;
                        ensure_eq!(made, tries, "attempts", "attempts in one episode with {cfg:?}");
                        ensure!(cfg.retries.is_none_or(|l| made <= l), "over-limit", "{made} attempts, maximum {:?}", cfg.retries);
                        limit |= want.is_err();
                        match (&want, &r) {
                            (Ok(()), Ok(())) => {},
                            (Err(w), Err(e)) => {
                                if w != "limit" {
                                    ensure!(e.to_string().contains(w.as_str()), "last-error", "{e}, expected the error of {w}");
                                }
                            },
                            _ => fail!("outcome", "episode {outs:?} with {cfg:?}: {r:?}, expected {want:?}"),
                        }
                        let at = at.lock().unwrap();
                        for (i, (lo, hi)) in gaps.iter().enumerate() {
                            let d = (at[i + 1] - at[i]).as_secs_f64();
                            ensure!(d >= lo - 1e-6 && d <= hi + 0.003, "delay", "delay {i} was {d} s, expected {lo}..{hi} with {cfg:?}");
                        }
                    },
                    R::Attempt(ok) => {
                        let should = m.should_reconnect().await;
                        ensure_eq!(should, x.should(cfg), "should", "whether to reconnect");
                        if should {
                            m.on_connecting().await;
                            x.connecting();
                            ensure_eq!(m.state().await, ConnectionState::Connecting, "state", "state while connecting");
                            ensure!(!m.should_reconnect().await, "should", "a second attempt while connecting");
                            if *ok {
                                m.on_connected().await;
                                x.connected(cfg);
                            } else {
                                let k = n.fetch_add(1, Ordering::SeqCst) as u64;
                                m.on_connection_failed(&conn_err(k)).await;
                                x.failed(cfg, k);
                            }
                        }
                    },
                    R::Disconnected => {
                        m.on_disconnected().await;
                        x.disconnected(cfg);
                    },
                    R::Guard => {
                        drop(ReconnectGuard::new(m.clone()));
                        settle().await;
                        x.disconnected(cfg);
                    },
                    R::Enable(b) => {
                        m.set_enabled(*b);
                        x.enabled = *b;
                    },
                    R::Reset => {
                        m.reset();
                        x.retry = 0;
                        x.fails = 0;
                    },
                    R::Wait(u) => {
                        clock.advance_mono(*u as i64 * UNIT as i64);
                        x.now += *u as u64;
                        let still = x.st() == ConnectionState::CircuitOpen && x.now - x.opened < cfg.circuit as u64;
                        kept |= still;
                        recovered |= x.st() == ConnectionState::CircuitOpen && !still;
                    },
                    R::Should => {
                        let s = m.should_reconnect().await;
                        ensure_eq!(s, x.should(cfg), "should", "whether to reconnect");
                    },
                    R::Delay => {
                        let d = m.calculate_delay().as_secs_f64();
                        let (lo, hi) = cfg.bounds(x.retry);
                        ensure!(d >= lo - 1e-6 && d <= hi + 1e-6, "delay", "delay {d} after {} failures, expected {lo}..{hi} with {cfg:?}", x.retry);
                        ensure!(d <= cfg.max as f64 / 1000.0 + 1e-9, "delay-cap", "delay {d} over the maximum");
                    },
                }
                ensure_eq!(m.state().await, x.st(), "state", "state after {op:?}");
                let s = m.stats();
                ensure!(
                    s.total_attempts == x.attempts && s.total_successes == x.successes && s.current_retry_count == x.retry && s.consecutive_failures == x.fails,
                    "stats",
                    "{s:?}, expected attempts {} successes {} retries {} failures {}",
                    x.attempts,
                    x.successes,
                    x.retry,
                    x.fails
                );
                let got = ev.lock().unwrap().clone();
                // the order of the two events of one failure is not fixed
                let norm = |v: &[String]| {
                    let mut v = v.to_vec();
                    for i in 1..v.len() {
                        if v[i] == "open" && v[i - 1].starts_with("failed") {
                            v.swap(i - 1, i);
                        }
                    }
                    v
                };
                ensure_eq!(norm(&got), norm(&x.ev), "events", "events after {op:?}");
            }
            let opened = x.ev.iter().any(|e| e == "open");
            Ok(Info::nt(failed && (opened || limit)).label(opened, "circuit").label(limit, "limit").label(kept, "waited, still open").label(recovered, "timeout passed"))
        })
    });
    c.check(sub("circuit_time", 60, "the circuit refused before its timeout").io(), || (20u64..80, 1u32..4, any::<bool>()).boxed(), |(ms, thr, ok): &(u64, u32, bool)| {
        rrt(async {
            let m = ReconnectManager::new(ReconnectConfig { circuit_breaker_threshold: Some(*thr), circuit_breaker_timeout: Duration::from_millis(*ms), ..Default::default() });
            for _ in 0..2 {
                let mut opened = std::time::Instant::now();
                while m.state().await != ConnectionState::CircuitOpen {
                    ensure!(m.should_reconnect().await, "should", "refused before the circuit opened");
                    m.on_connecting().await;
                    opened = std::time::Instant::now();
                    m.on_connection_failed(&conn_err(1)).await;
                }
                let s = m.should_reconnect().await;
                ensure!(!s || opened.elapsed() >= Duration::from_millis(*ms), "open-rejects", "allowed {:?} after opening, timeout {ms} ms", opened.elapsed());
                tokio::time::sleep(Duration::from_millis(ms + 3)).await;
                ensure!(s || m.should_reconnect().await, "timeout-closes", "still refused after the timeout of {ms} ms");
                ensure!(m.state().await != ConnectionState::CircuitOpen, "state", "still reported open");
                if *ok {
                    m.on_connecting().await;
                    m.on_connected().await;
                    m.on_disconnected().await;
                    ensure_eq!(m.stats().consecutive_failures, 0, "recovered", "failures after recovery");
                }
            }
            Ok(Info::nt(true))
        })
    });
}

// ---- C28 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum S {
    Fixed(u32, u64),
    /// attempts, initial, max, multiplier in quarters
    Exp(u32, u64, u64, u32),
    Fallback,
    /// failure threshold, success threshold, timeout in units of time
    Breaker(u32, u32, u8),
    FailFast,
}
impl S {
    fn make(&self) -> RecoveryStrategy {
        match self {
            S::Fixed(a, d) => RecoveryStrategy::RetryFixed { attempts: *a, delay: Duration::from_millis(*d) },
            S::Exp(a, i, m, q) => RecoveryStrategy::RetryExponential { attempts: *a, initial_delay: Duration::from_millis(*i), max_delay: Duration::from_millis(*m), multiplier: *q as f64 / 4.0 },
            S::Fallback => RecoveryStrategy::Fallback,
            S::Breaker(f, s, z) => RecoveryStrategy::CircuitBreaker { failure_threshold: *f, success_threshold: *s, timeout: units(*z) },
            S::FailFast => RecoveryStrategy::FailFast,
        }
    }
}
/// error kind: 0..6 protocol codes, 6 validation, 7 internal, 8 timeout-ish
fn mk(kind: u8, n: usize) -> Error {
    match kind {
        6 => Error::validation(format!("n{n}")),
        7 => Error::internal(format!("n{n}")),
        k => Error::protocol(code(k), format!("n{n}")),
    }
}
fn code(k: u8) -> ErrorCode {
    [ErrorCode::INVALID_REQUEST, ErrorCode::METHOD_NOT_FOUND, ErrorCode::INVALID_PARAMS, ErrorCode::INTERNAL_ERROR, ErrorCode::REQUEST_TIMEOUT, ErrorCode::other(-12345)][k as usize % 6]
}
fn tag(e: &Error) -> String {
    let s = e.to_string();
    s[s.rfind('n').map_or(0, |i| i)..].to_string()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Closed(u32),
    /// since
    Open(u64),
    Half(u32),
}
fn b_allow(b: &mut B, timeout: u8, now: u64) -> bool {
    match *b {
        B::Open(t) if now - t >= timeout as u64 => {
            *b = B::Half(0);
            true
        },
        B::Open(_) => false,
        _ => true,
    }
}
fn b_success(b: &mut B, st: u32) {
    *b = match *b {
        B::Closed(_) => B::Closed(0),
        B::Half(n) if n + 1 >= st => B::Closed(0),
        B::Half(n) => B::Half(n + 1),
        b => b,
    }
}
fn b_failure(b: &mut B, ft: u32, now: u64) {
    *b = match *b {
        B::Closed(n) if n + 1 >= ft => B::Open(now),
        B::Closed(n) => B::Closed(n + 1),
        _ => B::Open(now),
    }
}
struct Recover {
    log: A<Vec<String>>,
    ok: bool,
}
#[async_trait]
impl RecoveryHandler for Recover {
    async fn recover(&self, m: &str) -> pmcp::Result<Value> {
        self.log.lock().unwrap().push(m.into());
        if self.ok {
            Ok(json!("recovered"))
        } else {
            Err(Error::validation("handler n999"))
        }
    }
}
pub fn c28(c: &mut Ctx) {
    let st = || {
        prop_oneof![
            3 => (0u32..5, 0u64..400).prop_map(|(a, b)| S::Fixed(a, b)),
            3 => (0u32..6, 0u64..400, 1u64..1000, prop::sample::select(vec![2u32, 4, 5, 8, 12])).prop_map(|(a, b, c, d)| S::Exp(a, b, c, d)),
            2 => Just(S::Fallback),
            5 => (1u32..4, 1u32..4, 0u8..4).prop_map(|(a, b, c)| S::Breaker(a, b, c)),
            1 => Just(S::FailFast),
        ]
    };
    // outcomes: None success, Some(kind) failure
    let outs = || vec(prop_oneof![1 => Just(None), 3 => (0u8..8).prop_map(Some)], 1..9);
    c.check(
        sub("executor", 15_000, "an operation failed and was retried, recovered, or refused by a breaker"),
        move || (st(), vec((0u8..6, st()), 0..3), any::<bool>(), prop::option::of(any::<bool>()), vec((0u8..2, 0u8..3, outs()), 1..12)).boxed(),
        |(def, specific, defaults, handler, runs): &(S, Vec<(u8, S)>, bool, Option<bool>, Vec<(u8, u8, Vec<Option<u8>>)>)| {
            let clock = Clock::new();
            vrt(async {
                let mut p;
                let mut table: Vec<(i32, S)>;
                let mut default = def.clone();
                if *defaults {
                    p = RecoveryPolicy::default();
                    default = S::FailFast;
                    table = vec![(ErrorCode::INTERNAL_ERROR.as_i32(), S::Exp(3, 100, 5000, 8)), (ErrorCode::INVALID_REQUEST.as_i32(), S::Fixed(2, 500))];
                } else {
                    p = RecoveryPolicy::new(def.make());
                    table = vec![];
                }
                for (k, s) in specific {
                    p.add_strategy(code(*k), s.make());
                    table.retain(|t| t.0 != code(*k).as_i32());
                    table.push((code(*k).as_i32(), s.clone()));
                }
                let pick = |kind: u8| {
                    let c = if kind >= 6 { ErrorCode::INTERNAL_ERROR.as_i32() } else { code(kind).as_i32() };
                    table.iter().find(|t| t.0 == c).map_or(default.clone(), |t| t.1.clone())
                };
                let hlog = am(vec![]);
                let mut ex = RecoveryExecutor::new(p);
                if let Some(ok) = handler {
                    ex.register_handler("op0".into(), Arc::new(Recover { log: hlog.clone(), ok: *ok }));
                    let ok2 = *ok;
                    ex.register_handler("op1".into(), Arc::new(FallbackHandler::new(move || async move { if ok2 { Ok(json!("fb")) } else { Err(Error::internal("n998")) } })));
                }
                // breaker per operation: state, thresholds
                let mut br: [Option<(B, u32, u32, u8)>; 2] = [None, None];
                let mut now = 0u64;
                let (mut nt, mut refused) = (false, false);
                for (op, wait, outs) in runs {
                    clock.advance_mono(*wait as i64 * UNIT as i64);
                    now += *wait as u64;
                    hlog.lock().unwrap().clear();
                    let at: A<Vec<Instant>> = am(vec![]);
                    let t0 = Instant::now();
                    let r = ex
                        .execute_with_recovery(&format!("op{op}"), || {
                            let mut a = at.lock().unwrap();
                            let k = a.len();
                            a.push(Instant::now());
                            let o = outs.get(k).copied().unwrap_or(None);
                            async move {
                                tokio::task::yield_now().await;
                                match o {
                                    None => Ok(json!({"n": k})),
                                    Some(kind) => Err(mk(kind, k)),
                                }
                            }
                        })
                        .await;
                    let at = at.lock().unwrap().clone();
                    let mut delays: Vec<f64> = vec![0.0];
                    let want: Result<Value, String>;
                    let b = &mut br[*op as usize];
                    let open = b.as_mut().is_some_and(|b| !b_allow(&mut b.0, b.3, now));
                    if open {
                        refused = true;
                        ensure!(at.is_empty(), "open-runs", "the operation ran {} times although its circuit is open", at.len());
                        match r {
                            Err(Error::Protocol { code, .. }) if code == ErrorCode::INTERNAL_ERROR => {},
                            r => fail!("open-result", "an open circuit returned {r:?}"),
                        }
                        continue;
                    }
                    let out = |k: usize| outs.get(k).copied().unwrap_or(None);
                    match out(0) {
                        None => {
                            if let Some(b) = b {
                                b_success(&mut b.0, b.2);
                            }
                            want = Ok(json!({"n": 0}));
                        },
                        Some(kind) => {
                            let s = pick(kind);
                            let (tries, mut d, cap, mul) = match &s {
                                S::Fixed(a, d) => (*a, *d as f64, f64::MAX, 1.0),
                                S::Exp(a, i, m, q) => (*a, (*i).min(*m) as f64, *m as f64, *q as f64 / 4.0),
                                _ => (0, 0.0, 0.0, 0.0),
                            };
                            nt |= tries > 0;
                            match s {
                                S::Fallback => {
                                    nt = true;
                                    want = match (handler, op) {
                                        (None, _) => Err("n0".into()),
                                        (Some(true), 0) => Ok(json!("recovered")),
                                        (Some(true), _) => Ok(json!("fb")),
                                        (Some(false), 0) => Err("n999".into()),
                                        (Some(false), _) => Err("n998".into()),
                                    };
                                    if handler.is_some() && *op == 0 {
                                        let h = hlog.lock().unwrap().clone();
                                        ensure!(h.len() == 1 && h[0].ends_with("n0"), "fallback", "fallback handler called with {h:?}");
                                    }
                                },
                                S::Breaker(f, st, z) => {
                                    nt = true;
                                    let e = b.get_or_insert((B::Closed(0), f, st, z));
                                    b_failure(&mut e.0, e.1, now);
                                    want = Err("n0".into());
                                },
                                S::FailFast => want = Err("n0".into()),
                                _ => {
                                    let mut res = Err("n0".to_string());
                                    for k in 1..=tries as usize {
                                        delays.push(d / 1000.0);
                                        d = (d * mul).min(cap);
                                        match out(k) {
                                            None => {
                                                res = Ok(json!({"n": k}));
                                                break;
                                            },
                                            Some(_) => res = Err(format!("n{k}")),
                                        }
                                    }
                                    want = res;
                                },
                            }
                        },
                    }
                    ensure_eq!(at.len(), delays.len(), "runs", "how often the operation ran for {outs:?}");
                    match (&r, &want) {
                        (Ok(a), Ok(b)) => ensure_eq!(a, b, "result", "result for {outs:?}"),
                        (Err(e), Err(w)) => {
                            ensure_eq!(tag(e), *w, "error", "error returned for {outs:?}");
                            // the very error, not a rewrapped one (a missing fallback handler reports an internal error)
                            if let Some(k) = w[1..].parse::<usize>().ok().filter(|k| *k < 900) {
                                let kind = out(k).unwrap();
                                if !matches!(pick(out(0).unwrap()), S::Fallback) {
                                    ensure_eq!(e.error_code(), mk(kind, k).error_code(), "error-code", "code of the error returned");
                                }
                            }
                        },
                        _ => fail!("outcome", "{outs:?} gave {r:?}, expected {want:?}"),
                    }
                    let mut prev = t0;
                    for (t, d) in at.iter().zip(&delays) {
                        let got = (*t - prev).as_secs_f64();
                        ensure!(got >= d - 1e-6 && got <= d + 0.003, "delay", "waited {got} s before a run, expected {d}: {delays:?}");
                        prev = *t;
                    }
                }
                Ok(Info::nt(nt || refused).label(refused, "refused"))
            })
        },
    );
    c.check(
        sub("breaker", 20_000, "the circuit opened and was probed"),
        || (1u32..5, 1u32..4, 0u8..4, vec((prop_oneof![3 => Just(0u8), 2 => 1u8..4], prop::bool::weighted(0.45)), 1..40)).boxed(),
        |(ft, stt, timeout, outs): &(u32, u32, u8, Vec<(u8, bool)>)| {
            let clock = Clock::new();
            vrt(async {
                let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: *ft, success_threshold: *stt, timeout: units(*timeout) });
                let mut b = B::Closed(0);
                let mut now = 0;
                let (mut opened, mut probed, mut refused, mut reopened, mut recovered) = (false, false, false, false, false);
                for (wait, o) in outs {
                    clock.advance_mono(*wait as i64 * UNIT as i64);
                    now += *wait as u64;
                    let w = b_allow(&mut b, *timeout, now);
                    let g = cb.allow_request().await;
                    ensure_eq!(g, w, "allow", "request allowed ({b:?} at {now}, thresholds {ft} and {stt}, timeout {timeout}) in {outs:?}");
                    let half = matches!(b, B::Half(_));
                    probed |= half;
                    refused |= !g;
                    if !g {
                        continue;
                    }
                    if *o {
                        cb.record_success().await;
                        b_success(&mut b, *stt);
                    } else {
                        cb.record_failure().await;
                        b_failure(&mut b, *ft, now);
                    }
                    let open = matches!(b, B::Open(_));
                    reopened |= half && open;
                    recovered |= half && matches!(b, B::Closed(_));
                    opened |= open;
                }
                Ok(Info::nt(opened && (probed || refused)).label(probed, "probed").label(refused, "refused").label(reopened, "reopened").label(recovered, "recovered"))
            })
        },
    );
    c.check(
        sub("breaker_time", 60, "refused before the timeout").io(),
        || (20u64..80, 1u32..4, vec(any::<bool>(), 1..4)).boxed(),
        |(ms, ft, probes): &(u64, u32, Vec<bool>)| {
            rrt(async {
                let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: *ft, success_threshold: 1, timeout: Duration::from_millis(*ms) });
                let t = |t0: std::time::Instant| t0.elapsed() >= Duration::from_millis(*ms);
                let mut t0 = std::time::Instant::now();
                for _ in 0..*ft {
                    ensure!(cb.allow_request().await, "allow", "refused before the threshold");
                    t0 = std::time::Instant::now();
                    cb.record_failure().await;
                }
                for p in probes {
                    let a = cb.allow_request().await;
                    ensure!(!a || t(t0), "open-refuses", "allowed {:?} after opening, timeout {ms} ms", t0.elapsed());
                    tokio::time::sleep(Duration::from_millis(ms + 3)).await;
                    ensure!(a || cb.allow_request().await, "probe", "no probe after the timeout");
                    if *p {
                        cb.record_success().await;
                        ensure!(cb.allow_request().await, "closed", "refused after a successful probe");
                        for _ in 0..*ft {
                            ensure!(cb.allow_request().await, "closed", "opened below the threshold after recovery");
                            t0 = std::time::Instant::now();
                            cb.record_failure().await;
                        }
                    } else {
                        t0 = std::time::Instant::now();
                        cb.record_failure().await;
                    }
                }
                Ok(Info::nt(true))
            })
        },
    );
    c.check(sub("with_retry", 5_000, "more than one run"), move || (0u32..7, 0u64..300, outs()).boxed(), |(n, ms, outs): &(u32, u64, Vec<Option<u8>>)| {
        vrt(async {
            let at: A<Vec<Instant>> = am(vec![]);
            let r = with_retry(*n, Duration::from_millis(*ms), || {
                let mut a = at.lock().unwrap();
                let k = a.len();
                a.push(Instant::now());
                let o = outs.get(k).copied().unwrap_or(None);
                async move {
                    match o {
                        None => Ok(json!({"n": k})),
                        Some(kind) => Err(mk(kind, k)),
                    }
                }
            })
            .await;
            let at = at.lock().unwrap().clone();
            let first_ok = (0..*n as usize).find(|k| outs.get(*k).copied().unwrap_or(None).is_none());
            let runs = first_ok.map_or(*n as usize, |k| k + 1);
            ensure_eq!(at.len(), runs, "runs", "how often the operation ran");
            match (first_ok, r) {
                (Some(k), Ok(v)) => ensure_eq!(v, json!({"n": k}), "result", "result"),
                (None, Err(e)) if *n > 0 => ensure_eq!(tag(&e), format!("n{}", n - 1), "error", "error returned"),
                (None, Err(_)) => {},
                (w, r) => fail!("outcome", "{r:?}, first success {w:?}"),
            }
            for p in at.windows(2) {
                let d = p[1] - p[0];
                ensure!(d >= Duration::from_millis(*ms) && d <= Duration::from_millis(ms + 3), "delay", "waited {d:?}, expected {ms} ms");
            }
            Ok(Info::nt(runs > 1))
        })
    });
}
