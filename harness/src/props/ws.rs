//! C20: WebSocket transports, both ends, against a raw peer.
use crate::core::*;
use crate::gen::*;
use crate::http::fresh_ip;
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use pmcp::server::transport::websocket::{WebSocketServerBuilder, WebSocketServerConfig, WebSocketServerTransport};
use pmcp::shared::websocket::{WebSocketConfig, WebSocketTransport};
use pmcp::shared::Transport;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

const WAIT: Duration = Duration::from_secs(4);

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// the peer sends a message in one frame
    Text(Value, bool),
    /// ... in several frames, perhaps with a ping in between
    Frag(Value, Vec<u16>, bool),
    Junk(u8, Value),
    Binary(Value),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    /// the transport sends
    Send(Value, u8),
    /// the transport sends several without waiting in between
    Many(u16),
    /// the peer sends several before any is received
    Flood(u16),
    /// the transport receives what has been sent so far
    Recv,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum End {
    PeerClose,
    PeerDrop,
    Close,
    /// a message longer than the limit by this much
    TooBig(u16, bool),
    Violation(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Round {
    ops: Vec<Op>,
    end: End,
    drain: bool,
    /// connections that break off before this one is established
    broken: Vec<u8>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    rounds: Vec<Round>,
    /// server: maximum message size over the largest message sent
    limit: Option<u16>,
    unmasked: bool,
    /// client: pings, in ms
    ping: Option<u64>,
    attempts: Option<u32>,
}
fn bytes() -> BoxedStrategy<Vec<u8>> {
    vec(any::<u8>(), 0..12).boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (wire::any_wire(), prop::bool::weighted(0.2)).prop_map(|(w, p)| Op::Text(w, p)),
        3 => (wire::any_wire(), vec(any::<u16>(), 1..4), any::<bool>()).prop_map(|(w, c, p)| Op::Frag(w, c, p)),
        2 => (0u8..7, wire::any_wire()).prop_map(|(k, w)| Op::Junk(k, w)),
        1 => wire::any_wire().prop_map(Op::Binary),
        1 => bytes().prop_map(Op::Ping),
        1 => bytes().prop_map(Op::Pong),
        6 => (wire::any_wire(), 0u8..3).prop_map(|(w, f)| Op::Send(w, f)),
        1 => prop_oneof![3 => 2u16..12, 1 => 90u16..260].prop_map(Op::Many),
        1 => prop_oneof![3 => 2u16..12, 1 => 90u16..260].prop_map(Op::Flood),
        2 => Just(Op::Recv),
    ]
    .boxed()
}
fn case(server: bool) -> BoxedStrategy<Case> {
    let end = prop_oneof![
        3 => Just(End::PeerClose),
        2 => Just(End::PeerDrop),
        4 => Just(End::Close),
        3 => (prop_oneof![Just(1u16), 1u16..300], any::<bool>()).prop_map(move |(n, f)| if server { End::TooBig(n, f) } else { End::PeerClose }),
        2 => (0u8..7).prop_map(End::Violation),
    ];
    let round = (vec(op(), 0..10), end, any::<bool>(), vec(0u8..3, 0..3)).prop_map(|(ops, end, drain, broken)| Round { ops, end, drain, broken });
    (vec(round, 1..3), prop::option::weighted(0.7, prop_oneof![Just(0u16), 0u16..200]), any::<bool>(), prop::option::weighted(0.5, 1u64..8), prop::option::weighted(0.7, 1u32..4))
        .prop_map(|(rounds, limit, unmasked, ping, attempts)| Case { rounds, limit, unmasked, ping, attempts })
        .boxed()
}
fn text_of(w: &Value, pretty: bool) -> String {
    if pretty {
        serde_json::to_string_pretty(w).unwrap()
    } else {
        w.to_string()
    }
}
fn note(n: usize) -> Value {
    serde_json::json!({"jsonrpc": "2.0", "id": n, "result": {"n": n}})
}
fn junk(k: u8, w: &Value) -> String {
    let t = w.to_string();
    match k {
        0 => t[..t.len() - 1].into(),
        1 => format!("{t}{t}"),
        2 => String::new(),
        3 => "{}".into(),
        4 => "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"no/such\"}".into(),
        5 => "null".into(),
        _ => "\u{0}".into(),
    }
}
/// The largest frame the peer sends in the rounds
fn largest(c: &Case) -> usize {
    c.rounds
        .iter()
        .flat_map(|r| &r.ops)
        .map(|o| match o {
            Op::Text(w, p) => text_of(w, *p).len(),
            Op::Frag(w, ..) => w.to_string().len(),
            Op::Junk(k, w) => junk(*k, w).len(),
            Op::Binary(w) => w.to_string().len(),
            Op::Flood(n) => note(*n as usize).to_string().len(),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
        .max(60)
}
/// ... counting the fragments of a message one by one
fn largest_frame(c: &Case) -> usize {
    let of = |o: &Op| match o {
        Op::Frag(w, cuts, _) => frames(w, cuts).iter().map(Vec::len).max().unwrap_or(0),
        Op::Text(w, p) => text_of(w, *p).len(),
        Op::Junk(k, w) => junk(*k, w).len(),
        Op::Binary(w) => w.to_string().len(),
        Op::Flood(n) => note(*n as usize).to_string().len(),
        _ => 0,
    };
    c.rounds.iter().flat_map(|r| &r.ops).map(of).max().unwrap_or(0).max(60)
}
/// A raw peer: its own framing, both directions
struct Link {
    w: tokio::net::tcp::OwnedWriteHalf,
    seen: A<Vec<(u8, Vec<u8>)>>,
    reader: tokio::task::JoinHandle<()>,
    mask: bool,
}
impl Drop for Link {
    fn drop(&mut self) {
        self.reader.abort();
    }
}
const TEXT: u8 = 1;
const BINARY: u8 = 2;
const CLOSE: u8 = 8;
const PING: u8 = 9;
const PONG: u8 = 10;
const BROKEN: u8 = 255;
fn frame(fin: bool, op: u8, data: &[u8], mask: bool) -> Vec<u8> {
    let mut b = vec![u8::from(fin) << 7 | op];
    let m = u8::from(mask) << 7;
    match data.len() {
        n if n < 126 => b.push(m | n as u8),
        n if n < 65536 => {
            b.push(m | 126);
            b.extend_from_slice(&(n as u16).to_be_bytes());
        },
        n => {
            b.push(m | 127);
            b.extend_from_slice(&(n as u64).to_be_bytes());
        },
    }
    if mask {
        let key = [0x5a, 0, 0xc3, 0x11];
        b.extend_from_slice(&key);
        b.extend(data.iter().enumerate().map(|(i, x)| x ^ key[i % 4]));
    } else {
        b.extend_from_slice(data);
    }
    b
}
/// (fin, opcode, masked, payload) of the first frame, which is removed
fn unframe(b: &mut Vec<u8>) -> Option<(bool, u8, bool, Vec<u8>)> {
    let (h, l) = (*b.first()?, *b.get(1)?);
    let (mut p, mut n) = (2, usize::from(l & 127));
    if n == 126 {
        n = usize::from(u16::from_be_bytes(b.get(2..4)?.try_into().unwrap()));
        p = 4;
    } else if n == 127 {
        n = u64::from_be_bytes(b.get(2..10)?.try_into().unwrap()) as usize;
        p = 10;
    }
    let masked = l & 128 != 0;
    let key = if masked { b.get(p..p + 4)?.to_vec() } else { vec![0; 4] };
    p += if masked { 4 } else { 0 };
    let data = b.get(p..p + n)?.iter().enumerate().map(|(i, x)| x ^ key[i % 4]).collect();
    b.drain(..p + n);
    Some((h & 128 != 0, h & 15 | h & 0x70, masked, data))
}
fn link(s: TcpStream, mut buf: Vec<u8>, mask: bool) -> Link {
    let _ = s.set_nodelay(true);
    let (mut r, w) = s.into_split();
    let seen = am(vec![]);
    let s2 = seen.clone();
    let reader = tokio::spawn(async move {
        let mut part: Option<(u8, Vec<u8>)> = None;
        loop {
            while let Some((fin, op, masked, data)) = unframe(&mut buf) {
                let out = match (op, part.take()) {
                    _ if masked == mask => Some((BROKEN, b"masking".to_vec())),
                    (0, Some((o, mut d))) => {
                        d.extend(data);
                        if fin {
                            Some((o, d))
                        } else {
                            part = Some((o, d));
                            None
                        }
                    },
                    (1 | 2, None) if fin => Some((op, data)),
                    (1 | 2, None) => {
                        part = Some((op, data));
                        None
                    },
                    (8..=10, p) if fin && data.len() < 126 => {
                        part = p;
                        Some((op, data))
                    },
                    _ => Some((BROKEN, vec![op])),
                };
                if let Some(o) = out {
                    s2.lock().unwrap().push(o);
                }
            }
            let mut b = [0u8; 4096];
            match r.read(&mut b).await {
                Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
                _ => return,
            }
        }
    });
    Link { w, seen, reader, mask }
}
impl Link {
    fn of(&self, op: u8) -> Vec<Vec<u8>> {
        self.seen.lock().unwrap().iter().filter(|(o, _)| *o == op).map(|(_, d)| d.clone()).collect()
    }
    async fn raw(&mut self, b: &[u8]) -> Result<(), Fail> {
        match tokio::time::timeout(WAIT, self.w.write_all(b)).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail!("peer-send", "the connection broke: {e}"),
            Err(_) => fail!("timeout-peer-send", "the connection does not take what the peer sends"),
        }
    }
    async fn put(&mut self, op: u8, d: &[u8]) -> Result<(), Fail> {
        let f = frame(true, op, d, self.mask);
        self.raw(&f).await
    }
    /// the other side ends the connection
    async fn ended(&mut self, what: &str) -> Result<(), Fail> {
        if tokio::time::timeout(WAIT, &mut self.reader).await.is_err() {
            fail!(format!("timeout-open-{what}"), "the connection stays open after {what}");
        }
        Ok(())
    }
}
async fn head(s: &mut TcpStream) -> Option<(String, Vec<u8>)> {
    let mut buf = vec![];
    loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let rest = buf.split_off(i + 4);
            return Some((String::from_utf8_lossy(&buf).into_owned(), rest));
        }
        let mut b = [0u8; 1024];
        match s.read(&mut b).await {
            Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
            _ => return None,
        }
    }
}
const KEY: &str = "dGhlIHNhbXBsZSBub25jZQ==";
/// connect as a client
async fn dial(a: std::net::SocketAddr) -> Result<Link, String> {
    let mut s = TcpStream::connect(a).await.map_err(|e| e.to_string())?;
    let q = format!("GET / HTTP/1.1\r\nHost: {a}\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {KEY}\r\nSec-WebSocket-Version: 13\r\n\r\n");
    s.write_all(q.as_bytes()).await.map_err(|e| e.to_string())?;
    let (h, rest) = head(&mut s).await.ok_or("no handshake reply")?;
    if !h.starts_with("HTTP/1.1 101") || !h.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
        return Err(format!("handshake reply {h}"));
    }
    Ok(link(s, rest, true))
}
/// accept as a server; `None` breaks the connection off
async fn serve(l: &TcpListener, broken: Option<u8>) -> Option<Link> {
    let (mut s, _) = l.accept().await.ok()?;
    if broken == Some(0) {
        return None;
    }
    let (h, rest) = head(&mut s).await?;
    match broken {
        Some(1) => return None,
        Some(_) => {
            let _ = s.write_all(b"HTTP/1.1 503 X\r\nConnection: close\r\nContent-Length: 0\r\n\r\n").await;
            return None;
        },
        None => {},
    }
    let key = h.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("sec-websocket-key")).map(|(_, v)| v.trim().to_string()))?;
    let acc = tokio_tungstenite::tungstenite::handshake::derive_accept_key(key.as_bytes());
    s.write_all(format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {acc}\r\n\r\n").as_bytes()).await.ok()?;
    Some(link(s, rest, false))
}
async fn recv_all(t: &mut dyn Transport, due: &mut std::collections::VecDeque<Value>) -> Result<(), Fail> {
    while let Some(w) = due.pop_front() {
        match tokio::time::timeout(WAIT, t.receive()).await {
            Err(_) => fail!("timeout-receive", "not received: {w} and {} more", due.len()),
            Ok(Err(e)) => fail!("receive-lost", "receive failed with {e} instead of {w}"),
            Ok(Ok(m)) => {
                let v = wire::msg_o(&m);
                ensure!(same(&v, &w), "receive-wrong", "received {v}, expected {w}");
            },
        }
    }
    Ok(())
}
async fn seen_all(l: &Link, sent: &[Value]) -> Result<(), Fail> {
    let end = tokio::time::Instant::now() + WAIT;
    let mut texts = l.of(TEXT);
    while texts.len() < sent.len() {
        ensure!(tokio::time::Instant::now() < end, "timeout-undelivered", "the peer saw {} of {} messages sent", texts.len(), sent.len());
        tokio::time::sleep(Duration::from_millis(1)).await;
        texts = l.of(TEXT);
    }
    ensure_eq!(texts.len(), sent.len(), "sent-count", "text frames seen");
    for (t, w) in texts.iter().zip(sent) {
        let v: Value = serde_json::from_slice(t).map_err(|e| Fail::new("sent-json", format!("{e}: {:?}", String::from_utf8_lossy(t))))?;
        ensure!(same(&v, w), "sent-wrong", "the peer saw {v}, sent was {w}");
    }
    Ok(())
}
fn frames(w: &Value, cuts: &[u16]) -> Vec<Vec<u8>> {
    let t = w.to_string().into_bytes();
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (t.len() + 1)).chain([t.len()]).collect();
    at.sort_unstable();
    let mut p = 0;
    at.into_iter().map(|a| { let s = t[p..a].to_vec(); p = a; s }).collect()
}
/// One connection, from established to ended
async fn round(t: &mut dyn Transport, l: &mut Link, r: &Round, limit: usize, unmasked: bool) -> Result<(), Fail> {
    let server = l.mask;
    let mut due = std::collections::VecDeque::new();
    let mut sent: Vec<Value> = vec![];
    let mut pings: Vec<Vec<u8>> = vec![];
    ensure!(t.is_connected(), "connected", "an established connection is not reported");
    for o in &r.ops {
        match o {
            Op::Text(w, p) => {
                l.put(TEXT, text_of(w, *p).as_bytes()).await?;
                due.push_back(w.clone());
            },
            Op::Frag(w, cuts, ping) => {
                let v = frames(w, cuts);
                let n = v.len();
                for (i, f) in v.into_iter().enumerate() {
                    let f = frame(i + 1 == n, if i == 0 { TEXT } else { 0 }, &f, l.mask);
                    l.raw(&f).await?;
                    if *ping && i + 1 < n {
                        l.put(PING, &[7]).await?;
                        pings.push(vec![7]);
                    }
                }
                due.push_back(w.clone());
            },
            Op::Junk(k, w) => l.put(TEXT, junk(*k, w).as_bytes()).await?,
            Op::Binary(w) => l.put(BINARY, w.to_string().as_bytes()).await?,
            Op::Ping(b) => {
                l.put(PING, b).await?;
                pings.push(b.clone());
            },
            Op::Pong(b) => l.put(PONG, b).await?,
            Op::Send(w, form) => {
                put(t, w, *form).await?;
                sent.push(w.clone());
            },
            Op::Many(n) => {
                for i in 0..*n as usize {
                    put(t, &note(i), 0).await?;
                    sent.push(note(i));
                    ensure!(t.is_connected(), "connected", "not connected after message {i} of {n}");
                }
            },
            Op::Flood(n) => {
                for i in 0..*n as usize {
                    l.put(TEXT, note(i).to_string().as_bytes()).await?;
                    due.push_back(note(i));
                }
            },
            Op::Recv => recv_all(t, &mut due).await?,
        }
    }
    let closing = matches!(r.end, End::Close);
    if r.drain || !closing {
        seen_all(l, &sent).await?;
    }
    if r.drain {
        recv_all(t, &mut due).await?;
        // once this is answered, everything has been read
        l.put(PING, b"last").await?;
        pings.push(b"last".to_vec());
        if let Some(p) = pings.last() {
            let end = tokio::time::Instant::now() + WAIT;
            while !l.of(PONG).contains(p) {
                ensure!(tokio::time::Instant::now() < end, "timeout-pong", "no pong for {p:?}");
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
    }
    for (op, d) in l.seen.lock().unwrap().iter() {
        match *op {
            PONG => ensure!(pings.contains(d), "pong", "pong {d:?} without such a ping"),
            TEXT => {},
            PING if !server => {},
            x => fail!("frame", "the peer saw a frame {x} {:?}", String::from_utf8_lossy(d)),
        }
    }
    match &r.end {
        End::Close => {
            match tokio::time::timeout(WAIT, t.close()).await {
                Ok(x) => ensure!(x.is_ok(), "close", "close failed: {x:?}"),
                Err(_) => fail!("timeout-close", "close does not return"),
            }
            ensure!(!t.is_connected(), "close-connected", "still connected after close");
            match tokio::time::timeout(WAIT, t.receive()).await {
                Ok(x) => ensure!(x.is_err(), "receive-after-close", "received {x:?} after close"),
                Err(_) => fail!("timeout-receive-after-close", "receive after close does not return"),
            }
            match tokio::time::timeout(WAIT, t.send(wire::msg_i(&note(0), 0))).await {
                Ok(x) => ensure!(x.is_err(), "send-after-close", "sent after close"),
                Err(_) => fail!("timeout-send-after-close", "send after close does not return"),
            }
            // what was sent before arrives, then the connection is closed; the peer answers and hangs up
            let end = tokio::time::Instant::now() + WAIT;
            while l.of(CLOSE).is_empty() && !l.reader.is_finished() {
                ensure!(tokio::time::Instant::now() < end, "timeout-open-close", "the peer sees nothing of the close");
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if r.drain {
                seen_all(l, &sent).await?;
            } else {
                // hanging up on unread data may cut off what is under way, but only its end
                let n = l.of(TEXT).len().min(sent.len());
                seen_all(l, &sent[..n]).await?;
            }
            let _ = l.put(CLOSE, &[3, 232]).await;
            if !l.mask {
                let _ = l.w.shutdown().await;
            }
            return l.ended("close").await;
        },
        End::PeerClose => {
            l.put(CLOSE, &[3, 232]).await?;
            recv_all(t, &mut due).await?;
            let end = tokio::time::Instant::now() + WAIT;
            while l.of(CLOSE).is_empty() && !l.reader.is_finished() {
                ensure!(tokio::time::Instant::now() < end, "timeout-close-answer", "the peer's close is not answered");
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            // it is the server that hangs up
            if !l.mask {
                let _ = l.w.shutdown().await;
            }
        },
        End::PeerDrop => {
            let _ = l.w.shutdown().await;
        },
        End::TooBig(n, frag) => {
            let mut w = note(0);
            let pad = limit + *n as usize - (w.to_string().len() - 1) - 2;
            w["result"]["n"] = Value::String("x".repeat(pad));
            ensure_eq!(w.to_string().len(), limit + *n as usize, "harness", "length");
            if *frag {
                let v = frames(&w, &[(limit / 2) as u16, limit as u16]);
                for (i, f) in v.iter().enumerate() {
                    let f = frame(i == 2, if i == 0 { TEXT } else { 0 }, f, l.mask);
                    if l.raw(&f).await.is_err() {
                        break;
                    }
                }
            } else {
                let _ = l.put(TEXT, w.to_string().as_bytes()).await;
            }
        },
        End::Violation(k) => {
            let w = note(77).to_string();
            let m = l.mask;
            let f = match k {
                0 => {
                    if server && unmasked {
                        due.push_back(note(77));
                    }
                    frame(true, TEXT, w.as_bytes(), !m)
                },
                1 => frame(true, TEXT, b"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"\xff\"}", m),
                2 => frame(true, 3, w.as_bytes(), m),
                3 => frame(true, 0, w.as_bytes(), m),
                4 => frame(false, PING, &[], m),
                5 => frame(true, 0x40 | TEXT, w.as_bytes(), m),
                // a message that never ends
                _ => frame(false, TEXT, w.as_bytes(), m),
            };
            let _ = l.raw(&f).await;
            if *k == 0 && server && unmasked || *k > 5 {
                let _ = l.w.shutdown().await;
            }
        },
    }
    recv_all(t, &mut due).await?;
    // the connection has ended: receive fails
    match tokio::time::timeout(WAIT, t.receive()).await {
        Ok(Ok(m)) => fail!("received-extra", "received {} after the last message", wire::msg_o(&m)),
        Ok(Err(_)) => {},
        Err(_) => fail!("timeout-receive-end", "receive does not return although the connection has ended"),
    }
    Ok(())
}
async fn put(t: &mut dyn Transport, w: &Value, form: u8) -> Result<(), Fail> {
    match tokio::time::timeout(WAIT, t.send(wire::msg_i(w, form))).await {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail!("send", "send of {w} failed: {e}"),
        Err(_) => fail!("timeout-send", "send of {w} does not return"),
    }
}
/// Before long, send fails on a connection that is gone
async fn sends_fail(t: &mut dyn Transport) -> Result<(), Fail> {
    let end = tokio::time::Instant::now() + WAIT;
    loop {
        match tokio::time::timeout(WAIT, t.send(wire::msg_i(&note(0), 0))).await {
            Err(_) => fail!("timeout-send-end", "send does not return although the connection has ended"),
            Ok(Err(_)) => return Ok(()),
            Ok(Ok(())) => ensure!(tokio::time::Instant::now() < end, "timeout-send-ok", "send keeps succeeding although the connection has ended"),
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}
fn info(c: &Case) -> Info {
    let ops = || c.rounds.iter().flat_map(|r| &r.ops);
    let inn = ops().filter(|o| matches!(o, Op::Text(..) | Op::Frag(..) | Op::Flood(_))).count();
    let out = ops().filter(|o| matches!(o, Op::Send(..) | Op::Many(_))).count();
    Info::nt(inn > 0 && out > 0)
        .label(c.rounds.len() > 1, "another connection afterwards")
        .label(ops().any(|o| matches!(o, Op::Junk(..) | Op::Binary(_))), "frames that are no message")
        .label(ops().any(|o| matches!(o, Op::Frag(..))), "fragmented")
        .label(ops().any(|o| matches!(o, Op::Flood(n) | Op::Many(n) if *n > 89)), "more than the queues hold")
        .label(c.rounds.iter().any(|r| matches!(r.end, End::TooBig(..))), "too big")
        .label(c.rounds.iter().any(|r| matches!(r.end, End::Violation(..))), "protocol violation")
}
fn run_server(c: &Case) -> CaseResult {
    rrt(async {
        let addr = std::net::SocketAddr::from((fresh_ip(), 9101));
        let limit = largest(c) + usize::from(c.limit.unwrap_or(0));
        let mut b = WebSocketServerBuilder::new().bind_addr(addr).accept_unmasked_frames(c.unmasked);
        if c.limit.is_some() || c.rounds.iter().any(|r| matches!(r.end, End::TooBig(..))) {
            // a limit on frames only does not bound a message in several frames
            let whole = c.rounds.iter().all(|r| !matches!(r.end, End::TooBig(_, true)));
            b = match (c.ping.is_some(), c.attempts) {
                (true, _) => b.max_message_size(limit),
                (false, Some(_)) if whole => b.max_frame_size(limit),
                (false, _) => b.max_message_size(limit).max_frame_size(limit),
            };
        }
        let mut t = b.build();
        if let (true, Some(n), false) = (c.limit.is_some(), c.attempts, c.rounds.iter().any(|r| matches!(r.end, End::TooBig(..)))) {
            // one of the two limits only, and none on the other
            let d = WebSocketServerConfig { bind_addr: addr, accept_unmasked_frames: c.unmasked, ..Default::default() };
            t = WebSocketServerTransport::new(match n % 2 {
                0 => WebSocketServerConfig { max_frame_size: Some(largest_frame(c)), max_message_size: None, ..d },
                _ => WebSocketServerConfig { max_frame_size: None, max_message_size: Some(limit), ..d },
            });
        }
        ensure!(t.send(wire::msg_i(&note(0), 0)).await.is_err(), "send-unconnected", "sent without a connection");
        ensure!(t.receive().await.is_err(), "receive-unconnected", "received without a connection");
        ensure!(t.accept().await.is_err(), "accept-unbound", "accepted without a listener");
        if let Err(e) = t.bind().await {
            fail!("timeout-bind", "bind: {e}");
        }
        for r in &c.rounds {
            for k in &r.broken {
                let a = async {
                    let mut s = TcpStream::connect(addr).await.map_err(|e| Fail::new("timeout-connect", e.to_string()))?;
                    match k {
                        0 => {},
                        1 => {
                            let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await;
                        },
                        _ => {
                            let _ = s.write_all(&frame(true, TEXT, b"{}", true)).await;
                            let _ = s.write_all(b"\r\n\r\n").await;
                        },
                    }
                    let _ = s.shutdown().await;
                    let mut b = [0u8; 1024];
                    while matches!(s.read(&mut b).await, Ok(n) if n > 0) {}
                    Ok::<(), Fail>(())
                };
                match tokio::time::timeout(WAIT, futures::future::join(t.accept(), a)).await {
                    Ok((x, y)) => {
                        y?;
                        ensure!(x.is_err(), "accept-broken", "a connection that broke off was accepted");
                    },
                    Err(_) => fail!("timeout-accept-broken", "accept does not return for a connection that broke off"),
                }
            }
            let (a, l) = match tokio::time::timeout(WAIT, futures::future::join(t.accept(), dial(addr))).await {
                Ok(x) => x,
                Err(_) => fail!("timeout-accept", "no connection"),
            };
            ensure!(a.is_ok(), "accept", "accept failed: {a:?}");
            let mut l = match l {
                Ok(l) => l,
                Err(e) => fail!("handshake", "{e}"),
            };
            round(&mut t, &mut l, r, limit, c.unmasked).await?;
            drop(l);
            sends_fail(&mut t).await?;
        }
        Ok(info(c))
    })
}
fn run_client(c: &Case) -> CaseResult {
    rrt(async {
        let l = TcpListener::bind((fresh_ip(), 0)).await.unwrap();
        let addr = l.local_addr().unwrap();
        let mut t = WebSocketTransport::new(WebSocketConfig {
            url: format!("ws://{addr}/a?b=c").parse().unwrap(),
            reconnect_delay: Duration::from_millis(1),
            max_reconnect_delay: Duration::from_millis(3),
            max_reconnect_attempts: c.attempts,
            ping_interval: c.ping.map(Duration::from_millis),
            ..WebSocketConfig::default()
        });
        ensure!(!t.is_connected(), "connected", "connected before connect");
        ensure!(t.send(wire::msg_i(&note(0), 0)).await.is_err(), "send-unconnected", "sent without a connection");
        for r in &c.rounds {
            let fails = r.broken.len();
            let ok = c.attempts.is_none_or(|m| fails < m as usize);
            let accept = async {
                for (n, k) in r.broken.iter().enumerate() {
                    if c.attempts.is_some_and(|m| n >= m as usize) {
                        return None;
                    }
                    let _ = serve(&l, Some(*k)).await;
                }
                if ok {
                    serve(&l, None).await
                } else {
                    None
                }
            };
            let (a, p) = match tokio::time::timeout(WAIT, futures::future::join(t.connect(), accept)).await {
                Ok(x) => x,
                Err(_) => fail!("timeout-connect", "connect does not return"),
            };
            ensure_eq!(a.is_ok(), ok, "connect", "connect after {fails} failures, {:?} attempts allowed: {a:?}", c.attempts);
            ensure!(tokio::time::timeout(Duration::from_millis(5), l.accept()).await.is_err(), "connect-attempts", "more connections than attempts allowed");
            if !ok {
                ensure!(!t.is_connected(), "connected", "connected although connect failed");
                continue;
            }
            let Some(mut p) = p else { fail!("timeout-handshake", "no handshake") };
            round(&mut t, &mut p, r, 0, false).await?;
            drop(p);
            sends_fail(&mut t).await?;
        }
        Ok(info(c).label(c.rounds.iter().any(|r| !r.broken.is_empty()), "failed attempts").label(c.ping.is_some(), "pings of its own"))
    })
}
/// Nobody listens: the attempts and the waits between them, in virtual time.
fn run_delays(c: &(u64, u64, u32)) -> CaseResult {
    let (first, most, n) = *c;
    // a port that refuses at once, while the listener's socket is not listening any more
    let addr = {
        let l = std::net::TcpListener::bind((fresh_ip(), 0)).unwrap();
        l.local_addr().unwrap()
    };
    vrt(async {
        let t = WebSocketTransport::new(WebSocketConfig {
            url: format!("ws://{addr}/").parse().unwrap(),
            reconnect_delay: Duration::from_millis(first),
            max_reconnect_delay: Duration::from_millis(most),
            max_reconnect_attempts: Some(n),
            ..WebSocketConfig::default()
        });
        let t0 = tokio::time::Instant::now();
        ensure!(t.connect().await.is_err(), "connect", "connected to nobody");
        ensure!(!t.is_connected(), "connected", "connected although connect failed");
        let took = t0.elapsed().as_millis() as u64;
        let want: u64 = (0..n.saturating_sub(1)).map(|k| (first << k).min(most)).sum();
        ensure!(took >= want && took <= want + 2 * u64::from(n), "delays", "{n} attempts, first delay {first} ms, at most {most} ms: waited {took} ms instead of {want} ms");
        Ok(Info::nt(n > 2 && first < most).label(n > 1 && first << (n - 2) > most, "capped").label(first > most, "first delay over the maximum"))
    })
}
pub fn c20(c: &mut Ctx) {
    c.check(
        sub("delays", 2000, "several waits, the first below the maximum").io(),
        || (prop_oneof![1u64..20, 1u64..4000], prop_oneof![3 => 1u64..20, 3 => 1u64..4000, 2 => 4000u64..100_000], 1u32..9).boxed(),
        run_delays,
    );
    c.check(sub("server", 2000, "messages go both ways").io(), || case(true), run_server);
    c.check(sub("client", 2000, "messages go both ways").io(), || case(false), run_client);
}
