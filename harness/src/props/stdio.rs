//! C21: stdio framing, through a child process that runs the transport over pipes.
use crate::core::*;
use crate::gen::*;
use crate::wire;
use crate::{ensure, ensure_eq, fail};
use pmcp::shared::{StdioTransport, Transport};
use pmcp::error::TransportError;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::process::Stdio;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const WAIT: Duration = Duration::from_secs(10);

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
    /// a frame: its body, header lines before and after the length, line ends
    Frame(Body, Vec<String>, Vec<String>, u8, u8),
    /// a header block with no usable length
    NoLength(Vec<String>, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Body {
    Msg(Value, bool),
    Bad(u8, Value),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Tail {
    Clean,
    /// ends within a frame's body
    Body(Value, u16),
    /// ends within the header block
    Head(u16),
    /// a length no body has
    Huge(String, u16),
    /// a whole message, declared longer than what follows
    Over(Value, u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    items: Vec<Item>,
    tail: Tail,
    cuts: Vec<u16>,
    pause: u64,
    /// messages the transport sends, and before which receive
    sends: Vec<(u16, Value, u8)>,
    close: Option<u16>,
}
/// a message longer than the buffers and pipes on its way
fn big() -> BoxedStrategy<Value> {
    (0usize..3, prop_oneof![60_000usize..70_000, 30_000usize..36_000, 1usize..200_000])
        .prop_map(|(k, n)| {
            let t = ["a", "é", "\u{1f980}"][k].repeat(n);
            json!({"jsonrpc": "2.0", "id": n, "result": {"text": t}})
        })
        .boxed()
}
fn any_wire() -> BoxedStrategy<Value> {
    prop_oneof![30 => wire::any_wire(), 1 => big()].boxed()
}
fn body() -> BoxedStrategy<Body> {
    prop_oneof![
        6 => (any_wire(), prop::bool::weighted(0.2)).prop_map(|(w, p)| Body::Msg(w, p)),
        2 => (0u8..8, wire::any_wire()).prop_map(|(k, w)| Body::Bad(k, w)),
    ]
    .boxed()
}
fn text_of(b: &Body) -> Vec<u8> {
    match b {
        Body::Msg(w, true) => serde_json::to_string_pretty(w).unwrap().into_bytes(),
        Body::Msg(w, false) => w.to_string().into_bytes(),
        Body::Bad(k, w) => {
            let t = w.to_string();
            match k {
                0 => t[..t.len() - 1].as_bytes().to_vec(),
                1 => format!("{t} {t}").into_bytes(),
                2 => vec![],
                3 => b"{}".to_vec(),
                4 => br#"{"jsonrpc":"2.0","id":1,"method":"no/such/method"}"#.to_vec(),
                5 => b"\"Content-Length: 3\\r\\n\\r\\n{}\"".to_vec(),
                6 => b"Content-Length: 2\r\n\r\n{}".to_vec(),
                _ => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"\xff\"}".to_vec(),
            }
        },
    }
}
fn header() -> BoxedStrategy<String> {
    prop_oneof![
        Just("Content-Type: application/vscode-jsonrpc; charset=utf-8".to_string()),
        Just("X-Length: 7".to_string()),
        Just("Not-Content-Length: 7".to_string()),
        Just("no colon".to_string()),
        "[A-Za-z-]{1,8}: [!-~é世]{1,10}".prop_filter("a length", |s| !s.to_lowercase().starts_with("content-length")),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let bad_len = prop_oneof![
        header(),
        prop::sample::select(vec!["Content-Length: ", "Content-Length: x", "Content-Length: -1", "Content-Length: 1.5", "Content-Length: 0x10", "Content-Length: 99999999999999999999999", "Content-Length: 1 2"]).prop_map(String::from),
    ];
    let item = prop_oneof![
        8 => (body(), vec(header(), 0..3), vec(header(), 0..3), 0u8..3, 0u8..4).prop_map(|(b, x, y, e, s)| Item::Frame(b, x, y, e, s)),
        1 => (vec(bad_len, 1..3), 0u8..3).prop_map(|(h, e)| Item::NoLength(h, e)),
    ];
    let tail = prop_oneof![
        6 => Just(Tail::Clean),
        2 => (wire::any_wire(), any::<u16>()).prop_map(|(w, n)| Tail::Body(w, n)),
        1 => (wire::any_wire(), prop_oneof![Just(1u16), 1u16..2000]).prop_map(|(w, n)| Tail::Over(w, n)),
        1 => any::<u16>().prop_map(Tail::Head),
        1 => (prop::sample::select(vec!["1000000000000", "1125899906842624", "9223372036854775807", "9223372036854775808", "18446744073709551615"]), 0u16..3000).prop_map(|(n, k)| Tail::Huge(n.into(), k)),
    ];
    (vec(item, 0..8), tail, vec(any::<u16>(), 0..6), 0u64..3, vec((any::<u16>(), any_wire(), 0u8..3), 0..4), prop::option::weighted(0.15, any::<u16>()))
        .prop_map(|(items, tail, cuts, pause, sends, close)| Case { items, tail, cuts, pause, sends, close })
        .boxed()
}
fn eol(k: u8, n: usize) -> &'static str {
    match k {
        0 => "\r\n",
        1 => "\n",
        _ => ["\r\n", "\n"][n % 2],
    }
}
fn bytes(c: &Case) -> Vec<u8> {
    let mut o = vec![];
    for i in &c.items {
        match i {
            Item::Frame(b, before, after, e, sp) => {
                let t = text_of(b);
                let len = format!("Content-Length: {}{}", t.len(), ["", " ", "\t", ""][*sp as usize]);
                let mut n = 0;
                for h in before.iter().chain([&len]).chain(after) {
                    o.extend_from_slice(h.as_bytes());
                    o.extend_from_slice(eol(*e, n).as_bytes());
                    n += 1;
                }
                o.extend_from_slice(eol(*e, n).as_bytes());
                o.extend_from_slice(&t);
            },
            Item::NoLength(hs, e) => {
                for (n, h) in hs.iter().enumerate() {
                    o.extend_from_slice(h.as_bytes());
                    o.extend_from_slice(eol(*e, n).as_bytes());
                }
                o.extend_from_slice(eol(*e, hs.len()).as_bytes());
            },
        }
    }
    match &c.tail {
        Tail::Clean => {},
        Tail::Body(w, n) => {
            let t = w.to_string();
            o.extend_from_slice(format!("Content-Length: {}\r\n\r\n", t.len()).as_bytes());
            o.extend_from_slice(&t.as_bytes()[..*n as usize % t.len()]);
        },
        Tail::Over(w, n) => {
            let t = w.to_string();
            o.extend_from_slice(format!("Content-Length: {}\r\n\r\n{t}", t.len() + *n as usize).as_bytes());
        },
        Tail::Head(n) => {
            let t = "Content-Length: 12\r\nX: y\r\n";
            o.extend_from_slice(&t.as_bytes()[..1 + *n as usize % (t.len() - 1)]);
        },
        Tail::Huge(l, n) => {
            o.extend_from_slice(format!("Content-Length: {l}\r\n\r\n").as_bytes());
            o.extend(std::iter::repeat_n(b' ', *n as usize));
        },
    }
    o
}
/// Child process: receive until the end, sending in between, and report on stderr.
pub fn child(plan: &str) {
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(plan).unwrap()).unwrap();
    let sends: Vec<(u64, Value, u8)> = serde_json::from_value(plan["sends"].clone()).unwrap();
    let (max, close) = (plan["max"].as_u64().unwrap(), plan["close"].as_u64());
    let mut log: Vec<Value> = vec![];
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    rt.block_on(async {
        let mut t = StdioTransport::new();
        for n in 0..max {
            for (_, w, form) in sends.iter().filter(|(k, ..)| *k == n) {
                let r = t.send(wire::msg_i(w, *form)).await;
                log.push(json!({"sent": r.is_ok()}));
            }
            if close == Some(n) {
                let r = t.close().await;
                log.push(json!({"closed": r.is_ok(), "connected": t.is_connected()}));
            }
            match t.receive().await {
                Ok(m) => log.push(json!({"ok": wire::msg_o(&m)})),
                Err(pmcp::Error::Transport(TransportError::ConnectionClosed)) => {
                    log.push(json!({"end": t.is_connected()}));
                    let again = matches!(t.receive().await, Err(pmcp::Error::Transport(TransportError::ConnectionClosed)));
                    log.push(json!({"again": again}));
                    break;
                },
                Err(e) => log.push(json!({"err": e.to_string()})),
            }
        }
    });
    eprintln!("REPORT{}", Value::Array(log));
    // a read of stdin may still be pending
    std::process::exit(0);
}
fn run(c: &Case) -> CaseResult {
    let dir = super::misc::Scratch::new("stdio");
    let input = bytes(c);
    let n = c.items.len() as u64;
    let at = |k: u16| u64::from(k) % (n + 1);
    let mut sends: Vec<(u64, &Value, u8)> = c.sends.iter().map(|(k, w, f)| (at(*k), w, *f)).collect();
    sends.sort_by_key(|s| s.0);
    let close = c.close.map(at);
    let plan = dir.0.join("plan");
    std::fs::write(&plan, json!({"sends": sends, "max": n + 6, "close": close}).to_string()).unwrap();
    let (status, out, err) = rrt(async {
        let mut ch = tokio::process::Command::new(std::env::current_exe().unwrap())
            .args(["child", "stdio"])
            .arg(&plan)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .kill_on_drop(true)
            .spawn()
            .map_err(|e| Fail::new("timeout-spawn", e.to_string()))?;
        let (mut i, mut o, mut e) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let feed = async {
            let mut at: Vec<usize> = c.cuts.iter().map(|k| *k as usize % (input.len() + 1)).chain([input.len()]).collect();
            at.sort_unstable();
            let mut p = 0;
            for a in at {
                if c.pause > 0 {
                    tokio::time::sleep(Duration::from_millis(c.pause)).await;
                }
                // the child may have closed its end
                if i.write_all(&input[p..a]).await.is_err() {
                    break;
                }
                let _ = i.flush().await;
                p = a;
            }
            drop(i);
        };
        let (mut ov, mut ev) = (vec![], vec![]);
        let all = async {
            let (_, a, b) = futures::future::join3(feed, o.read_to_end(&mut ov), e.read_to_end(&mut ev)).await;
            let _ = (a, b);
            ch.wait().await
        };
        match tokio::time::timeout(WAIT, all).await {
            Ok(s) => Ok((s.map_err(|e| Fail::new("wait", e.to_string()))?, ov, ev)),
            Err(_) => Err(Fail::new("timeout-child", "the transport does not come to an end of its input")),
        }
    })?;
    let err = String::from_utf8_lossy(&err);
    let Some(rep) = err.split_once("REPORT").and_then(|(_, r)| serde_json::from_str::<Vec<Value>>(r.trim()).ok()) else {
        fail!("crash", "the transport's process ended with {status}: {}", err.chars().take(600).collect::<String>())
    };
    // what the transport received and how its calls went
    let mut log = rep.iter();
    let mut closed = false;
    let mut sent: Vec<&Value> = vec![];
    let mut k = 0;
    let mut step = |log: &mut std::slice::Iter<Value>, k: u64, closed: &mut bool| -> Result<(), Fail> {
        for (_, w, _) in sends.iter().filter(|s| s.0 == k) {
            ensure_eq!(log.next(), Some(&json!({"sent": !*closed})), "send-result", "send of {w} before receive {k}");
            if !*closed {
                sent.push(w);
            }
        }
        if close == Some(k) {
            ensure_eq!(log.next(), Some(&json!({"closed": true, "connected": false})), "close", "close before receive {k}");
            *closed = true;
        }
        Ok(())
    };
    for i in &c.items {
        step(&mut log, k, &mut closed)?;
        if closed {
            break;
        }
        let got = log.next();
        match i {
            Item::Frame(Body::Msg(w, _), ..) => match got.and_then(|g| g.get("ok")) {
                Some(v) => ensure!(same(v, w), "receive-wrong", "received {v}, expected {w}"),
                None => fail!("receive-lost", "message {k}, {w}: {got:?}"),
            },
            _ => ensure!(got.and_then(|g| g.get("err")).is_some(), "faulty-frame", "frame {k}, {i:?}: {got:?}"),
        }
        k += 1;
    }
    if !closed {
        step(&mut log, k, &mut closed)?;
    }
    if !closed {
        let errs = log.as_slice().iter().take_while(|g| g.get("err").is_some()).count();
        let may = usize::from(!matches!(c.tail, Tail::Clean));
        ensure!(errs <= may, "extra-errors", "errors after the last frame: {:?}", log.as_slice());
        for _ in 0..errs {
            log.next();
        }
    }
    ensure_eq!(log.next(), Some(&json!({"end": false})), "end", "end of the input (closed: {closed}), rest {:?}", log.as_slice());
    ensure_eq!(log.next(), Some(&json!({"again": true})), "end-again", "receive after the end");
    ensure!(log.next().is_none(), "harness", "more than planned: {rep:?}");
    // the output is frames with exactly the lengths declared
    let mut o = &out[..];
    for w in &sent {
        let Some(p) = o.windows(4).position(|x| x == b"\r\n\r\n") else { fail!("output-header", "no header block for {w} in {:?}", String::from_utf8_lossy(o)) };
        let head = String::from_utf8_lossy(&o[..p]).into_owned();
        let lens: Vec<&str> = head.split("\r\n").filter_map(|l| l.strip_prefix("Content-Length: ")).collect();
        ensure_eq!(lens.len(), 1, "output-header", "length headers in {head:?}");
        let Ok(n) = lens[0].parse::<usize>() else { fail!("output-header", "length in {head:?}") };
        o = &o[p + 4..];
        ensure!(o.len() >= n, "output-length", "frame of {w} declares {n} bytes, {} left", o.len());
        let v: Value = serde_json::from_slice(&o[..n]).map_err(|e| Fail::new("output-json", format!("{e}: {:?}", String::from_utf8_lossy(&o[..n]))))?;
        ensure!(same(&v, w), "output-wrong", "wrote {v}, sent was {w}");
        o = &o[n..];
    }
    ensure!(o.is_empty(), "output-extra", "output beyond the frames: {:?}", String::from_utf8_lossy(o));
    let good = c.items.iter().filter(|i| matches!(i, Item::Frame(Body::Msg(..), ..))).count();
    Ok(Info::nt(good > 1 && good < c.items.len() || c.cuts.len() > 1 && good > 1)
        .label(c.items.iter().any(|i| matches!(i, Item::NoLength(..))), "frame without a length")
        .label(good < c.items.len(), "faulty frames")
        .label(!sent.is_empty(), "messages sent")
        .label(close.is_some(), "closed")
        .label(!matches!(c.tail, Tail::Clean), "cut-off input"))
}
pub fn c21(c: &mut Ctx) {
    c.check(sub("framing", 3000, "several messages with faulty frames in between, or cut into several pieces").io(), case, run);
}
