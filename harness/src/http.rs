//! A scripted HTTP/1.1 server on loopback and a small raw HTTP/1.1 client.
use crate::core::{am, A};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Debug, Clone)]
pub struct Req {
    pub method: String,
    pub path: String,
    /// names in lower case, in order
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub at: Instant,
}
impl Req {
    pub fn h(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn all(&self, n: &str) -> Vec<&str> {
        self.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| v.as_str()).collect()
    }
}
/// What to do with a connection that has sent its request.
#[derive(Debug, Clone)]
pub enum Act {
    /// write these pieces, pausing (ms) before each
    Write(Vec<(u64, Vec<u8>)>),
    /// write these pieces and keep the connection open until the server is dropped
    Hold(Vec<(u64, Vec<u8>)>),
    /// close without answering
    Drop,
}
pub fn reply(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Act {
    Act::Write(vec![(0, raw(status, headers, body))])
}
pub fn raw(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {status} X\r\nConnection: close\r\nContent-Length: {}\r\n", body.len());
    for (k, v) in headers {
        o += &format!("{k}: {v}\r\n");
    }
    o += "\r\n";
    let mut o = o.into_bytes();
    o.extend_from_slice(body);
    o
}
/// A loopback address of its own for every server: connections of earlier cases that linger in
/// TIME_WAIT never use up the ports.
pub fn fresh_ip() -> std::net::IpAddr {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    static ALL: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if !ALL.get_or_init(|| std::net::TcpListener::bind("127.77.1.1:0").is_ok()) {
        return "127.0.0.1".parse().unwrap();
    }
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed).wrapping_add(std::process::id().wrapping_mul(7919));
    std::net::Ipv4Addr::new(127, 1 + (n >> 16) as u8 % 250, (n >> 8) as u8, 1 + n as u8 % 250).into()
}
pub struct Scripted {
    pub addr: std::net::SocketAddr,
    pub reqs: A<Vec<Req>>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Scripted {
    fn drop(&mut self) {
        self.task.abort();
    }
}
impl Scripted {
    /// `f(n, request)`: the n-th request (from 0, in order of arrival) is answered with the act returned.
    pub async fn start(f: impl Fn(usize, &Req) -> Act + Send + Sync + 'static) -> Scripted {
        let l = TcpListener::bind((fresh_ip(), 0)).await.unwrap();
        let addr = l.local_addr().unwrap();
        let reqs = am(Vec::new());
        let r2 = reqs.clone();
        let f = std::sync::Arc::new(f);
        let task = tokio::spawn(async move {
            let mut conns = tokio::task::JoinSet::new();
            while let Ok((s, _)) = l.accept().await {
                let (f, r) = (f.clone(), r2.clone());
                conns.spawn(async move {
                    let _ = one(s, r, f).await;
                });
            }
        });
        Scripted { addr, reqs, task }
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://{}{path}", self.addr)
    }
    pub fn seen(&self) -> Vec<Req> {
        self.reqs.lock().unwrap().clone()
    }
}
async fn one(mut s: TcpStream, reqs: A<Vec<Req>>, f: std::sync::Arc<impl Fn(usize, &Req) -> Act>) -> std::io::Result<()> {
    let _ = s.set_nodelay(true);
    let mut buf = vec![];
    let Some(req) = read_req(&mut s, &mut buf).await? else { return Ok(()) };
    let act = {
        let mut g = reqs.lock().unwrap();
        let n = g.len();
        let a = f(n, &req);
        g.push(req);
        a
    };
    let (w, hold) = match act {
        Act::Drop => return Ok(()),
        Act::Write(w) => (w, false),
        Act::Hold(w) => (w, true),
    };
    for (ms, b) in w {
        if ms > 0 {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        s.write_all(&b).await?;
        s.flush().await?;
    }
    if hold {
        // until the peer goes away
        let mut b = [0u8; 256];
        while s.read(&mut b).await? > 0 {}
    } else {
        s.shutdown().await?;
        let mut b = [0u8; 256];
        while s.read(&mut b).await? > 0 {}
    }
    Ok(())
}
async fn more(s: &mut TcpStream, buf: &mut Vec<u8>) -> std::io::Result<bool> {
    let mut b = [0u8; 4096];
    let n = s.read(&mut b).await?;
    buf.extend_from_slice(&b[..n]);
    Ok(n > 0)
}
fn find(b: &[u8], p: &[u8]) -> Option<usize> {
    b.windows(p.len()).position(|w| w == p)
}
pub fn heads(t: &str) -> Vec<(String, String)> {
    t.split("\r\n").filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect()
}
fn latin(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap_or_else(|_| b.iter().map(|c| *c as char).collect())
}
async fn read_req(s: &mut TcpStream, buf: &mut Vec<u8>) -> std::io::Result<Option<Req>> {
    let i = loop {
        if let Some(i) = find(buf, b"\r\n\r\n") {
            break i;
        }
        if !more(s, buf).await? {
            return Ok(None);
        }
    };
    let head = latin(&buf[..i]);
    let (first, rest) = head.split_once("\r\n").unwrap_or((&head, ""));
    let mut p = first.split(' ');
    let (method, path) = (p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string());
    let headers = heads(rest);
    let mut body = buf.split_off(i + 4);
    let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
    if get("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
        loop {
            if let Some(b) = unchunk(&body) {
                body = b;
                break;
            }
            if !more(s, &mut body).await? {
                return Ok(None);
            }
        }
    } else {
        let n: usize = get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
        while body.len() < n {
            if !more(s, &mut body).await? {
                return Ok(None);
            }
        }
    }
    Ok(Some(Req { method, path, headers, body, at: Instant::now() }))
}
fn unchunk(mut b: &[u8]) -> Option<Vec<u8>> {
    let (o, done) = chunks(&mut b);
    done.then_some(o)
}
/// decoded part of a chunked body and whether it is complete
fn chunks(b: &mut &[u8]) -> (Vec<u8>, bool) {
    let mut out = vec![];
    loop {
        let Some(i) = find(b, b"\r\n") else { return (out, false) };
        let n = usize::from_str_radix(String::from_utf8_lossy(&b[..i]).split(';').next().unwrap_or("").trim(), 16).unwrap_or(0);
        if n == 0 {
            return (out, find(&b[i..], b"\r\n\r\n").is_some() || b.len() >= i + 4);
        }
        if b.len() < i + 2 + n + 2 {
            out.extend_from_slice(&b[(i + 2).min(b.len())..b.len().min(i + 2 + n)]);
            return (out, false);
        }
        out.extend_from_slice(&b[i + 2..i + 2 + n]);
        *b = &b[i + 2 + n + 2..];
    }
}

// ------------------------------------------------------------------ raw client
#[derive(Debug, Clone)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn h(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
}
/// A response being read: the head is complete, the body may still be arriving.
pub struct Open {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    s: TcpStream,
    rest: Vec<u8>,
    ended: bool,
}
impl Open {
    pub fn h(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    fn complete(&self) -> bool {
        if self.ended {
            return true;
        }
        if self.h("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
            return chunks(&mut &self.rest[..]).1;
        }
        if let Some(n) = self.h("content-length").and_then(|v| v.parse::<usize>().ok()) {
            return self.rest.len() >= n;
        }
        matches!(self.status, 204 | 304) || (100..200).contains(&self.status)
    }
    /// the body decoded so far
    pub fn body(&self) -> Vec<u8> {
        if self.h("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
            chunks(&mut &self.rest[..]).0
        } else {
            self.rest.clone()
        }
    }
    pub fn over(&self) -> bool {
        self.complete()
    }
    /// read what is there or arrives within `d`; false when the body is complete
    pub async fn pump(&mut self, d: Duration) -> bool {
        if self.complete() {
            return false;
        }
        match tokio::time::timeout(d, more(&mut self.s, &mut self.rest)).await {
            Ok(Ok(true)) => true,
            Ok(_) => {
                self.ended = true;
                false
            },
            Err(_) => true,
        }
    }
}
/// Send one request on a fresh connection; returns once the response head has arrived.
pub async fn open(addr: std::net::SocketAddr, method: &str, path: &str, headers: &[(&str, &[u8])], body: &[u8], d: Duration) -> Result<Open, String> {
    let go = async {
        let mut s = TcpStream::connect(addr).await.map_err(|e| format!("connect: {e}"))?;
        let _ = s.set_nodelay(true);
        // closing leaves nothing behind
        let _ = s.set_zero_linger();
        let mut o = format!("{method} {path} HTTP/1.1\r\nHost: {addr}\r\nConnection: close\r\n").into_bytes();
        for (k, v) in headers {
            o.extend_from_slice(k.as_bytes());
            o.extend_from_slice(b": ");
            o.extend_from_slice(v);
            o.extend_from_slice(b"\r\n");
        }
        if method == "POST" || !body.is_empty() {
            o.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes());
        }
        o.extend_from_slice(b"\r\n");
        o.extend_from_slice(body);
        s.write_all(&o).await.map_err(|e| format!("write: {e}"))?;
        let mut buf = vec![];
        let i = loop {
            if let Some(i) = find(&buf, b"\r\n\r\n") {
                break i;
            }
            if !more(&mut s, &mut buf).await.map_err(|e| format!("read: {e}"))? {
                return Err(format!("connection closed before a response head ({} bytes)", buf.len()));
            }
        };
        let head = latin(&buf[..i]);
        let (first, rest) = head.split_once("\r\n").unwrap_or((&head, ""));
        let status = first.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("status line {first:?}"))?;
        let headers = heads(rest);
        let rest = buf.split_off(i + 4);
        Ok(Open { status, headers, s, rest, ended: false })
    };
    match tokio::time::timeout(d, go).await {
        Ok(r) => r,
        Err(_) => Err("timeout: no response head".into()),
    }
}
/// A whole exchange. The body is read to its end.
pub async fn exchange(addr: std::net::SocketAddr, method: &str, path: &str, headers: &[(&str, &[u8])], body: &[u8], d: Duration) -> Result<Resp, String> {
    let mut o = open(addr, method, path, headers, body, d).await?;
    let end = Instant::now() + d;
    while o.pump(Duration::from_millis(200)).await {
        if Instant::now() > end {
            return Err("timeout: response body does not end".into());
        }
    }
    Ok(Resp { status: o.status, body: o.body(), headers: o.headers })
}
