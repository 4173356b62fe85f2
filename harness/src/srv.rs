//! Scripted servers: generated handler sets, a call log, and a model of what the server must answer.
use crate::core::*;
use crate::gen::*;
use crate::wire::{self, W};
use async_trait::async_trait;
use pmcp::error::{Error, ErrorCode};
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, Server, ToolHandler};
use pmcp::types::jsonrpc::{JSONRPCResponse, ResponsePayload};
use pmcp::types::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Ok(Value),
    /// kind, code, message
    Err(u8, i32, String),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct H {
    pub name: String,
    pub out: Out,
    pub delay: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    pub name: String,
    pub version: String,
    /// `None`: capabilities() never called; Some(true): called before sampling(), Some(false): after
    pub caps: Option<(Value, bool)>,
    pub tools: Vec<H>,
    pub prompts: Vec<H>,
    pub resources: Option<(H, H)>,
    pub sampling: Option<H>,
}

pub fn mk_err(kind: u8, code: i32, msg: &str) -> Error {
    match kind % 8 {
        0 => Error::Internal(msg.into()),
        1 => Error::Validation(msg.into()),
        2 => Error::NotFound(msg.into()),
        3 => Error::Authentication(msg.into()),
        4 => Error::InvalidState(msg.into()),
        5 => Error::UnsupportedCapability(msg.into()),
        6 => Error::Protocol { code: ErrorCode(code), message: msg.into(), data: Some(json!({"m": msg})) },
        _ => Error::Cancelled,
    }
}
pub fn out(ok: BoxedStrategy<Value>) -> BoxedStrategy<Out> {
    let err = (0u8..8, prop_oneof![-32100i32..-31990, any::<i32>()], text()).prop_map(|(k, c, m)| Out::Err(k, c, m));
    prop_oneof![4 => ok.prop_map(Out::Ok), 1 => err].boxed()
}
pub fn delay() -> BoxedStrategy<u64> {
    prop_oneof![3 => Just(0u64), 2 => 1u64..50, 1 => 50u64..5000].boxed()
}
pub fn h(ok: BoxedStrategy<Value>) -> BoxedStrategy<H> {
    (name(), out(ok), delay()).prop_map(|(name, out, delay)| H { name, out, delay }).boxed()
}
pub fn spec() -> BoxedStrategy<Spec> {
    let caps = prop::option::of((wire::server_caps(), any::<bool>()));
    (
        text(),
        text(),
        caps,
        vec(h(jval()), 0..5),
        vec(h(wire::result("prompts/get")), 0..4),
        prop::option::of((h(wire::result("resources/read")), h(wire::result("resources/list")))),
        prop::option::of(h(wire::result("sampling/createMessage"))),
    )
        .prop_map(|(name, version, caps, tools, prompts, resources, sampling)| Spec {
            name,
            version,
            caps,
            tools,
            prompts,
            resources,
            sampling,
        })
        .boxed()
}

/// one handler invocation: which handler (kind, index of registration), what it was given, the request id text
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct Call {
    pub kind: &'static str,
    pub idx: usize,
    pub arg: Value,
    pub rid: String,
}
pub type Log = A<Vec<Call>>;

struct Hd {
    kind: &'static str,
    idx: usize,
    h: H,
    log: Log,
}
impl Hd {
    async fn go(&self, kind: &'static str, arg: Value, extra: &RequestHandlerExtra) -> Result<Value, Error> {
        self.log.lock().unwrap().push(Call { kind, idx: self.idx, arg, rid: extra.request_id.clone() });
        if self.h.delay > 0 {
            tokio::time::sleep(Duration::from_millis(self.h.delay)).await;
        }
        match &self.h.out {
            Out::Ok(v) => Ok(v.clone()),
            Out::Err(k, c, m) => Err(mk_err(*k, *c, m)),
        }
    }
}
#[async_trait]
impl ToolHandler for Hd {
    async fn handle(&self, args: Value, extra: RequestHandlerExtra) -> Result<Value, Error> {
        self.go(self.kind, args, &extra).await
    }
}
#[async_trait]
impl PromptHandler for Hd {
    async fn handle(&self, args: HashMap<String, String>, extra: RequestHandlerExtra) -> Result<GetPromptResult, Error> {
        let v = self.go(self.kind, serde_json::to_value(args).unwrap(), &extra).await?;
        Ok(W::i(&v))
    }
}
struct Res {
    read: Hd,
    list: Hd,
}
#[async_trait]
impl ResourceHandler for Res {
    async fn read(&self, uri: &str, extra: RequestHandlerExtra) -> Result<ReadResourceResult, Error> {
        let v = self.read.go("read", json!(uri), &extra).await?;
        Ok(W::i(&v))
    }
    async fn list(&self, cursor: Option<String>, extra: RequestHandlerExtra) -> Result<ListResourcesResult, Error> {
        let v = self.list.go("list", json!(cursor), &extra).await?;
        Ok(W::i(&v))
    }
}
#[async_trait]
impl SamplingHandler for Hd {
    async fn create_message(&self, params: CreateMessageParams, extra: RequestHandlerExtra) -> Result<CreateMessageResult, Error> {
        let v = self.go(self.kind, params.o(), &extra).await?;
        Ok(W::i(&v))
    }
}

pub fn build(s: &Spec, log: &Log) -> Server {
    let mut b = Server::builder().name(s.name.clone()).version(s.version.clone());
    let caps = s.caps.as_ref().map(|(c, first)| (ServerCapabilities::i(c), *first));
    if let Some((c, true)) = &caps {
        b = b.capabilities(c.clone());
    }
    for (i, t) in s.tools.iter().enumerate() {
        b = b.tool(t.name.clone(), Hd { kind: "tool", idx: i, h: t.clone(), log: log.clone() });
    }
    for (i, t) in s.prompts.iter().enumerate() {
        b = b.prompt(t.name.clone(), Hd { kind: "prompt", idx: i, h: t.clone(), log: log.clone() });
    }
    if let Some((r, l)) = &s.resources {
        b = b.resources(Res {
            read: Hd { kind: "read", idx: 0, h: r.clone(), log: log.clone() },
            list: Hd { kind: "list", idx: 0, h: l.clone(), log: log.clone() },
        });
    }
    if let Some(x) = &s.sampling {
        b = b.sampling(Hd { kind: "sampling", idx: 0, h: x.clone(), log: log.clone() });
    }
    if let Some((c, false)) = caps {
        b = b.capabilities(c);
    }
    b.build().unwrap()
}

/// capabilities the server was configured with: the last `capabilities()` call, plus sampling when a
/// handler was registered after it
pub fn caps_model(s: &Spec) -> Value {
    let mut c = match &s.caps {
        Some((c, _)) => c.clone(),
        None => json!({}),
    };
    let after = !matches!(s.caps, Some((_, false)));
    if s.sampling.is_some() && after {
        c["sampling"] = json!({});
    }
    c
}

#[derive(Debug, Clone, PartialEq)]
pub enum Exp {
    /// exact result object
    Is(Value),
    /// text content whose JSON is this value
    Tool(Value),
    /// result whose named array lists exactly these names, once each
    Names(&'static str, Vec<String>),
    Init(Value),
    /// a completion result suggesting nothing: there are no completion handlers
    NoCompletion,
    /// error whose message contains this text
    Fail(String),
}
fn last<'a>(v: &'a [H], n: &str) -> Option<(usize, &'a H)> {
    v.iter().enumerate().rev().find(|(_, h)| h.name == n)
}
fn of(h: &H, ok: impl Fn(Value) -> Exp) -> Exp {
    match &h.out {
        Out::Ok(v) => ok(v.clone()),
        Out::Err(k, c, m) => Exp::Fail(if k % 8 == 7 { mk_err(*k, *c, m).to_string() } else { m.clone() }),
    }
}
/// What the request (canonical wire object) must be answered with, which handler runs with what, how long it takes.
pub fn model(s: &Spec, w: &Value) -> (Exp, Option<(&'static str, usize, Value)>, u64) {
    let p = w.get("params").cloned().unwrap_or(Value::Null);
    let none = |e| (e, None, 0);
    match w["method"].as_str().unwrap() {
        "initialize" => none(Exp::Init(caps_model(s))),
        "completion/complete" => none(Exp::NoCompletion),
        "ping" | "resources/subscribe" | "resources/unsubscribe" | "logging/setLevel" => {
            none(Exp::Is(json!({})))
        },
        "elicitation/response" => none(Exp::Is(json!({}))),
        "tools/list" => none(Exp::Names("tools", s.tools.iter().map(|t| t.name.clone()).collect())),
        "prompts/list" => none(Exp::Names("prompts", s.prompts.iter().map(|t| t.name.clone()).collect())),
        "tools/call" => match last(&s.tools, p["name"].as_str().unwrap()) {
            Some((i, h)) => (of(h, Exp::Tool), Some(("tool", i, p.get("arguments").cloned().unwrap_or(Value::Null))), h.delay),
            None => none(Exp::Fail(String::new())),
        },
        "prompts/get" => match last(&s.prompts, p["name"].as_str().unwrap()) {
            Some((i, h)) => (of(h, Exp::Is), Some(("prompt", i, p.get("arguments").cloned().unwrap_or(json!({})))), h.delay),
            None => none(Exp::Fail(String::new())),
        },
        "resources/list" => match &s.resources {
            Some((_, h)) => (of(h, Exp::Is), Some(("list", 0, p.get("cursor").cloned().unwrap_or(Value::Null))), h.delay),
            None => none(Exp::Is(json!({"resources": []}))),
        },
        "resources/read" => match &s.resources {
            Some((h, _)) => (of(h, Exp::Is), Some(("read", 0, p["uri"].clone())), h.delay),
            None => none(Exp::Fail(String::new())),
        },
        "resources/templates/list" => none(Exp::Is(json!({"resourceTemplates": []}))),
        "sampling/createMessage" => match &s.sampling {
            Some(h) => (of(h, Exp::Is), Some(("sampling", 0, p)), h.delay),
            None => none(Exp::Fail(String::new())),
        },
        // requests only a server may send
        _ => none(Exp::Fail(String::new())),
    }
}

pub fn rid_text(v: &Value) -> String {
    v.as_str().map_or_else(|| v.to_string(), String::from)
}

pub fn check_response(s: &Spec, w: &Value, r: &JSONRPCResponse) -> Result<bool, Fail> {
    let (exp, _, _) = model(s, w);
    if r.jsonrpc != "2.0" {
        return Err(Fail::new("version", format!("{w}: response version {:?}", r.jsonrpc)));
    }
    if serde_json::to_value(&r.id).unwrap() != w["id"] {
        return Err(Fail::new("id", format!("{w}: answered under id {:?}", r.id)));
    }
    let bad = |what: &str| Err(Fail::new("result", format!("{w}: {what}: got {:?}, expected {exp:?}", r.payload)));
    match (&exp, &r.payload) {
        (Exp::Is(e), ResponsePayload::Result(g)) => {
            if e != g {
                return bad("wrong result");
            }
        },
        (Exp::NoCompletion, ResponsePayload::Result(g)) => {
            if g["completion"]["values"] != json!([]) {
                return bad("wrong completion result");
            }
        },
        (Exp::Tool(e), ResponsePayload::Result(g)) => {
            let t = &g["content"];
            let ok = t.as_array().is_some_and(|a| a.len() == 1 && a[0]["type"] == "text")
                && t[0]["text"].as_str().and_then(|x| serde_json::from_str::<Value>(x).ok()).as_ref() == Some(e)
                && g.get("isError").is_none_or(|b| b == &json!(false));
            if !ok {
                return bad("wrong tool result");
            }
        },
        (Exp::Names(k, e), ResponsePayload::Result(g)) => {
            let mut e: Vec<&str> = e.iter().map(String::as_str).collect();
            e.sort_unstable();
            e.dedup();
            let mut n: Vec<&str> = g[*k].as_array().map(|a| a.iter().filter_map(|t| t["name"].as_str()).collect()).unwrap_or_default();
            n.sort_unstable();
            if n != e || g.get("nextCursor").is_some_and(|c| !c.is_null()) {
                return bad("wrong listing");
            }
        },
        (Exp::Init(c), ResponsePayload::Result(g)) => {
            let v = g["protocolVersion"].as_str().unwrap_or("");
            if g["capabilities"] != *c
                || g["serverInfo"] != json!({"name": s.name, "version": s.version})
                || !pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&v)
                || w["params"]["protocolVersion"].as_str().is_some_and(|a| pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&a) && a != v)
            {
                return bad("wrong initialize result");
            }
        },
        (Exp::Fail(m), ResponsePayload::Error(e)) => {
            if !e.message.contains(m.as_str()) {
                return bad("error lost the handler's message");
            }
            let own = match model(s, w).1 {
                Some(_) => handler_code(s, w),
                None => None,
            };
            if !(-32768..=-32000).contains(&e.code) && Some(e.code) != own {
                return bad("not a JSON-RPC error code");
            }
        },
        _ => return bad("wrong outcome"),
    }
    Ok(!matches!(exp, Exp::Fail(_)))
}
pub fn handler_code(s: &Spec, w: &Value) -> Option<i32> {
    let (_, Some((k, i, _)), _) = model(s, w) else { return None };
    let h = match k {
        "tool" => &s.tools[i],
        "prompt" => &s.prompts[i],
        "read" => &s.resources.as_ref().unwrap().0,
        "list" => &s.resources.as_ref().unwrap().1,
        _ => s.sampling.as_ref().unwrap(),
    };
    match h.out {
        Out::Err(6, c, _) => Some(c),
        _ => None,
    }
}
/// handler calls a request sequence must cause, in order
pub fn expected_calls(s: &Spec, ws: &[Value]) -> Vec<Call> {
    ws.iter()
        .filter_map(|w| model(s, w).1.map(|(kind, idx, arg)| Call { kind, idx, arg, rid: rid_text(&w["id"]) }))
        .collect()
}

/// requests biased towards the names the spec may contain
pub fn request() -> BoxedStrategy<Value> {
    let named = (prop::sample::select(vec!["tools/call", "prompts/get"]), name(), jval(), vec((name(), text()), 0..3), rid(), any::<bool>())
        .prop_map(|(m, n, args, pargs, id, has)| {
            let mut p = json!({"name": n});
            if m == "tools/call" {
                // an absent argument object is an empty one on the wire
                p["arguments"] = args;
            } else if has {
                p["arguments"] = Value::Object(pargs.into_iter().map(|(k, v)| (k, json!(v))).collect());
            } else {
                p["arguments"] = json!({});
            }
            json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p})
        });
    prop_oneof![3 => named, 2 => wire::request_wire()].boxed()
}
