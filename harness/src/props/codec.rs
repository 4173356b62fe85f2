//! C01, C02: wire codec.
use crate::core::*;
use crate::gen::*;
use crate::wire::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::shared::{StdioTransport, TransportMessage};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Msg {
    wire: Value,
    form: u8,
}
fn msgs() -> BoxedStrategy<Msg> {
    (any_wire(), 0u8..3).prop_map(|(wire, form)| Msg { wire, form }).boxed()
}
fn has_float(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.is_f64(),
        Value::Array(a) => a.iter().any(has_float),
        Value::Object(o) => o.values().any(has_float),
        _ => false,
    }
}
fn shape(m: &TransportMessage) -> &'static str {
    match m {
        TransportMessage::Request { .. } => "request",
        TransportMessage::Response(_) => "response",
        TransportMessage::Notification(_) => "notification",
    }
}

pub fn c01(c: &mut Ctx) {
    c.check(sub("codec", 60_000, "message carries params, result or error members"), msgs, |m: &Msg| {
        let typed = msg_i(&m.wire, m.form);
        let bytes = StdioTransport::serialize_message(&typed).map_err(|e| Fail::new("serialize", format!("{}: {e}", m.wire)))?;
        let got: Value = serde_json::from_slice(&bytes).map_err(|e| Fail::new("serialize", format!("not JSON: {e}")))?;
        ensure!(got == m.wire, "wire-form", "serialised as {got}, wire format is {}", m.wire);
        let back = StdioTransport::parse_message(&bytes).map_err(|e| Fail::new("parse-own", format!("own output {got} rejected: {e}")))?;
        ensure_eq!(shape(&back), shape(&typed), "kind", "message kind of {got}");
        let bo = msg_o(&back);
        ensure!(bo == m.wire, "roundtrip", "{} came back as {bo}", m.wire);
        let nt = ["params", "result", "error"].iter().any(|k| m.wire.get(k).is_some_and(|p| !p.is_null()));
        Ok(Info::nt(nt)
            .label(shape(&typed) == "request", "request")
            .label(shape(&typed) == "response", "response")
            .label(shape(&typed) == "notification", "notification")
            .label(m.wire.get("id").is_some_and(|i| i.is_string()), "string id")
            .label(has_float(&m.wire), "float"))
    });
    c.check(
        sub("results", 40_000, "result object with at least one member"),
        || prop::sample::select(RESULTS).prop_flat_map(|m| result(m).prop_map(move |r| (m.to_string(), r))).boxed(),
        |(m, r): &(String, Value)| {
            let (ser, back) = result_roundtrip(m, r).map_err(|e| Fail::new("result-parse", format!("{m} result {r}: {e}")))?;
            ensure!(ser == *r, "result-form", "{m} result serialised as {ser}, wire format is {r}");
            ensure!(back == *r, "result-roundtrip", "{m} result {r} came back as {back}");
            Ok(Info::nt(!r.as_object().unwrap().is_empty()))
        },
    );
    c.check(sub("absent", 20_000, "an optional member was dropped from the wire object"), || (any_wire(), any::<u8>(), any::<bool>()).boxed(), |(w, which, null): &(Value, u8, bool)| {
        // members with a documented default or optional ones may be absent (or null) on the wire
        let opt: &[&str] = &["cursor", "reason", "message", "logger", "data", "systemPrompt", "temperature", "maxTokens", "stopSequences", "metadata",
            "modelPreferences", "description", "default", "validation", "value", "error"];
        let mut w = w.clone();
        let mut exp = w.clone();
        let mut hit = false;
        if let Some(p) = w.get_mut("params").and_then(Value::as_object_mut) {
            let ks: Vec<String> = p.keys().filter(|k| opt.contains(&k.as_str())).cloned().collect();
            if !ks.is_empty() && w["method"] != "notifications/message" {
                let k = &ks[*which as usize % ks.len()];
                let p = w["params"].as_object_mut().unwrap();
                p.remove(k);
                if *null {
                    p.insert(k.clone(), Value::Null);
                }
                exp["params"].as_object_mut().unwrap().remove(k);
                hit = true;
            }
        }
        let back = StdioTransport::parse_message(w.to_string().as_bytes()).map_err(|e| Fail::new("parse", format!("{w}: {e}")))?;
        let bo = msg_o(&back);
        ensure!(bo == exp, "absent", "{w} parsed as {bo}, expected {exp}");
        Ok(Info::nt(hit).label(hit && *null, "null"))
    });
    c.check(sub("http_form", 20_000, "message carries params, result or error members"), msgs, |m: &Msg| {
        // the HTTP transports put a TransportMessage on the wire through serde
        let typed = msg_i(&m.wire, m.form);
        let s = serde_json::to_string(&typed).map_err(|e| Fail::new("http-serialize", format!("{}: {e}", m.wire)))?;
        let back: TransportMessage = serde_json::from_str(&s).map_err(|e| Fail::new("http-parse", format!("{s}: {e}")))?;
        let bo = msg_o(&back);
        ensure!(bo == m.wire, "http-roundtrip", "{} came back as {bo} through {s}", m.wire);
        let nt = ["params", "result", "error"].iter().any(|k| m.wire.get(k).is_some_and(|p| !p.is_null()));
        Ok(Info::nt(nt))
    });
    c.check(sub("http_jsonrpc", 2_000, "a request, response or notification with members"), msgs, |m: &Msg| {
        let typed = msg_i(&m.wire, m.form);
        let v = serde_json::to_value(&typed).map_err(|e| Fail::new("http-serialize", format!("{}: {e}", m.wire)))?;
        if v != m.wire {
            // the recorded deviations, exactly; any other form is a different failure
            let p = m.wire.get("params").cloned();
            let mut inner = json!({"method": m.wire["method"]});
            if let Some(p) = p.clone() {
                inner["params"] = p;
            }
            let sig = if v == json!({"id": m.wire["id"], "request": inner}) {
                "http-request-not-jsonrpc"
            } else if shape(&typed) == "notification" && (v == inner || p.is_some_and(|p| p == v)) {
                "http-notification-not-jsonrpc"
            } else {
                "http-form"
            };
            fail!(sig, "over HTTP the message {} goes out as {v}, which is not the JSON-RPC form", m.wire);
        }
        Ok(Info::nt(true))
    });
}

// ---------------- C02 ----------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
    bytes: Vec<u8>,
}
fn mutate(v: Value, ops: Vec<(u8, u8, Value, String)>) -> Value {
    let Value::Object(mut o) = v else { return v };
    for (op, which, val, s) in ops {
        let names = ["jsonrpc", "id", "method", "params", "result", "error"];
        let n = names[which as usize % names.len()];
        match op {
            0 => {
                o.remove(n);
            },
            1 => {
                o.insert(n.into(), val);
            },
            2 => {
                o.insert(format!("x{s}"), val);
            },
            3 => {
                o.insert("method".into(), Value::String(s));
            },
            4 => {
                o.insert("id".into(), Value::Null);
            },
            5 => {
                if let Some(p) = o.get_mut("params").and_then(Value::as_object_mut) {
                    if let Some(k) = p.keys().nth(which as usize % p.len().max(1)).cloned() {
                        p.insert(k, val);
                    }
                }
            },
            6 => {
                if let Some(p) = o.get_mut("params").and_then(Value::as_object_mut) {
                    if let Some(k) = p.keys().nth(which as usize % p.len().max(1)).cloned() {
                        p.remove(&k);
                    }
                }
            },
            7 => {
                if let Some(p) = o.get_mut("params").and_then(Value::as_object_mut) {
                    p.insert(format!("x{s}"), val);
                }
            },
            _ => {
                // swap in another known method, keeping the params
                let all: Vec<&str> = REQUESTS.iter().chain(NOTIFICATIONS).copied().collect();
                o.insert("method".into(), json!(all[which as usize % all.len()]));
            },
        }
    }
    Value::Object(o)
}
fn raws() -> BoxedStrategy<Raw> {
    let structured = (any_wire(), vec((0u8..9, any::<u8>(), jval(), text()), 0..3)).prop_map(|(w, ops)| mutate(w, ops).to_string().into_bytes()).boxed();
    let cut = (structured.clone(), any::<u16>(), any::<u8>(), 0u8..4)
        .prop_map(|(mut b, at, x, op)| {
            if !b.is_empty() {
                let i = at as usize % b.len();
                match op {
                    0 => b.truncate(i),
                    1 => b[i] = x,
                    2 => b.insert(i, x),
                    _ => {
                        b.remove(i);
                    },
                }
            }
            b
        })
        .boxed();
    let other = prop_oneof![jval().prop_map(|v| v.to_string().into_bytes()), vec(any::<u8>(), 0..60), vec(any_wire(), 0..3).prop_map(|v| Value::from(v).to_string().into_bytes())].boxed();
    let dup = (any_wire(), prop::sample::select(vec!["id", "method", "params", "jsonrpc", "result"]), jval()).prop_map(|(w, k, v)| {
        let s = w.to_string();
        format!("{},{}:{}}}", &s[..s.len() - 1], json!(k), v).into_bytes()
    }).boxed();
    prop_oneof![8 => structured, 3 => cut, 1 => other, 1 => dup].prop_map(|bytes| Raw { bytes }).boxed()
}

// Independent validator of params against the field tables of the protocol.
type Ck = fn(&Value) -> bool;
fn s(v: &Value) -> bool {
    v.is_string()
}
fn b(v: &Value) -> bool {
    v.is_boolean()
}
fn num(v: &Value) -> bool {
    v.is_number()
}
fn any_(_: &Value) -> bool {
    true
}
fn idt(v: &Value) -> bool {
    v.is_string() || v.as_i64().is_some()
}
fn fields(v: &Value, req: &[(&str, Ck)], opt: &[(&str, Ck)]) -> bool {
    let Some(o) = v.as_object() else { return false };
    req.iter().all(|(k, f)| o.get(*k).is_some_and(f)) && opt.iter().all(|(k, f)| o.get(*k).is_none_or(|x| x.is_null() || f(x)))
}
/// member with a default: absent is fine, null is not
fn deflt(v: &Value, d: &[(&str, Ck)]) -> bool {
    let Some(o) = v.as_object() else { return false };
    d.iter().all(|(k, f)| o.get(*k).is_none_or(f))
}
fn list(v: &Value, f: Ck) -> bool {
    v.as_array().is_some_and(|a| a.iter().all(f))
}
fn u32v(v: &Value) -> bool {
    v.as_u64().is_some_and(|n| n <= u64::from(u32::MAX))
}
fn content_ok(v: &Value) -> bool {
    match v.get("type").and_then(Value::as_str) {
        Some("text") => fields(v, &[("text", s)], &[]),
        Some("image") => fields(v, &[("data", s), ("mimeType", s)], &[]),
        Some("resource") => fields(v, &[("uri", s)], &[("text", s), ("mimeType", s)]),
        _ => false,
    }
}
fn role_ok(v: &Value) -> bool {
    ["user", "assistant", "system"].iter().any(|r| v == r)
}
fn caps_ok(v: &Value) -> bool {
    let lc: Ck = |v| fields(v, &[], &[("listChanged", b)]);
    let strs: Ck = |v| list(v, s);
    let _ = strs;
    fields(v, &[], &[
        ("tools", lc),
        ("prompts", lc),
        ("resources", |v| fields(v, &[], &[("subscribe", b), ("listChanged", b)])),
        ("logging", |v| fields(v, &[], &[("levels", |v| list(v, s))])),
        ("sampling", |v| fields(v, &[], &[("models", |v| list(v, s))])),
        ("roots", |v| v.is_object() && deflt(v, &[("listChanged", b)])),
        ("experimental", |v| v.is_object()),
    ])
}
fn impl_ok(v: &Value) -> bool {
    fields(v, &[("name", s), ("version", s)], &[])
}
fn cm_ok(v: &Value) -> bool {
    fields(v, &[("messages", |v| list(v, |m| fields(m, &[("role", role_ok), ("content", content_ok)], &[])))], &[
        ("modelPreferences", |v| {
            fields(v, &[], &[
                ("hints", |v| list(v, |h| fields(h, &[], &[("name", s)]))),
                ("costPriority", num),
                ("speedPriority", num),
                ("intelligencePriority", num),
            ])
        }),
        ("systemPrompt", s),
        ("temperature", num),
        ("maxTokens", u32v),
        ("stopSequences", |v| list(v, s)),
        ("metadata", any_),
    ]) && deflt(v, &[("includeContext", |v| ["all", "none", "thisServerOnly"].iter().any(|r| v == r))])
}
/// Some(ok) when the model decides; None when the case is left open (sequence-form structs etc.)
fn params_ok(m: &str, p: &Value) -> bool {
    let level: Ck = |v| ["debug", "info", "warning", "error"].iter().any(|r| v == r);
    match m {
        "initialize" => fields(p, &[("protocolVersion", s), ("capabilities", caps_ok), ("clientInfo", impl_ok)], &[]),
        "tools/list" | "prompts/list" | "resources/list" | "resources/templates/list" => fields(p, &[], &[("cursor", s)]),
        "tools/call" => fields(p, &[("name", s)], &[]),
        "prompts/get" => fields(p, &[("name", s)], &[]) && deflt(p, &[("arguments", |a| a.as_object().is_some_and(|o| o.values().all(s)))]),
        "resources/read" | "resources/subscribe" | "resources/unsubscribe" | "notifications/resources/updated" => fields(p, &[("uri", s)], &[]),
        "completion/complete" => fields(p, &[
            ("ref", |r| match r.get("type").and_then(Value::as_str) {
                Some("ref/resource") => fields(r, &[("uri", s)], &[]),
                Some("ref/prompt") => fields(r, &[("name", s)], &[]),
                _ => false,
            }),
            ("argument", |a| fields(a, &[("name", s), ("value", s)], &[])),
        ], &[]),
        "logging/setLevel" => fields(p, &[("level", |v| ["debug", "info", "warning", "error", "critical"].iter().any(|r| v == r))], &[]),
        "sampling/createMessage" => cm_ok(p),
        "elicitation/response" => fields(p, &[("elicitationId", s)], &[("value", any_), ("error", s)]) && deflt(p, &[("cancelled", b)]),
        "elicitation/elicitInput" => fields(p, &[
            ("elicitationId", s),
            ("inputType", |v| ["text", "textarea", "boolean", "number", "select", "multiSelect", "filePath", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"].iter().any(|r| v == r)),
            ("prompt", s),
        ], &[("description", s), ("default", any_), ("validation", |v| {
            deflt(v, &[("required", b)]) && fields(v, &[], &[("min", num), ("max", num), ("pattern", s), ("message", s),
                ("options", |v| list(v, |o| deflt(o, &[("disabled", b)]) && fields(o, &[("value", any_), ("label", s)], &[("description", s)])))])
        })]),
        "notifications/progress" => fields(p, &[("progressToken", idt), ("progress", num)], &[("message", s)]),
        "notifications/cancelled" => fields(p, &[("requestId", idt)], &[("reason", s)]),
        "notifications/message" => fields(p, &[("level", level), ("message", s)], &[("logger", s), ("data", any_)]),
        _ => true,
    }
}
const NO_PARAMS: &[&str] = &["ping", "roots/list", "notifications/initialized", "notifications/roots/list_changed", "notifications/tools/list_changed",
    "notifications/prompts/list_changed", "notifications/resources/list_changed"];
/// members every object of the protocol may carry; a struct written as a JSON array, or a unit written as {}, is left open
fn open(v: &Value, obj_expected: bool) -> bool {
    obj_expected && v.is_array()
}

enum Verdict {
    Reject,
    Open,
    Accept(&'static str),
}
fn has_array_struct(p: &Value) -> bool {
    // serde reads a struct from an array of its fields; whether that counts as well-formed is left open
    p.is_array() || p.as_object().is_some_and(|o| o.iter().any(|(k, v)| !matches!(k.as_str(), "arguments" | "metadata" | "default" | "value" | "data" | "inputSchema") && nested_array_for_object(k, v)))
}
fn nested_array_for_object(k: &str, v: &Value) -> bool {
    match v {
        Value::Array(a) => !matches!(k, "messages" | "hints" | "stopSequences" | "levels" | "models" | "options") || a.iter().any(Value::is_array) || a.iter().any(|x| x.as_object().is_some_and(|o| o.iter().any(|(k, v)| nested_array_for_object(k, v)))),
        Value::Object(o) => o.iter().any(|(k, v)| nested_array_for_object(k, v)),
        _ => false,
    }
}
fn classify(v: &Value) -> Verdict {
    let Some(o) = v.as_object() else { return Verdict::Reject };
    let ver = o.get("jsonrpc").and_then(Value::as_str);
    if ver.is_none() {
        return Verdict::Reject;
    }
    // a wrong version string: JSON-RPC asks for "2.0" exactly; the parser leaves that to `validate`
    if ver != Some("2.0") {
        return Verdict::Open;
    }
    if let Some(m) = o.get("method") {
        if o.contains_key("result") || o.contains_key("error") {
            return Verdict::Open;
        }
        let Some(m) = m.as_str() else { return Verdict::Reject };
        let has_id = o.contains_key("id");
        if has_id && !o.get("id").is_some_and(idt) {
            return Verdict::Reject;
        }
        let known = if has_id { REQUESTS.contains(&m) } else { NOTIFICATIONS.contains(&m) };
        if !known {
            return Verdict::Reject;
        }
        let kind = if has_id { "request" } else { "notification" };
        let p = o.get("params").cloned().unwrap_or(Value::Null);
        if NO_PARAMS.contains(&m) {
            return if p.is_null() { Verdict::Accept(kind) } else { Verdict::Open };
        }
        if open(&p, true) || has_array_struct(&p) {
            return Verdict::Open;
        }
        if p.is_null() && matches!(m, "tools/list" | "prompts/list" | "resources/list" | "resources/templates/list") {
            return Verdict::Open;
        }
        return if params_ok(m, &p) { Verdict::Accept(kind) } else { Verdict::Reject };
    }
    let (r, e) = (o.get("result"), o.get("error"));
    if r.is_none() && e.is_none() {
        return Verdict::Reject;
    }
    if !o.get("id").is_some_and(idt) {
        return Verdict::Reject;
    }
    if r.is_some() && e.is_some() {
        return Verdict::Open;
    }
    if let Some(e) = e {
        if e.is_array() {
            return Verdict::Open;
        }
        let ok = fields(e, &[("code", |c| c.as_i64().is_some_and(|n| i32::try_from(n).is_ok())), ("message", s)], &[("data", any_)]);
        return if ok { Verdict::Accept("response") } else { Verdict::Reject };
    }
    Verdict::Accept("response")
}
/// keep only what the typed message can hold, so that input and output can be compared
fn project(inp: &Value, out: &Value) -> Value {
    match (inp, out) {
        (Value::Object(a), Value::Object(b)) => {
            let mut m = Map::new();
            for (k, bv) in b {
                if let Some(av) = a.get(k) {
                    m.insert(k.clone(), project(av, bv));
                }
            }
            Value::Object(m)
        },
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => Value::Array(a.iter().zip(b).map(|(x, y)| project(x, y)).collect()),
        (Value::Number(a), Value::Number(b)) if b.is_f64() && a.as_f64() == b.as_f64() => out.clone(),
        (a, _) => a.clone(),
    }
}
/// members present in the parsed message but not in the input: only documented defaults allowed
fn defaults_ok(inp: &Value, out: &Value) -> Result<(), String> {
    match (inp, out) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, bv) in b {
                match a.get(k) {
                    Some(av) => defaults_ok(av, bv)?,
                    None => {
                        let ok = match k.as_str() {
                            "arguments" => bv.is_null() || *bv == json!({}),
                            "includeContext" => bv == "none",
                            "cancelled" | "required" | "disabled" | "listChanged" => *bv == false,
                            _ => false,
                        };
                        if !ok {
                            return Err(format!("member {k} = {bv} is not in the input"));
                        }
                    },
                }
            }
            Ok(())
        },
        (Value::Array(a), Value::Array(b)) => {
            for (x, y) in a.iter().zip(b) {
                defaults_ok(x, y)?;
            }
            Ok(())
        },
        _ => Ok(()),
    }
}
/// parameter members each method defines: none of them may be dropped
fn param_names(m: &str) -> &'static [&'static str] {
    match m {
        "initialize" => &["protocolVersion", "capabilities", "clientInfo"],
        "tools/list" | "prompts/list" | "resources/list" | "resources/templates/list" => &["cursor"],
        "tools/call" | "prompts/get" => &["name", "arguments"],
        "resources/read" | "resources/subscribe" | "resources/unsubscribe" | "notifications/resources/updated" => &["uri"],
        "completion/complete" => &["ref", "argument"],
        "logging/setLevel" => &["level"],
        "sampling/createMessage" => &["messages", "modelPreferences", "systemPrompt", "includeContext", "temperature", "maxTokens", "stopSequences", "metadata"],
        "elicitation/response" => &["elicitationId", "value", "cancelled", "error"],
        "elicitation/elicitInput" => &["elicitationId", "inputType", "prompt", "description", "default", "validation"],
        "notifications/progress" => &["progressToken", "progress", "message"],
        "notifications/cancelled" => &["requestId", "reason"],
        "notifications/message" => &["level", "logger", "message", "data"],
        _ => &[],
    }
}
fn kept(inp: &Value, out: &Value) -> Result<(), String> {
    let has = |v: &Value, o: &Value, names: &[&str], at: &str| -> Result<(), String> {
        for n in names {
            if v.get(n).is_some_and(|x| !x.is_null()) && o.get(n).is_none() {
                return Err(format!("member {at}{n} was dropped"));
            }
        }
        Ok(())
    };
    has(inp, out, &["id", "method", "error"], "")?;
    if let Some(m) = inp["method"].as_str() {
        has(&inp["params"], &out["params"], param_names(m), "params.")?;
    }
    has(&inp["error"], &out["error"], &["code", "message", "data"], "error.")
}

pub fn c02(c: &mut Ctx) {
    c.check(
        sub("parse", 120_000, "valid JSON object that the reference classifier decides, not an unmodified message form the parser always accepts without params"),
        raws,
        |r: &Raw| {
            let got = StdioTransport::parse_message(&r.bytes);
            let txt = String::from_utf8_lossy(&r.bytes).into_owned();
            let v: Value = match serde_json::from_slice(&r.bytes) {
                Ok(v) => v,
                Err(_) => {
                    ensure!(got.is_err(), "accepts-nonjson", "accepted non-JSON {txt:?}");
                    return Ok(Info::nt(false).label(true, "not JSON"));
                },
            };
            match (classify(&v), &got) {
                (Verdict::Open, Ok(m)) => {
                    // whatever is returned must still be this message
                    if let Some(id) = v.get("id").filter(|_| v.get("method").is_some()) {
                        ensure!(msg_o(m).get("id") == Some(id), "open-id", "{txt}: id changed");
                    }
                    // one that names a method asks for something: it is no answer
                    ensure!(!v.get("method").is_some_and(Value::is_string) || shape(m) != "response", "method-as-response", "{txt} taken for a response: {m:?}");
                    Ok(Info::nt(false).label(true, "left open"))
                },
                (Verdict::Open, Err(_)) => Ok(Info::nt(false).label(true, "left open")),
                (Verdict::Reject, Ok(m)) => fail!("accepts-malformed", "accepted {txt} as {m:?}"),
                (Verdict::Reject, Err(_)) => Ok(Info::nt(true).label(true, "rejected")),
                (Verdict::Accept(_), Err(e)) => fail!("rejects-wellformed", "rejected {txt}: {e}"),
                (Verdict::Accept(kind), Ok(m)) => {
                    ensure_eq!(shape(m), kind, "kind", "kind of {txt}");
                    let out = msg_o(m);
                    let proj = project(&v, &out);
                    // compare every member the parsed message has with the input
                    let mut cmp = out.clone();
                    strip_defaults(&v, &mut cmp);
                    ensure!(proj == cmp, "content", "{txt} parsed as {out}");
                    defaults_ok(&v, &out).map_err(|e| Fail::new("content", format!("{txt} parsed as {out}: {e}")))?;
                    let arb = v.get("method").is_none() && v.get("result").is_some();
                    if !arb {
                        kept(&v, &out).map_err(|e| Fail::new("content", format!("{txt} parsed as {out}: {e}")))?;
                    } else {
                        ensure!(v["result"] == out["result"], "content", "result of {txt} became {}", out["result"]);
                    }
                    Ok(Info::nt(true).label(true, "accepted"))
                },
            }
        },
    );
    c.check(sub("fuzz", 60_000, "non-empty bytes"), || prop_oneof![vec(any::<u8>(), 0..40), vec(prop::sample::select(&b"{}[]\",:0123456789.eE-+ \\u\n\"idmethodresultnulltruefalsejsonrpc"[..]), 0..80)].boxed(), |b: &Vec<u8>| {
        if let Ok(m) = StdioTransport::parse_message(b) {
            let v: Value = serde_json::from_slice(b).map_err(|e| Fail::new("accepts-nonjson", format!("{b:?}: {e}")))?;
            ensure!(v.is_object(), "accepts-nonobject", "{v} accepted as {m:?}");
        }
        Ok(Info::nt(!b.is_empty()))
    });
    c.check(sub("deep", 200, "nesting beyond 100 levels").workers(2), || (1usize..4000, any::<bool>(), any_wire()).boxed(), |(n, arr, w): &(usize, bool, Value)| {
        let (o, cl) = if *arr { ("[", "]") } else { ("{\"a\":", "}") };
        let mut s = o.repeat(*n);
        if !*arr {
            s.push('1');
        }
        s.push_str(&cl.repeat(*n));
        let t = w.to_string();
        let t = format!("{},\"x\":{s}}}", &t[..t.len() - 1]);
        let _ = StdioTransport::parse_message(t.as_bytes());
        Ok(Info::nt(*n > 100))
    });
}
fn strip_defaults(inp: &Value, out: &mut Value) {
    match (inp, out) {
        (Value::Object(a), Value::Object(b)) => {
            let ks: Vec<String> = b.keys().filter(|k| !a.contains_key(*k)).cloned().collect();
            for k in ks {
                b.remove(&k);
            }
            for (k, x) in b.iter_mut() {
                strip_defaults(&a[k], x);
            }
        },
        (Value::Array(a), Value::Array(b)) => {
            for (x, y) in a.iter().zip(b.iter_mut()) {
                strip_defaults(x, y);
            }
        },
        _ => {},
    }
}
