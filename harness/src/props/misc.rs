//! C36 completion, C37 errors.
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::types::completable::*;
use pmcp::types::jsonrpc::{JSONRPCError, JSONRPCNotification, JSONRPCRequest, JSONRPCResponse, MessageType, RawMessage, RequestId};
use pmcp::{Error, ErrorCode};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- C36
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Item {
    value: String,
    label: Option<String>,
    description: Option<String>,
    icon: Option<String>,
    meta: Value,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct StaticCase {
    items: Vec<Item>,
    strings: bool,
    partials: Vec<String>,
    ctx: Vec<(String, String)>,
}
fn word() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(prop::sample::select(vec!['a', 'b', 'A', 'é', '\u{301}', ' ', '🦀']), 0..5).prop_map(|v| v.into_iter().collect()),
        1 => text(),
    ]
    .boxed()
}
fn static_case() -> BoxedStrategy<StaticCase> {
    let item = (word(), prop::option::of(word()), prop::option::of(text()), prop::option::of(text()), jobj())
        .prop_map(|(value, label, description, icon, meta)| Item { value, label, description, icon, meta });
    (vec(item, 0..8), any::<bool>(), vec(word(), 1..4), vec((text(), text()), 0..2))
        .prop_map(|(items, strings, partials, ctx)| StaticCase { items, strings, partials, ctx })
        .boxed()
}
fn request(partial: &str, ctx: &[(String, String)]) -> CompletionRequest {
    CompletionRequest { argument: "arg".into(), partial: partial.to_string(), context: ctx.iter().cloned().collect() }
}
type Plain = (String, Option<String>, Option<String>, Option<String>, BTreeMap<String, String>);
fn plain(i: &CompletionItem) -> Plain {
    (i.value.clone(), i.label.clone(), i.description.clone(), i.icon.clone(), i.metadata.iter().map(|(k, v)| (k.clone(), canon(v))).collect())
}
fn run_static(c: &StaticCase) -> CaseResult {
    let mut items: Vec<CompletionItem> = c
        .items
        .iter()
        .map(|i| CompletionItem {
            value: i.value.clone(),
            label: i.label.clone(),
            description: i.description.clone(),
            icon: i.icon.clone(),
            metadata: i.meta.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        })
        .collect();
    let p = if c.strings {
        for i in &mut items {
            *i = CompletionItem { value: i.value.clone(), label: None, description: None, icon: None, metadata: HashMap::new() };
        }
        StaticCompletionProvider::from_strings(c.items.iter().map(|i| i.value.clone()).collect())
    } else {
        StaticCompletionProvider::new(items.clone())
    };
    let mut nt = false;
    for part in &c.partials {
        let want: Vec<Plain> = items
            .iter()
            .filter(|i| i.value.as_bytes().starts_with(part.as_bytes()) || i.label.as_ref().is_some_and(|l| l.as_bytes().starts_with(part.as_bytes())))
            .map(plain)
            .collect();
        let got = vrt(p.complete(request(part, &c.ctx))).map_err(|e| Fail::new("static-error", format!("{e}")))?;
        nt |= !want.is_empty() && want.len() < items.len();
        ensure_eq!(got.completions.iter().map(plain).collect::<Vec<_>>(), want, "static-matches", "completions of {part:?}");
        ensure!(!got.has_more && got.continuation_token.is_none(), "static-more", "complete list reported as having more");
    }
    Ok(Info::nt(nt))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct FileCase {
    /// (directory index, name, is a directory)
    entries: Vec<(usize, String, bool)>,
    odd: bool,
    base: u8,
    exts: Option<Vec<String>>,
    /// (directory spelled, last component)
    partials: Vec<(u8, String, String)>,
}
fn fname() -> BoxedStrategy<String> {
    let stem = prop_oneof![
        5 => "[ab]{1,3}",
        1 => "\\.[ab]{1,2}",
        1 => prop::sample::select(vec!["é", "a b", "a.", "..a", "...", "🦀", "a\\", "~", "a%20"]).prop_map(String::from),
        1 => text().prop_map(|t| t.chars().filter(|c| *c != '/' && *c != '\0').take(20).collect::<String>()),
    ];
    (stem, prop::sample::select(vec!["", "", ".md", ".txt", ".a.md", ".MD", ".mdx"])).prop_map(|(s, e)| format!("{s}{e}")).boxed()
}
fn part_comp() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        4 => "[ab]{1,2}",
        2 => prop::sample::select(vec![".", "..", "...", ".a", "a.", "é", "a.m"]).prop_map(String::from),
        2 => fname(),
    ]
    .boxed()
}
fn file_case() -> BoxedStrategy<FileCase> {
    let ext = prop::sample::select(vec!["md", "txt", "a", "MD", "", "mdx"]).prop_map(String::from);
    (
        vec((0usize..4, fname(), prop::bool::weighted(0.3)), 0..14),
        prop::bool::weighted(0.1),
        0u8..3,
        prop::option::of(vec(ext, 0..3)),
        vec((0u8..6, prop::sample::select(vec!["", "sub/", "./", "sub//", "../", "sub/./", "nope/", "sub/deep/", "./sub/../", "sub/../"]).prop_map(String::from), part_comp()), 1..5),
    )
        .prop_map(|(entries, odd, base, exts, partials)| FileCase { entries, odd, base, exts, partials })
        .boxed()
}
static N: AtomicU64 = AtomicU64::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let p = std::env::temp_dir().join(format!("vh-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The files present in the process's working directory while C36 runs (see c36).
const CWD: [&str; 4] = ["ab.md", "abc", "b.txt", ".a"];
fn run_file(c: &FileCase) -> CaseResult {
    let s = Scratch::new("c36");
    let root = s.0.join("root");
    let dirs = [root.clone(), root.join("sub"), root.join("sub/deep"), s.0.clone()];
    std::fs::create_dir_all(&dirs[2]).unwrap();
    for (d, n, is_dir) in &c.entries {
        if n.is_empty() || n == "." || n == ".." {
            continue;
        }
        let p = dirs[*d].join(n);
        if p.exists() {
            continue;
        }
        if *is_dir {
            std::fs::create_dir(&p).unwrap();
        } else {
            std::fs::write(&p, b"x").unwrap();
        }
    }
    if c.odd {
        use std::os::unix::ffi::OsStrExt;
        let _ = std::fs::write(root.join(std::ffi::OsStr::from_bytes(b"a\xff.md")), b"x");
    }
    let mut p = FileCompletionProvider::new();
    let base: Option<PathBuf> = match c.base {
        0 => None,
        1 => Some(root.clone()),
        _ => Some(root.join("sub")),
    };
    if let Some(b) = &base {
        p = p.with_base_dir(b.clone());
    }
    if let Some(e) = &c.exts {
        p = p.with_extensions(e.clone());
    }
    let (mut nt, mut cwd, mut dot) = (false, false, false);
    for (abs, dir, last) in &c.partials {
        let absolute = *abs == 0;
        let dir = if absolute { format!("{}/{dir}", root.display()) } else { dir.clone() };
        if last.contains('/') {
            continue;
        }
        let partial = format!("{dir}{last}");
        let look = match (&base, absolute) {
            (_, true) => PathBuf::from(&dir),
            (Some(b), false) => PathBuf::from(format!("{}/{dir}", b.display())),
            (None, false) if dir.is_empty() || dir == "./" => {
                cwd = true;
                PathBuf::from(".")
            },
            (None, false) => continue, // elsewhere relative to the working directory: nothing we control
        };
        let mut want: Vec<(String, String, bool)> = vec![];
        if let Ok(rd) = std::fs::read_dir(&look) {
            for e in rd.flatten() {
                let Some(n) = e.file_name().to_str().map(String::from) else { continue };
                if !n.as_bytes().starts_with(last.as_bytes()) {
                    continue;
                }
                let is_dir = e.file_type().unwrap().is_dir();
                if let (false, Some(x)) = (is_dir, &c.exts) {
                    // the extension: what follows the last dot, unless that dot starts the name
                    let ext = n.rfind('.').filter(|i| *i > 0).map(|i| &n[i + 1..]);
                    if !ext.is_some_and(|e| x.iter().any(|y| y == e)) {
                        continue;
                    }
                }
                want.push((format!("{dir}{n}"), n, is_dir));
            }
        }
        want.sort();
        nt |= !want.is_empty() && !last.is_empty();
        dot |= !want.is_empty() && last.starts_with('.');
        let got = vrt(p.complete(request(&partial, &[]))).map_err(|e| Fail::new("file-error", format!("{e}")))?;
        let vals: Vec<&str> = got.completions.iter().map(|i| i.value.as_str()).collect();
        ensure_eq!(vals, want.iter().map(|w| w.0.as_str()).collect::<Vec<_>>(), "file-matches", "completions of {partial:?} (base {:?}, extensions {:?})", c.base, c.exts);
        for (i, w) in got.completions.iter().zip(&want) {
            ensure_eq!(i.label.as_deref(), Some(w.1.as_str()), "file-label", "label of {:?}", w.0);
            ensure_eq!(i.description.as_deref(), Some(if w.2 { "Directory" } else { "File" }), "file-kind", "kind of {:?}", w.0);
        }
        ensure!(!got.has_more && got.continuation_token.is_none(), "file-more", "complete list reported as having more");
    }
    Ok(Info::nt(nt).label(cwd, "working directory").label(dot, "hidden entries asked for"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum B {
    Desc(String),
    Required,
    Static(Vec<String>),
    File,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BuildCase {
    name: String,
    ops: Vec<B>,
}
fn build_case() -> BoxedStrategy<BuildCase> {
    (text(), vec(prop_oneof![text().prop_map(B::Desc), Just(B::Required), vec(text(), 0..4).prop_map(B::Static), Just(B::File)], 0..5))
        .prop_map(|(name, ops)| BuildCase { name, ops })
        .boxed()
}
fn run_build(c: &BuildCase) -> CaseResult {
    let mut b = completable(c.name.clone());
    let (mut desc, mut req, mut comp): (Option<String>, bool, Option<Value>) = (None, false, None);
    for o in &c.ops {
        b = match o {
            B::Desc(d) => {
                desc = Some(d.clone());
                b.description(d.clone())
            },
            B::Required => {
                req = true;
                b.required()
            },
            B::Static(v) => {
                comp = Some(json!({"provider": "static", "values": v}));
                b.static_completions(v.clone())
            },
            B::File => {
                comp = Some(json!({"provider": "file"}));
                b.file_completions()
            },
        }
    }
    let a = b.build();
    ensure_eq!(a.name, c.name, "arg-name", "name");
    ensure_eq!(a.description, desc, "arg-description", "description");
    ensure_eq!(a.required, req, "arg-required", "required");
    let got = a.completion.as_ref().map(|x| serde_json::to_value(x).unwrap());
    ensure_eq!(got.as_ref().map(canon), comp.as_ref().map(canon), "arg-completion", "completion");
    let v = serde_json::to_value(&a).unwrap();
    let back: CompletableArgument = serde_json::from_value(v.clone()).map_err(|e| Fail::new("arg-roundtrip", format!("{v}: {e}")))?;
    ensure_eq!(canon(&serde_json::to_value(&back).unwrap()), canon(&v), "arg-roundtrip", "argument after a JSON round trip");
    Ok(Info::nt(c.ops.len() > 1))
}
pub fn c36(c: &mut Ctx) {
    let old = std::env::current_dir().unwrap();
    let s = Scratch::new("c36cwd");
    for n in CWD {
        std::fs::write(s.0.join(n), b"x").unwrap();
    }
    std::env::set_current_dir(&s.0).unwrap();
    c.check(sub("static", 20_000, "some but not all items match the given text"), || static_case(), run_static);
    c.check(sub("file", 8_000, "a non-empty prefix with at least one matching entry").io(), || file_case(), run_file);
    c.check(sub("builder", 2_000, "more than one builder call"), || build_case(), run_build);
    std::env::set_current_dir(old).unwrap();
}

// ---------------------------------------------------------------- C37
fn code() -> BoxedStrategy<i32> {
    prop_oneof![
        4 => -32800i32..-31900,
        2 => prop::sample::select(vec![-32700, -32600, -32601, -32602, -32603, -32000, -32001, -32002, -32003, -32004, -32005, -32099, -32100, -31999, 0, i32::MIN, i32::MAX]),
        2 => any::<i32>(),
    ]
    .boxed()
}
fn model_code(c: i32) -> i32 {
    match c {
        -32001..=-32001 | -32002 | -32003 | -32004 => c,
        -32099..=-32000 => -32603,
        _ => c,
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ErrCase {
    code: i32,
    other: i32,
    message: String,
    data: Option<Value>,
    id: Value,
    result: Value,
}
fn err_case() -> BoxedStrategy<ErrCase> {
    (code(), code(), text(), prop::option::of(nonnull()), rid(), jval())
        .prop_map(|(code, other, message, data, id, result)| ErrCase { code, other, message, data, id, result })
        .boxed()
}
const NAMED: [(ErrorCode, i32); 9] = [
    (ErrorCode::PARSE_ERROR, -32700),
    (ErrorCode::INVALID_REQUEST, -32600),
    (ErrorCode::METHOD_NOT_FOUND, -32601),
    (ErrorCode::INVALID_PARAMS, -32602),
    (ErrorCode::INTERNAL_ERROR, -32603),
    (ErrorCode::REQUEST_TIMEOUT, -32001),
    (ErrorCode::UNSUPPORTED_CAPABILITY, -32002),
    (ErrorCode::AUTHENTICATION_REQUIRED, -32003),
    (ErrorCode::PERMISSION_DENIED, -32004),
];
fn rid_of(v: &Value) -> RequestId {
    match v {
        Value::String(s) => RequestId::String(s.clone()),
        v => RequestId::Number(v.as_i64().unwrap()),
    }
}
fn jeq(a: &Option<Value>, b: &Option<Value>) -> bool {
    a.as_ref().map(canon) == b.as_ref().map(canon)
}
fn run_err(c: &ErrCase) -> CaseResult {
    let m = c.message.as_str();
    // codes
    let k = ErrorCode::from_i32(c.code);
    ensure_eq!(k.as_i32(), model_code(c.code), "from-i32", "ErrorCode::from_i32({})", c.code);
    ensure_eq!(ErrorCode::from_i32(k.as_i32()), k, "from-i32-stable", "from_i32 of its own result for {}", c.code);
    ensure_eq!(ErrorCode::other(c.code).as_i32(), c.code, "other-code", "ErrorCode::other");
    ensure_eq!(format!("{}", ErrorCode::other(c.code)), c.code.to_string(), "code-display", "Display of a code");
    for (n, v) in NAMED {
        ensure_eq!(n.as_i32(), v, "named-code", "value of a named code");
        ensure_eq!(ErrorCode::other(c.code) == n, c.code == v, "code-equality", "code {} against {v}", c.code);
    }
    // the wire error type
    let je = match &c.data {
        Some(d) => JSONRPCError::with_data(c.code, m, d.clone()),
        None => JSONRPCError::new(c.code, m),
    };
    ensure!(je.code == c.code && je.message == m && jeq(&je.data, &c.data), "wire-error-fields", "JSONRPCError carries other fields: {je:?}");
    ensure_eq!(je.to_string(), format!("JSON-RPC error {}: {m}", c.code), "wire-error-display", "Display of JSONRPCError");
    let mut want = json!({"code": c.code, "message": m});
    if let Some(d) = &c.data {
        want["data"] = d.clone();
    }
    let js = serde_json::to_value(&je).unwrap();
    ensure_eq!(canon(&js), canon(&want), "wire-error-json", "JSON of JSONRPCError");
    let back: JSONRPCError = serde_json::from_value(js).unwrap();
    ensure!(back.code == c.code && back.message == m && jeq(&back.data, &c.data), "wire-error-roundtrip", "JSONRPCError changed over JSON: {back:?}");
    // from the wire and back
    let e = Error::from_jsonrpc_error(je.clone());
    let mc = ErrorCode::other(model_code(c.code));
    check_protocol(&e, mc, m, &c.data, c.other, "from_jsonrpc_error")?;
    let w = JSONRPCError::from(e);
    ensure!(w.code == model_code(c.code) && w.message == m && jeq(&w.data, &c.data), "to-wire", "{je:?} became {w:?}");
    // constructors
    let oc = ErrorCode::other(c.code);
    match &c.data {
        Some(d) => check_protocol(&Error::protocol_with_data(oc, m, d.clone()), oc, m, &c.data, c.other, "protocol_with_data")?,
        None => check_protocol(&Error::protocol(oc, m), oc, m, &None, c.other, "protocol")?,
    }
    check_protocol(&Error::protocol_msg(m), ErrorCode::INTERNAL_ERROR, m, &None, c.other, "protocol_msg")?;
    check_protocol(&Error::parse(m), ErrorCode::PARSE_ERROR, m, &None, c.other, "parse")?;
    check_protocol(&Error::invalid_request(m), ErrorCode::INVALID_REQUEST, m, &None, c.other, "invalid_request")?;
    check_protocol(&Error::invalid_params(m), ErrorCode::INVALID_PARAMS, m, &None, c.other, "invalid_params")?;
    check_protocol(&Error::method_not_found(m), ErrorCode::METHOD_NOT_FOUND, &format!("Method not found: {m}"), &None, c.other, "method_not_found")?;
    let other: Vec<(Error, String)> = vec![
        (Error::validation(m), format!("Validation error: {m}")),
        (Error::internal(m), format!("Internal error: {m}")),
        (Error::not_found(m), format!("Resource not found: {m}")),
        (Error::authentication(m), format!("Authentication error: {m}")),
        (Error::capability(m), format!("Capability not supported: {m}")),
        (Error::Timeout(c.code as u32 as u64), format!("Request timed out after {}ms", c.code as u32)),
        (Error::InvalidState(m.into()), format!("Invalid state: {m}")),
    ];
    for (e, d) in other {
        ensure_eq!(e.error_code(), None, "no-code", "error_code of {e:?}");
        ensure!(!e.is_error_code(oc) && !e.is_error_code(ErrorCode::INTERNAL_ERROR), "no-code", "{e:?} claims a protocol code");
        ensure_eq!(e.to_string(), d, "display", "Display of {e:?}");
        let w = JSONRPCError::from(e);
        ensure!(w.code == -32603 && w.message == d && w.data.is_none(), "to-wire-other", "expected -32603 {d:?}, got {w:?}");
    }
    for (e, name) in [(Error::cancelled(m), "cancelled"), (Error::resource_not_found(m), "resource_not_found")] {
        ensure!(e.to_string().contains(m), "message-lost", "{name}: message lost: {e}");
        ensure_eq!(e.error_code(), None, "no-code", "error_code of {name}");
    }
    // envelopes
    let id = rid_of(&c.id);
    ensure_eq!(id.to_string(), c.id.as_str().map(String::from).unwrap_or_else(|| c.id.to_string()), "id-display", "Display of id");
    let ok: JSONRPCResponse = JSONRPCResponse::success(id.clone(), c.result.clone());
    let ko: JSONRPCResponse = JSONRPCResponse::error(id.clone(), je.clone());
    ensure!(ok.is_success() && !ok.is_error() && ok.get_error().is_none() && ok.result().map(canon) == Some(canon(&c.result)), "response-predicates", "success response disagrees with itself: {ok:?}");
    ensure!(!ko.is_success() && ko.is_error() && ko.result().is_none() && ko.get_error() == Some(&je), "response-predicates", "error response disagrees with itself: {ko:?}");
    ensure!(ok.id == id && ko.id == id && ok.jsonrpc == "2.0" && ko.jsonrpc == "2.0", "response-envelope", "id or version lost");
    ensure_eq!(canon(&serde_json::to_value(&ok).unwrap()), canon(&json!({"jsonrpc":"2.0","id":c.id,"result":c.result})), "response-json", "success response JSON");
    ensure_eq!(canon(&serde_json::to_value(&ko).unwrap()), canon(&json!({"jsonrpc":"2.0","id":c.id,"error":want})), "response-json", "error response JSON");
    let mut rq: JSONRPCRequest = JSONRPCRequest::new(id.clone(), m, Some(c.result.clone()));
    ensure!(rq.validate().is_ok() && rq.id == id && rq.method == m, "request-new", "fresh request not valid: {rq:?}");
    rq.jsonrpc = m.to_string();
    ensure_eq!(rq.validate().is_ok(), m == "2.0", "request-validate", "validate with version {m:?}");
    let nf: JSONRPCNotification = JSONRPCNotification::new(m, Some(c.result.clone()));
    ensure_eq!(canon(&serde_json::to_value(&nf).unwrap()), canon(&json!({"jsonrpc":"2.0","method":m,"params":c.result})), "notification-json", "notification JSON");
    Ok(Info::nt(c.data.is_some()).label(model_code(c.code) != c.code, "unnamed server-range code").label((-32099..=-32000).contains(&c.code), "server range"))
}
fn check_protocol(e: &Error, code: ErrorCode, msg: &str, data: &Option<Value>, other: i32, what: &str) -> Result<(), Fail> {
    match e {
        Error::Protocol { code: k, message, data: d } => {
            ensure!(*k == code && message == msg && jeq(d, data), "protocol-fields", "{what}: expected {} {msg:?} {data:?}, got {e:?}", code.as_i32());
        },
        _ => fail!("protocol-kind", "{what} built {e:?}"),
    }
    ensure_eq!(e.error_code(), Some(code), "error-code", "error_code of {what}");
    ensure!(e.is_error_code(code), "is-error-code", "{what}: is_error_code is false for its own code");
    ensure_eq!(e.is_error_code(ErrorCode::other(other)), other == code.as_i32(), "is-error-code", "{what}: is_error_code({other})");
    ensure_eq!(e.to_string(), format!("Protocol error: {} - {msg}", code.as_i32()), "display", "Display of {what}");
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RawCase {
    id: Option<Value>,
    method: Option<String>,
    params: Option<Value>,
    result: Option<Value>,
    error: Option<(i32, String)>,
}
fn raw_case() -> BoxedStrategy<RawCase> {
    use prop::option::of;
    (of(rid()), of(text()), of(jobj()), of(nonnull()), of((code(), text())))
        .prop_map(|(id, method, params, result, error)| RawCase { id, method, params, result, error })
        .boxed()
}
fn run_raw(c: &RawCase) -> CaseResult {
    let mut o = json!({"jsonrpc": "2.0"});
    let mut set = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            o[k] = v;
        }
    };
    set("id", c.id.clone());
    set("method", c.method.clone().map(Value::from));
    set("params", c.params.clone());
    set("result", c.result.clone());
    set("error", c.error.as_ref().map(|(k, m)| json!({"code": k, "message": m})));
    let r: RawMessage = serde_json::from_str(&o.to_string()).map_err(|e| Fail::new("raw-parse", format!("{o}: {e}")))?;
    let want = match (c.id.is_some(), c.method.is_some(), c.result.is_some(), c.error.is_some()) {
        (true, true, false, false) => MessageType::Request,
        (false, true, false, false) => MessageType::Notification,
        (true, false, true, false) => MessageType::Response,
        (true, false, false, true) => MessageType::ErrorResponse,
        _ => MessageType::Invalid,
    };
    ensure_eq!(r.message_type(), want, "raw-type", "kind of {o}");
    ensure_eq!(r.id, c.id.as_ref().map(rid_of), "raw-id", "id of {o}");
    ensure_eq!(r.method, c.method, "raw-method", "method of {o}");
    let raw = |x: &Option<Box<serde_json::value::RawValue>>| x.as_ref().map(|v| canon(&serde_json::from_str(v.get()).unwrap()));
    ensure_eq!(raw(&r.params), c.params.as_ref().map(canon), "raw-params", "params of {o}");
    ensure_eq!(raw(&r.result), c.result.as_ref().map(canon), "raw-result", "result of {o}");
    ensure_eq!(r.error.map(|e| (e.code, e.message)), c.error.clone(), "raw-error", "error of {o}");
    Ok(Info::nt(want != MessageType::Invalid))
}
pub fn c37(c: &mut Ctx) {
    c.check(sub("errors", 10_000, "the error carries data"), || err_case(), run_err);
    c.check(sub("envelope", 6_000, "the members form a request, notification or response"), || raw_case(), run_raw);
}
