//! Independent model of the wire format: hand-written field tables between typed messages and JSON,
//! and generators of canonical wire objects for every message kind.
use crate::gen::*;
use pmcp::shared::TransportMessage;
use pmcp::types::capabilities::*;
use pmcp::types::completable::{CompletionConfig, CompletionProvider};
use pmcp::types::elicitation::*;
use pmcp::types::jsonrpc::{JSONRPCError, JSONRPCResponse, ResponsePayload};
use pmcp::types::protocol::*;
use pmcp::types::RequestId;
use proptest::prelude::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub trait W: Sized {
    fn i(v: &Value) -> Self;
    fn o(&self) -> Value;
}
impl W for Value {
    fn i(v: &Value) -> Self {
        v.clone()
    }
    fn o(&self) -> Value {
        self.clone()
    }
}
impl W for String {
    fn i(v: &Value) -> Self {
        v.as_str().unwrap().to_string()
    }
    fn o(&self) -> Value {
        Value::String(self.clone())
    }
}
impl W for bool {
    fn i(v: &Value) -> Self {
        v.as_bool().unwrap()
    }
    fn o(&self) -> Value {
        Value::Bool(*self)
    }
}
impl W for f64 {
    fn i(v: &Value) -> Self {
        v.as_f64().unwrap()
    }
    fn o(&self) -> Value {
        json!(*self)
    }
}
macro_rules! w_int { ($($t:ty),*) => { $(impl W for $t {
    fn i(v: &Value) -> Self { <$t>::try_from(v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)).unwrap()).unwrap() }
    fn o(&self) -> Value { json!(*self) }
})* } }
w_int!(i32, i64, u32, usize);
impl<T: W> W for Vec<T> {
    fn i(v: &Value) -> Self {
        v.as_array().unwrap().iter().map(T::i).collect()
    }
    fn o(&self) -> Value {
        Value::Array(self.iter().map(T::o).collect())
    }
}
impl<T: W> W for HashMap<String, T> {
    fn i(v: &Value) -> Self {
        v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), T::i(v))).collect()
    }
    fn o(&self) -> Value {
        Value::Object(self.iter().map(|(k, v)| (k.clone(), v.o())).collect())
    }
}
impl<T: W> W for Box<T> {
    fn i(v: &Value) -> Self {
        Box::new(T::i(v))
    }
    fn o(&self) -> Value {
        (**self).o()
    }
}
macro_rules! w_struct { ($($t:ident { $($r:ident : $rn:literal),* $(,)? ; $($q:ident : $qn:literal),* $(,)? $(; flat $fl:ident)? })*) => { $(
    impl W for $t {
        #[allow(unused)]
        fn i(v: &Value) -> Self {
            let known: &[&str] = &[$($rn,)* $($qn,)*];
            $(let $fl: HashMap<String, Value> = v.as_object().unwrap().iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect();)?
            Self { $($r: W::i(&v[$rn]),)* $($q: v.get($qn).map(W::i),)* $($fl,)? }
        }
        #[allow(unused_mut, unused_variables)]
        fn o(&self) -> Value {
            let Self { $($r,)* $($q,)* $($fl,)? } = self;
            let mut m = Map::new();
            $(m.insert($rn.into(), $r.o());)*
            $(if let Some(x) = $q { m.insert($qn.into(), x.o()); })*
            $(for (k, x) in $fl { m.insert(k.clone(), x.clone()); })?
            Value::Object(m)
        }
    })* } }
macro_rules! w_enum { ($($t:ident { $($v:ident : $n:literal),* $(,)? })*) => { $(
    impl W for $t {
        fn i(v: &Value) -> Self { match v.as_str().unwrap() { $($n => <$t>::$v,)* x => panic!("model: {x}") } }
        fn o(&self) -> Value { match self { $(<$t>::$v => json!($n),)* } }
    })* } }
w_enum! {
    Role { User: "user", Assistant: "assistant", System: "system" }
    LoggingLevel { Debug: "debug", Info: "info", Warning: "warning", Error: "error", Critical: "critical" }
    LogLevel { Debug: "debug", Info: "info", Warning: "warning", Error: "error" }
    IncludeContext { All: "all", None: "none", ThisServerOnly: "thisServerOnly" }
    InputType { Text: "text", Textarea: "textarea", Boolean: "boolean", Number: "number", Select: "select", MultiSelect: "multiSelect",
        FilePath: "filePath", DirectoryPath: "directoryPath", Password: "password", Date: "date", Time: "time", DateTime: "dateTime",
        Color: "color", Url: "url", Email: "email" }
}
w_struct! {
    Implementation { name: "name", version: "version"; }
    InitializeRequest { protocol_version: "protocolVersion", capabilities: "capabilities", client_info: "clientInfo"; }
    InitializeResult { protocol_version: "protocolVersion", capabilities: "capabilities", server_info: "serverInfo"; instructions: "instructions" }
    ListToolsRequest { ; cursor: "cursor" }
    ListPromptsRequest { ; cursor: "cursor" }
    ListResourcesRequest { ; cursor: "cursor" }
    ListResourceTemplatesRequest { ; cursor: "cursor" }
    ToolInfo { name: "name", input_schema: "inputSchema"; description: "description" }
    ListToolsResult { tools: "tools"; next_cursor: "nextCursor" }
    CallToolRequest { name: "name", arguments: "arguments"; }
    CallToolResult { content: "content", is_error: "isError"; }
    PromptInfo { name: "name"; description: "description", arguments: "arguments" }
    PromptArgument { name: "name", required: "required"; description: "description", completion: "completion" }
    CompletionConfig { provider: "provider"; ; flat config }
    ListPromptsResult { prompts: "prompts"; next_cursor: "nextCursor" }
    GetPromptRequest { name: "name", arguments: "arguments"; }
    GetPromptResult { messages: "messages"; description: "description" }
    PromptMessage { role: "role", content: "content"; }
    ResourceInfo { uri: "uri", name: "name"; description: "description", mime_type: "mimeType" }
    ListResourcesResult { resources: "resources"; next_cursor: "nextCursor" }
    ReadResourceRequest { uri: "uri"; }
    ReadResourceResult { contents: "contents"; }
    ResourceTemplate { uri_template: "uriTemplate", name: "name"; description: "description", mime_type: "mimeType" }
    ListResourceTemplatesResult { resource_templates: "resourceTemplates"; next_cursor: "nextCursor" }
    SubscribeRequest { uri: "uri"; }
    UnsubscribeRequest { uri: "uri"; }
    CompleteRequest { r#ref: "ref", argument: "argument"; }
    CompletionArgument { name: "name", value: "value"; }
    CompleteResult { completion: "completion"; }
    CompletionResult { values: "values", has_more: "hasMore"; total: "total" }
    ModelPreferences { ; hints: "hints", cost_priority: "costPriority", speed_priority: "speedPriority", intelligence_priority: "intelligencePriority" }
    ModelHint { ; name: "name" }
    ProgressNotification { progress_token: "progressToken", progress: "progress"; message: "message" }
    CreateMessageParams { messages: "messages", include_context: "includeContext"; model_preferences: "modelPreferences", system_prompt: "systemPrompt",
        temperature: "temperature", max_tokens: "maxTokens", stop_sequences: "stopSequences", metadata: "metadata" }
    CreateMessageResult { content: "content", model: "model"; usage: "usage", stop_reason: "stopReason" }
    TokenUsage { input_tokens: "inputTokens", output_tokens: "outputTokens", total_tokens: "totalTokens"; }
    SamplingMessage { role: "role", content: "content"; }
    CancelledNotification { request_id: "requestId"; reason: "reason" }
    ResourceUpdatedParams { uri: "uri"; }
    LogMessageParams { level: "level", message: "message"; logger: "logger", data: "data" }
    ElicitInputRequest { elicitation_id: "elicitationId", input_type: "inputType", prompt: "prompt"; description: "description", default: "default",
        validation: "validation"; flat metadata }
    InputValidation { required: "required"; min: "min", max: "max", pattern: "pattern", options: "options", message: "message" }
    SelectOption { value: "value", label: "label", disabled: "disabled"; description: "description" }
    ElicitInputResponse { elicitation_id: "elicitationId", cancelled: "cancelled"; value: "value", error: "error" }
    ClientCapabilities { ; tools: "tools", prompts: "prompts", resources: "resources", logging: "logging", sampling: "sampling", roots: "roots", experimental: "experimental" }
    ServerCapabilities { ; tools: "tools", prompts: "prompts", resources: "resources", logging: "logging", completions: "completions", sampling: "sampling", experimental: "experimental" }
    ToolCapabilities { ; list_changed: "listChanged" }
    PromptCapabilities { ; list_changed: "listChanged" }
    ResourceCapabilities { ; subscribe: "subscribe", list_changed: "listChanged" }
    LoggingCapabilities { ; levels: "levels" }
    SamplingCapabilities { ; models: "models" }
    RootsCapabilities { list_changed: "listChanged"; }
    JSONRPCError { code: "code", message: "message"; data: "data" }
}
impl W for CompletionCapabilities {
    fn i(_: &Value) -> Self {
        Self::default()
    }
    fn o(&self) -> Value {
        json!({})
    }
}
impl W for ProtocolVersion {
    fn i(v: &Value) -> Self {
        ProtocolVersion(String::i(v))
    }
    fn o(&self) -> Value {
        json!(self.0)
    }
}
impl W for CompletionProvider {
    fn i(v: &Value) -> Self {
        match v {
            Value::String(s) => match s.as_str() {
                "static" => Self::Static,
                "resource" => Self::Resource,
                "tool" => Self::Tool,
                "file" => Self::File,
                x => panic!("model: {x}"),
            },
            o => Self::Custom(String::i(&o["custom"])),
        }
    }
    fn o(&self) -> Value {
        match self {
            Self::Static => json!("static"),
            Self::Resource => json!("resource"),
            Self::Tool => json!("tool"),
            Self::File => json!("file"),
            Self::Custom(s) => json!({"custom": s}),
        }
    }
}
impl W for Content {
    fn i(v: &Value) -> Self {
        match v["type"].as_str().unwrap() {
            "text" => Content::Text { text: W::i(&v["text"]) },
            "image" => Content::Image { data: W::i(&v["data"]), mime_type: W::i(&v["mimeType"]) },
            _ => Content::Resource { uri: W::i(&v["uri"]), text: v.get("text").map(W::i), mime_type: v.get("mimeType").map(W::i) },
        }
    }
    fn o(&self) -> Value {
        match self {
            Content::Text { text } => json!({"type": "text", "text": text}),
            Content::Image { data, mime_type } => json!({"type": "image", "data": data, "mimeType": mime_type}),
            Content::Resource { uri, text, mime_type } => {
                let mut m = json!({"type": "resource", "uri": uri});
                if let Some(t) = text {
                    m["text"] = json!(t);
                }
                if let Some(t) = mime_type {
                    m["mimeType"] = json!(t);
                }
                m
            },
        }
    }
}
impl W for CompletionReference {
    fn i(v: &Value) -> Self {
        match v["type"].as_str().unwrap() {
            "ref/resource" => Self::Resource { uri: W::i(&v["uri"]) },
            _ => Self::Prompt { name: W::i(&v["name"]) },
        }
    }
    fn o(&self) -> Value {
        match self {
            Self::Resource { uri } => json!({"type": "ref/resource", "uri": uri}),
            Self::Prompt { name } => json!({"type": "ref/prompt", "name": name}),
        }
    }
}
impl W for RequestId {
    fn i(v: &Value) -> Self {
        match v {
            Value::String(s) => RequestId::String(s.clone()),
            n => RequestId::Number(n.as_i64().unwrap()),
        }
    }
    fn o(&self) -> Value {
        match self {
            RequestId::String(s) => json!(s),
            RequestId::Number(n) => json!(n),
        }
    }
}
impl W for ProgressToken {
    fn i(v: &Value) -> Self {
        match v {
            Value::String(s) => ProgressToken::String(s.clone()),
            n => ProgressToken::Number(n.as_i64().unwrap()),
        }
    }
    fn o(&self) -> Value {
        match self {
            ProgressToken::String(s) => json!(s),
            ProgressToken::Number(n) => json!(n),
        }
    }
}

/// canonical wire form of a request (method, params)
pub fn req_o(r: &Request) -> (&'static str, Option<Value>) {
    use ClientRequest as C;
    match r {
        Request::Client(c) => match &**c {
            C::Initialize(p) => ("initialize", Some(p.o())),
            C::ListTools(p) => ("tools/list", Some(p.o())),
            C::CallTool(p) => ("tools/call", Some(p.o())),
            C::ListPrompts(p) => ("prompts/list", Some(p.o())),
            C::GetPrompt(p) => ("prompts/get", Some(p.o())),
            C::ListResources(p) => ("resources/list", Some(p.o())),
            C::ListResourceTemplates(p) => ("resources/templates/list", Some(p.o())),
            C::ReadResource(p) => ("resources/read", Some(p.o())),
            C::Subscribe(p) => ("resources/subscribe", Some(p.o())),
            C::Unsubscribe(p) => ("resources/unsubscribe", Some(p.o())),
            C::Complete(p) => ("completion/complete", Some(p.o())),
            C::SetLoggingLevel { level } => ("logging/setLevel", Some(json!({"level": level.o()}))),
            C::Ping => ("ping", None),
            C::CreateMessage(p) => ("sampling/createMessage", Some(p.o())),
            C::ElicitInputResponse(p) => ("elicitation/response", Some(p.o())),
        },
        Request::Server(s) => match &**s {
            ServerRequest::CreateMessage(p) => ("sampling/createMessage", Some(p.o())),
            ServerRequest::ListRoots => ("roots/list", None),
            ServerRequest::ElicitInput(p) => ("elicitation/elicitInput", Some(p.o())),
        },
    }
}
pub fn req_i(method: &str, p: &Value, server: bool) -> Option<Request> {
    use ClientRequest as C;
    let c = match method {
        "initialize" => C::Initialize(W::i(p)),
        "tools/list" => C::ListTools(W::i(p)),
        "tools/call" => C::CallTool(W::i(p)),
        "prompts/list" => C::ListPrompts(W::i(p)),
        "prompts/get" => C::GetPrompt(W::i(p)),
        "resources/list" => C::ListResources(W::i(p)),
        "resources/templates/list" => C::ListResourceTemplates(W::i(p)),
        "resources/read" => C::ReadResource(W::i(p)),
        "resources/subscribe" => C::Subscribe(W::i(p)),
        "resources/unsubscribe" => C::Unsubscribe(W::i(p)),
        "completion/complete" => C::Complete(W::i(p)),
        "logging/setLevel" => C::SetLoggingLevel { level: W::i(&p["level"]) },
        "ping" => C::Ping,
        "sampling/createMessage" if !server => C::CreateMessage(W::i(p)),
        "elicitation/response" => C::ElicitInputResponse(W::i(p)),
        "sampling/createMessage" => return Some(Request::Server(Box::new(ServerRequest::CreateMessage(W::i(p))))),
        "roots/list" => return Some(Request::Server(Box::new(ServerRequest::ListRoots))),
        "elicitation/elicitInput" => return Some(Request::Server(Box::new(ServerRequest::ElicitInput(W::i(p))))),
        _ => return None,
    };
    Some(Request::Client(Box::new(c)))
}
pub fn not_o(n: &Notification) -> (&'static str, Option<Value>) {
    match n {
        Notification::Progress(p) | Notification::Client(ClientNotification::Progress(p)) | Notification::Server(ServerNotification::Progress(p)) => ("notifications/progress", Some(p.o())),
        Notification::Cancelled(p) | Notification::Client(ClientNotification::Cancelled(p)) => ("notifications/cancelled", Some(p.o())),
        Notification::Client(ClientNotification::Initialized) => ("notifications/initialized", None),
        Notification::Client(ClientNotification::RootsListChanged) | Notification::Server(ServerNotification::RootsListChanged) => ("notifications/roots/list_changed", None),
        Notification::Server(ServerNotification::ToolsChanged) => ("notifications/tools/list_changed", None),
        Notification::Server(ServerNotification::PromptsChanged) => ("notifications/prompts/list_changed", None),
        Notification::Server(ServerNotification::ResourcesChanged) => ("notifications/resources/list_changed", None),
        Notification::Server(ServerNotification::ResourceUpdated(p)) => ("notifications/resources/updated", Some(p.o())),
        Notification::Server(ServerNotification::LogMessage(p)) => ("notifications/message", Some(p.o())),
    }
}
/// `form`: 0 plain, 1 wrapped in Client, 2 wrapped in Server (where such a variant exists)
pub fn not_i(method: &str, p: &Value, form: u8) -> Option<Notification> {
    use {ClientNotification as C, Notification as N, ServerNotification as S};
    Some(match (method, form) {
        ("notifications/progress", 1) => N::Client(C::Progress(W::i(p))),
        ("notifications/progress", 2) => N::Server(S::Progress(W::i(p))),
        ("notifications/progress", _) => N::Progress(W::i(p)),
        ("notifications/cancelled", 1) => N::Client(C::Cancelled(W::i(p))),
        ("notifications/cancelled", _) => N::Cancelled(W::i(p)),
        ("notifications/initialized", _) => N::Client(C::Initialized),
        ("notifications/roots/list_changed", 2) => N::Server(S::RootsListChanged),
        ("notifications/roots/list_changed", _) => N::Client(C::RootsListChanged),
        ("notifications/tools/list_changed", _) => N::Server(S::ToolsChanged),
        ("notifications/prompts/list_changed", _) => N::Server(S::PromptsChanged),
        ("notifications/resources/list_changed", _) => N::Server(S::ResourcesChanged),
        ("notifications/resources/updated", _) => N::Server(S::ResourceUpdated(W::i(p))),
        ("notifications/message", _) => N::Server(S::LogMessage(W::i(p))),
        _ => return None,
    })
}
/// canonical wire object of any message
pub fn msg_o(m: &TransportMessage) -> Value {
    match m {
        TransportMessage::Request { id, request } => {
            let (method, p) = req_o(request);
            let mut v = json!({"jsonrpc": "2.0", "id": id.o(), "method": method});
            if let Some(p) = p {
                v["params"] = p;
            }
            v
        },
        TransportMessage::Notification(n) => {
            let (method, p) = not_o(n);
            let mut v = json!({"jsonrpc": "2.0", "method": method});
            if let Some(p) = p {
                v["params"] = p;
            }
            v
        },
        TransportMessage::Response(r) => resp_o(r),
    }
}
pub fn resp_o(r: &JSONRPCResponse) -> Value {
    match &r.payload {
        ResponsePayload::Result(x) => json!({"jsonrpc": r.jsonrpc, "id": r.id.o(), "result": x}),
        ResponsePayload::Error(e) => json!({"jsonrpc": r.jsonrpc, "id": r.id.o(), "error": e.o()}),
    }
}
/// typed message for a canonical wire object
pub fn msg_i(v: &Value, form: u8) -> TransportMessage {
    let p = v.get("params").cloned().unwrap_or(Value::Null);
    if let Some(m) = v.get("method") {
        let m = m.as_str().unwrap();
        if let Some(id) = v.get("id") {
            TransportMessage::Request { id: W::i(id), request: req_i(m, &p, form == 2).expect("method") }
        } else {
            TransportMessage::Notification(not_i(m, &p, form).expect("method"))
        }
    } else {
        let payload = match v.get("error") {
            Some(e) => ResponsePayload::Error(W::i(e)),
            None => ResponsePayload::Result(v["result"].clone()),
        };
        TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: W::i(&v["id"]), payload })
    }
}

// ---------- generators of canonical wire values ----------
pub const REQUESTS: &[&str] = &[
    "initialize", "tools/list", "tools/call", "prompts/list", "prompts/get", "resources/list", "resources/templates/list", "resources/read",
    "resources/subscribe", "resources/unsubscribe", "completion/complete", "logging/setLevel", "ping", "sampling/createMessage",
    "elicitation/response", "roots/list", "elicitation/elicitInput",
];
pub const NOTIFICATIONS: &[&str] = &[
    "notifications/progress", "notifications/cancelled", "notifications/initialized", "notifications/roots/list_changed",
    "notifications/tools/list_changed", "notifications/prompts/list_changed", "notifications/resources/list_changed",
    "notifications/resources/updated", "notifications/message",
];
fn smap() -> BoxedStrategy<Value> {
    proptest::collection::vec((text(), text()), 0..4).prop_map(|v| Value::Object(v.into_iter().map(|(k, v)| (k, json!(v))).collect())).boxed()
}
fn flag_obj(n: &'static str) -> BoxedStrategy<Value> {
    obj(vec![(n, vbool(), false)])
}
fn strs(n: usize) -> BoxedStrategy<Value> {
    arr(vtext(), n)
}
fn vu32() -> BoxedStrategy<Value> {
    prop_oneof![4 => 0u32..100_000, 1 => any::<u32>()].prop_map(Value::from).boxed()
}
pub fn implementation() -> BoxedStrategy<Value> {
    obj(vec![("name", vtext(), true), ("version", vtext(), true)])
}
pub fn client_caps() -> BoxedStrategy<Value> {
    obj(vec![
        ("tools", flag_obj("listChanged"), false),
        ("prompts", flag_obj("listChanged"), false),
        ("resources", obj(vec![("subscribe", vbool(), false), ("listChanged", vbool(), false)]), false),
        ("logging", obj(vec![("levels", strs(2), false)]), false),
        ("sampling", obj(vec![("models", strs(2), false)]), false),
        ("roots", obj(vec![("listChanged", vbool(), true)]), false),
        ("experimental", jobj(), false),
    ])
}
pub fn server_caps() -> BoxedStrategy<Value> {
    obj(vec![
        ("tools", flag_obj("listChanged"), false),
        ("prompts", flag_obj("listChanged"), false),
        ("resources", obj(vec![("subscribe", vbool(), false), ("listChanged", vbool(), false)]), false),
        ("logging", obj(vec![("levels", strs(2), false)]), false),
        ("completions", Just(json!({})).boxed(), false),
        ("sampling", obj(vec![("models", strs(2), false)]), false),
        ("experimental", jobj(), false),
    ])
}
pub fn content() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => obj(vec![("type", Just(json!("text")).boxed(), true), ("text", vtext(), true)]),
        1 => obj(vec![("type", Just(json!("image")).boxed(), true), ("data", vtext(), true), ("mimeType", vtext(), true)]),
        2 => obj(vec![("type", Just(json!("resource")).boxed(), true), ("uri", vtext(), true), ("text", vtext(), false), ("mimeType", vtext(), false)]),
    ]
    .boxed()
}
pub fn role() -> BoxedStrategy<Value> {
    pick(&["user", "assistant", "system"])
}
fn message() -> BoxedStrategy<Value> {
    obj(vec![("role", role(), true), ("content", content(), true)])
}
/// extra members for flattened maps: names that cannot collide with declared ones
fn with_extra(base: BoxedStrategy<Value>) -> BoxedStrategy<Value> {
    (base, proptest::collection::vec(("x[a-z_é]{0,4}", nonnull()), 0..3))
        .prop_map(|(mut b, ex)| {
            for (k, v) in ex {
                b[k] = v;
            }
            b
        })
        .boxed()
}
pub fn create_message() -> BoxedStrategy<Value> {
    obj(vec![
        ("messages", arr(message(), 3), true),
        ("modelPreferences", obj(vec![
            ("hints", arr(obj(vec![("name", vtext(), false)]), 2), false),
            ("costPriority", vflt(), false),
            ("speedPriority", vflt(), false),
            ("intelligencePriority", vflt(), false),
        ]), false),
        ("systemPrompt", vtext(), false),
        ("includeContext", pick(&["all", "none", "thisServerOnly"]), true),
        ("temperature", vflt(), false),
        ("maxTokens", vu32(), false),
        ("stopSequences", strs(2), false),
        ("metadata", nonnull(), false),
    ])
}
fn validation() -> BoxedStrategy<Value> {
    obj(vec![
        ("required", vbool(), true),
        ("min", vflt(), false),
        ("max", vflt(), false),
        ("pattern", vtext(), false),
        ("options", arr(obj(vec![("value", jval(), true), ("label", vtext(), true), ("description", vtext(), false), ("disabled", vbool(), true)]), 2), false),
        ("message", vtext(), false),
    ])
}
pub fn elicit_request() -> BoxedStrategy<Value> {
    with_extra(obj(vec![
        ("elicitationId", vtext(), true),
        ("inputType", pick(&["text", "textarea", "boolean", "number", "select", "multiSelect", "filePath", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"]), true),
        ("prompt", vtext(), true),
        ("description", vtext(), false),
        ("default", nonnull(), false),
        ("validation", validation(), false),
    ]))
}
pub fn elicit_response() -> BoxedStrategy<Value> {
    obj(vec![("elicitationId", vtext(), true), ("value", nonnull(), false), ("cancelled", vbool(), true), ("error", vtext(), false)])
}
/// params of a request method; None where the method has none
pub fn version() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => prop::sample::select(pmcp::SUPPORTED_PROTOCOL_VERSIONS.to_vec()).prop_map(Value::from),
        2 => prop::sample::select(vec!["2024-11-04", "", "1.0", "2025-06-18 ", "2099-01-01", "DRAFT", "2024-11-05-x", "2025"]).prop_map(Value::from),
        2 => vtext(),
    ]
    .boxed()
}
pub fn params(method: &str) -> BoxedStrategy<Option<Value>> {
    let uri = || obj(vec![("uri", vtext(), true)]);
    let s = match method {
        "initialize" => obj(vec![("protocolVersion", version(), true), ("capabilities", client_caps(), true), ("clientInfo", implementation(), true)]),
        "tools/list" | "prompts/list" | "resources/list" | "resources/templates/list" => obj(vec![("cursor", vtext(), false)]),
        "tools/call" => obj(vec![("name", name().prop_map(Value::from).boxed(), true), ("arguments", jval(), true)]),
        "prompts/get" => obj(vec![("name", name().prop_map(Value::from).boxed(), true), ("arguments", smap(), true)]),
        "resources/read" | "resources/subscribe" | "resources/unsubscribe" | "notifications/resources/updated" => uri(),
        "completion/complete" => obj(vec![
            ("ref", prop_oneof![
                obj(vec![("type", Just(json!("ref/resource")).boxed(), true), ("uri", vtext(), true)]),
                obj(vec![("type", Just(json!("ref/prompt")).boxed(), true), ("name", vtext(), true)]),
            ].boxed(), true),
            ("argument", obj(vec![("name", vtext(), true), ("value", vtext(), true)]), true),
        ]),
        "logging/setLevel" => obj(vec![("level", pick(&["debug", "info", "warning", "error", "critical"]), true)]),
        "sampling/createMessage" => create_message(),
        "elicitation/response" => elicit_response(),
        "elicitation/elicitInput" => elicit_request(),
        "notifications/progress" => obj(vec![("progressToken", rid(), true), ("progress", vflt(), true), ("message", vtext(), false)]),
        "notifications/cancelled" => obj(vec![("requestId", rid(), true), ("reason", vtext(), false)]),
        "notifications/message" => obj(vec![("level", pick(&["debug", "info", "warning", "error"]), true), ("logger", vtext(), false), ("message", vtext(), true), ("data", nonnull(), false)]),
        _ => return Just(None).boxed(),
    };
    s.prop_map(Some).boxed()
}
pub fn request_wire() -> BoxedStrategy<Value> {
    (prop::sample::select(REQUESTS), rid())
        .prop_flat_map(|(m, id)| {
            params(m).prop_map(move |p| {
                let mut v = json!({"jsonrpc": "2.0", "id": id, "method": m});
                if let Some(p) = p {
                    v["params"] = p;
                }
                v
            })
        })
        .boxed()
}
pub fn notification_wire() -> BoxedStrategy<Value> {
    prop::sample::select(NOTIFICATIONS)
        .prop_flat_map(|m| {
            params(m).prop_map(move |p| {
                let mut v = json!({"jsonrpc": "2.0", "method": m});
                if let Some(p) = p {
                    v["params"] = p;
                }
                v
            })
        })
        .boxed()
}
pub fn error_wire() -> BoxedStrategy<Value> {
    obj(vec![
        ("code", prop_oneof![any::<i32>().prop_map(Value::from), (-32110i32..-31990).prop_map(Value::from), prop::sample::select(vec![-32700, -32600, -32601, -32602, -32603, 0, 1]).prop_map(Value::from)].boxed(), true),
        ("message", vtext(), true),
        ("data", nonnull(), false),
    ])
}
pub fn response_wire() -> BoxedStrategy<Value> {
    prop_oneof![
        (rid(), jval()).prop_map(|(id, r)| json!({"jsonrpc": "2.0", "id": id, "result": r})),
        (rid(), error_wire()).prop_map(|(id, e)| json!({"jsonrpc": "2.0", "id": id, "error": e})),
    ]
    .boxed()
}
pub fn any_wire() -> BoxedStrategy<Value> {
    prop_oneof![3 => request_wire(), 2 => notification_wire(), 2 => response_wire()].boxed()
}

// ---------- results ----------
pub const RESULTS: &[&str] = &[
    "initialize", "tools/list", "tools/call", "prompts/list", "prompts/get", "resources/list", "resources/templates/list", "resources/read",
    "completion/complete", "sampling/createMessage",
];
fn completion_config() -> BoxedStrategy<Value> {
    let prov = prop_oneof![pick(&["static", "resource", "tool", "file"]), text().prop_map(|t| json!({"custom": t}))].boxed();
    with_extra(obj(vec![("provider", prov, true)]))
}
pub fn tool_info() -> BoxedStrategy<Value> {
    obj(vec![("name", vtext(), true), ("description", vtext(), false), ("inputSchema", jval(), true)])
}
pub fn prompt_info() -> BoxedStrategy<Value> {
    let a = obj(vec![("name", vtext(), true), ("description", vtext(), false), ("required", vbool(), true), ("completion", completion_config(), false)]);
    obj(vec![("name", vtext(), true), ("description", vtext(), false), ("arguments", arr(a, 2), false)])
}
pub fn resource_info() -> BoxedStrategy<Value> {
    obj(vec![("uri", vtext(), true), ("name", vtext(), true), ("description", vtext(), false), ("mimeType", vtext(), false)])
}
pub fn result(method: &str) -> BoxedStrategy<Value> {
    match method {
        "initialize" => obj(vec![("protocolVersion", version(), true), ("capabilities", server_caps(), true), ("serverInfo", implementation(), true), ("instructions", vtext(), false)]),
        "tools/list" => obj(vec![("tools", arr(tool_info(), 3), true), ("nextCursor", vtext(), false)]),
        "tools/call" => obj(vec![("content", arr(content(), 3), true), ("isError", vbool(), true)]),
        "prompts/list" => obj(vec![("prompts", arr(prompt_info(), 3), true), ("nextCursor", vtext(), false)]),
        "prompts/get" => obj(vec![("description", vtext(), false), ("messages", arr(message(), 3), true)]),
        "resources/list" => obj(vec![("resources", arr(resource_info(), 3), true), ("nextCursor", vtext(), false)]),
        "resources/templates/list" => obj(vec![
            ("resourceTemplates", arr(obj(vec![("uriTemplate", vtext(), true), ("name", vtext(), true), ("description", vtext(), false), ("mimeType", vtext(), false)]), 3), true),
            ("nextCursor", vtext(), false),
        ]),
        "resources/read" => obj(vec![("contents", arr(content(), 3), true)]),
        "completion/complete" => obj(vec![("completion", obj(vec![("values", strs(3), true), ("total", (0u64..100_000).prop_map(Value::from).boxed(), false), ("hasMore", vbool(), true)]), true)]),
        "sampling/createMessage" => obj(vec![
            ("content", content(), true),
            ("model", vtext(), true),
            ("usage", obj(vec![("inputTokens", vu32(), true), ("outputTokens", vu32(), true), ("totalTokens", vu32(), true)]), false),
            ("stopReason", vtext(), false),
        ]),
        _ => panic!("no result for {method}"),
    }
}
fn conv<T: W + serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Result<(Value, Value), String> {
    let t: T = W::i(v);
    let ser = serde_json::to_string(&t).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_str(&ser).map_err(|e| format!("{e} in {ser}"))?;
    Ok((serde_json::from_str(&ser).unwrap(), back.o()))
}
/// (serialised form, model of the parsed-back value) for a typed result
pub fn result_roundtrip(method: &str, v: &Value) -> Result<(Value, Value), String> {
    match method {
        "initialize" => conv::<InitializeResult>(v),
        "tools/list" => conv::<ListToolsResult>(v),
        "tools/call" => conv::<CallToolResult>(v),
        "prompts/list" => conv::<ListPromptsResult>(v),
        "prompts/get" => conv::<GetPromptResult>(v),
        "resources/list" => conv::<ListResourcesResult>(v),
        "resources/templates/list" => conv::<ListResourceTemplatesResult>(v),
        "resources/read" => conv::<ReadResourceResult>(v),
        "completion/complete" => conv::<CompleteResult>(v),
        "sampling/createMessage" => conv::<CreateMessageResult>(v),
        _ => panic!(),
    }
}
