//! C42: handlers made by the `tool` macro, against calling the function itself.
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::{RequestHandlerExtra, ToolHandler};
use pmcp_macros::tool;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
#[serde(rename_all = "camelCase")]
struct Inner {
    first_name: String,
    #[serde(default)]
    age: Option<u8>,
    #[serde(default)]
    tags: Vec<String>,
}
#[derive(Debug, Clone, Copy, Deserialize, Serialize, PartialEq)]
#[serde(rename_all = "lowercase")]
enum Kind {
    Small,
    Large,
}
#[derive(Debug)]
struct MyError(String);
impl std::fmt::Display for MyError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "my error: {}", self.0)
    }
}

#[tool(description = "Adds")]
fn add_two(a: i32, b: i32) -> i64 {
    i64::from(a) + i64::from(b)
}
#[tool(name = "math.div", description = "Divides \"a\" by b")]
fn divide(a: f64, b: f64) -> Result<f64, String> {
    if b == 0.0 {
        Err(format!("division of {a} by zero"))
    } else {
        Ok(a / b)
    }
}
#[tool(description = "Greets", name = "")]
async fn greet(name: String, title: Option<String>, mut times: Option<u8>) -> String {
    tokio::task::yield_now().await;
    times = times.map(|t| t % 3);
    format!("{title:?} {name} {times:?}")
}
#[tool(description = "Describes a person", annotations(category = "x", read_only = true))]
async fn describe(person: Inner, kind: Kind) -> Result<Inner, MyError> {
    if kind == Kind::Small && person.age.is_none() {
        return Err(MyError(person.first_name));
    }
    Ok(Inner { age: person.age.map(|a| a / 2), ..person })
}
#[tool(description = "")]
fn nothing() {}
#[tool(description = "Counts é 🦀\nlines")]
fn count(items: Vec<i64>, by_name: BTreeMap<String, Value>, flag: bool) -> (usize, usize, bool) {
    (items.len(), by_name.len(), !flag)
}
#[tool(description = "Gives back what it got")]
async fn echo(value: Value, wrapped: Option<Value>) -> Result<Value, String> {
    Ok(json!([value, wrapped]))
}
#[tool(description = "Names that need care")]
fn odd_names(args: String, result: Option<i32>, r#type: Option<bool>, name: char) -> Option<String> {
    let r#type = r#type?;
    Some(format!("{args} {result:?} {type} {name}"))
}
#[tool(description = "All optional")]
fn maybe(a: Option<i64>, b: Option<Vec<Kind>>, c: Option<Inner>) -> Result<String, String> {
    if a == Some(0) {
        return Err(String::new());
    }
    Ok(format!("{a:?} {b:?} {c:?}"))
}
#[tool(description = "Fails")]
async fn r#loop(why: String) -> Result<(), MyError> {
    Err(MyError(why))
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Value(Value),
    /// the function's own error
    Error(String),
    /// refused for this argument
    Refused(&'static str),
}
trait Arg: Sized {
    fn take(a: &Value, k: &'static str) -> Result<Self, Want>;
}
struct Req<T>(T);
struct Opt<T>(Option<T>);
impl<T: serde::de::DeserializeOwned> Arg for Req<T> {
    fn take(a: &Value, k: &'static str) -> Result<Self, Want> {
        let v = a.get(k).ok_or(Want::Refused(k))?;
        serde_json::from_value(v.clone()).map(Req).map_err(|_| Want::Refused(k))
    }
}
impl<T: serde::de::DeserializeOwned> Arg for Opt<T> {
    fn take(a: &Value, k: &'static str) -> Result<Self, Want> {
        match a.get(k) {
            None | Some(Value::Null) => Ok(Opt(None)),
            Some(v) => serde_json::from_value(v.clone()).map(|x| Opt(Some(x))).map_err(|_| Want::Refused(k)),
        }
    }
}
fn req<T: serde::de::DeserializeOwned>(a: &Value, k: &'static str) -> Result<T, Want> {
    Req::take(a, k).map(|r| r.0)
}
fn opt<T: serde::de::DeserializeOwned>(a: &Value, k: &'static str) -> Result<Option<T>, Want> {
    Opt::take(a, k).map(|r| r.0)
}
fn val<T: Serialize>(t: T) -> Want {
    Want::Value(serde_json::to_value(t).unwrap())
}
fn res<T: Serialize, E: ToString>(r: Result<T, E>) -> Want {
    match r {
        Ok(t) => val(t),
        Err(e) => Want::Error(e.to_string()),
    }
}
/// What the function itself gives for these arguments.
async fn direct(f: usize, a: &Value) -> Result<Want, Want> {
    Ok(match f {
        0 => val(add_two(req(a, "a")?, req(a, "b")?)),
        1 => res(divide(req(a, "a")?, req(a, "b")?)),
        2 => val(greet(req(a, "name")?, opt(a, "title")?, opt(a, "times")?).await),
        3 => res(describe(req(a, "person")?, req(a, "kind")?).await),
        4 => val({
            let () = nothing();
        }),
        5 => val(count(req(a, "items")?, req(a, "by_name")?, req(a, "flag")?)),
        6 => res(echo(req(a, "value")?, opt(a, "wrapped")?).await),
        7 => val(odd_names(req(a, "args")?, opt(a, "result")?, opt(a, "type")?, req(a, "name")?)),
        8 => res(maybe(opt(a, "a")?, opt(a, "b")?, opt(a, "c")?)),
        _ => res(r#loop(req(a, "why")?).await),
    })
}
fn handler(f: usize) -> (Box<dyn ToolHandler>, pmcp::ToolInfo) {
    match f {
        0 => (Box::new(AddTwoToolHandler), AddTwoToolHandler::definition()),
        1 => (Box::new(DivideToolHandler), DivideToolHandler::definition()),
        2 => (Box::new(GreetToolHandler), GreetToolHandler::definition()),
        3 => (Box::new(DescribeToolHandler), DescribeToolHandler::definition()),
        4 => (Box::new(NothingToolHandler), NothingToolHandler::definition()),
        5 => (Box::new(CountToolHandler), CountToolHandler::definition()),
        6 => (Box::new(EchoToolHandler), EchoToolHandler::definition()),
        7 => (Box::new(OddNamesToolHandler), OddNamesToolHandler::definition()),
        8 => (Box::new(MaybeToolHandler), MaybeToolHandler::definition()),
        _ => (Box::new(LoopToolHandler), LoopToolHandler::definition()),
    }
}
const NAMES: [(&str, &str); 10] = [
    ("add_two", "Adds"),
    ("math.div", "Divides \"a\" by b"),
    ("", "Greets"),
    ("describe", "Describes a person"),
    ("nothing", ""),
    ("count", "Counts é 🦀\nlines"),
    ("echo", "Gives back what it got"),
    ("odd_names", "Names that need care"),
    ("maybe", "All optional"),
    ("loop", "Fails"),
];
fn inner() -> BoxedStrategy<Value> {
    obj(vec![
        ("firstName", vtext(), true),
        ("age", prop_oneof![4 => (0i64..300).prop_map(Value::from), 1 => Just(Value::Null)].boxed(), false),
        ("tags", arr(vtext(), 3), false),
    ])
}
fn good(f: usize) -> Vec<(&'static str, BoxedStrategy<Value>)> {
    let i = || prop_oneof![3 => (-3i64..4).prop_map(Value::from), 1 => vint(), 1 => prop::sample::select(vec![i64::from(i32::MAX), i64::from(i32::MIN), i64::from(i32::MAX) + 1, i64::MIN]).prop_map(Value::from)].boxed();
    let fl = || prop_oneof![3 => (-3i64..4).prop_map(Value::from), 2 => (-1e3..1e3f64).prop_map(Value::from), 1 => Just(json!(0.0))].boxed();
    let b = || any::<bool>().prop_map(Value::from).boxed();
    let kind = || pick(&["small", "large", "Small"]);
    match f {
        0 => vec![("a", i()), ("b", i())],
        1 => vec![("a", fl()), ("b", fl())],
        2 => vec![("name", vtext()), ("title", vtext()), ("times", (0i64..300).prop_map(Value::from).boxed())],
        3 => vec![("person", inner()), ("kind", kind())],
        4 => vec![],
        5 => vec![("items", arr(i(), 4)), ("by_name", jobj()), ("flag", b())],
        6 => vec![("value", jval()), ("wrapped", jval())],
        7 => vec![("args", vtext()), ("result", i()), ("type", b()), ("name", prop_oneof![Just(json!("x")), Just(json!("é")), vtext()].boxed())],
        8 => vec![("a", i()), ("b", arr(kind(), 3)), ("c", inner())],
        _ => vec![("why", vtext())],
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    f: usize,
    args: Value,
}
fn case() -> BoxedStrategy<Case> {
    (0..NAMES.len())
        .prop_flat_map(|f| {
            let mut s: BoxedStrategy<Vec<(String, Option<Value>)>> = Just(vec![]).boxed();
            for (k, v) in good(f) {
                let one = prop_oneof![
                    16 => v.prop_map(Some),
                    1 => Just(None),
                    1 => Just(Some(Value::Null)),
                    2 => jval().prop_map(Some),
                ];
                s = (s, one)
                    .prop_map(move |(mut l, v)| {
                        l.push((k.to_string(), v));
                        l
                    })
                    .boxed();
            }
            let extra = prop::option::weighted(0.3, (prop_oneof![name(), Just("r#type".to_string()), Just("params".to_string())], jval()));
            (Just(f), s, extra, prop::bool::weighted(0.03)).prop_map(|(f, l, e, null)| {
                let mut m: serde_json::Map<String, Value> = e.into_iter().collect();
                for (k, v) in l {
                    match v {
                        Some(v) => {
                            m.insert(k, v);
                        },
                        None => {
                            m.remove(&k);
                        },
                    }
                }
                Case { f, args: if null { Value::Null } else { Value::Object(m) } }
            })
        })
        .boxed()
}
fn run(c: &Case) -> CaseResult {
    let (h, info) = handler(c.f);
    let (name, about) = NAMES[c.f];
    ensure_eq!(info.name, name, "definition-name", "name advertised");
    ensure_eq!(info.description.as_deref(), Some(about), "definition-description", "description of {name:?} advertised");
    ensure!(info.input_schema["type"] == "object", "definition-schema", "schema of {name:?}: {}", info.input_schema);
    let (want, got) = vrt(async {
        let want = direct(c.f, &c.args).await.unwrap_or_else(|w| w);
        let extra = RequestHandlerExtra::new("1".into(), tokio_util::sync::CancellationToken::new());
        (want, h.handle(c.args.clone(), extra).await)
    });
    match (&want, got) {
        (Want::Value(v), Ok(g)) => ensure!(canon(v) == canon(&g), "result", "{name:?} gave {g}, the function {v} for {}", c.args),
        (Want::Error(m), Err(e)) => ensure!(e.to_string().contains(m.as_str()), "error-message", "{name:?}: {e}, the function failed with {m:?}"),
        (Want::Refused(_), Err(_)) => {},
        (w, g) => fail!("outcome", "{name:?} on {}: {g:?}, expected {w:?}", c.args),
    }
    Ok(Info::nt(!matches!(want, Want::Refused(_)) && c.f != 4)
        .label(matches!(want, Want::Refused(_)), "missing or ill-typed argument")
        .label(matches!(want, Want::Error(_)), "the function failed"))
}
pub fn c42(c: &mut Ctx) {
    c.check(sub("tools", 40_000, "the function was called with arguments"), case, run);
}
