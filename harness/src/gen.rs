//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;
use serde_json::{json, Map, Value};

pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        8 => proptest::char::range('a', 'z'),
        3 => proptest::char::range(' ', '~'),
        2 => prop::sample::select(vec!['"', '\\', '/', '\n', '\r', '\t', '\0', ' ', '\u{7f}', '\u{1f}', '%', '&', '=', '+', '?', '#', '{', '}', ',', ':']),
        2 => prop::sample::select(vec!['é', 'ß', 'Ж', '世', '界', '\u{2028}', '\u{feff}', '🦀', '\u{10ffff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{300}', 'İ']),
        1 => any::<char>(),
    ]
    .boxed()
}
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(ch(), 0..12).prop_map(|v| v.into_iter().collect()),
        1 => vec(ch(), 0..80).prop_map(|v| v.into_iter().collect()),
        1 => Just(String::new()),
        1 => prop::sample::select(vec!["0", "1", "-1", "null", "true", "false", " ", "undefined", "[]", "{}", "None", "00", "1.5", "\t", ".", "..", "/"]).prop_map(String::from),
    ]
    .boxed()
}
/// short identifier from a small pool (collisions wanted)
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "c", "tool", "A", "a b", "é", ""]).prop_map(String::from),
        1 => text(),
    ]
    .boxed()
}
pub fn ident() -> BoxedStrategy<String> {
    "[a-z][a-z0-9_]{0,6}".boxed()
}
pub fn int() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => -20i64..2000,
        1 => any::<i64>(),
        1 => prop::sample::select(vec![0, -1, 1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, (1 << 53) + 1]),
    ]
    .boxed()
}
/// f64 exactly representable with a short decimal form (k/64)
pub fn flt() -> BoxedStrategy<f64> {
    (-100_000i64..100_000).prop_map(|k| k as f64 / 64.0).boxed()
}
pub fn scalar() -> BoxedStrategy<Value> {
    prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(Value::from),
        3 => int().prop_map(Value::from),
        1 => any::<u64>().prop_map(Value::from),
        1 => flt().prop_map(Value::from),
        4 => text().prop_map(Value::from),
    ]
    .boxed()
}
pub fn jval() -> BoxedStrategy<Value> {
    scalar()
        .prop_recursive(3, 16, 4, |inner| {
            prop_oneof![
                1 => vec(inner.clone(), 0..4).prop_map(Value::from),
                2 => vec((text(), inner), 0..4).prop_map(|v| Value::Object(v.into_iter().collect())),
            ]
        })
        .boxed()
}
pub fn jobj() -> BoxedStrategy<Value> {
    vec((text(), jval()), 0..4).prop_map(|v| Value::Object(v.into_iter().collect::<Map<_, _>>())).boxed()
}
pub fn nonnull() -> BoxedStrategy<Value> {
    jval().prop_map(|v| if v.is_null() { json!({}) } else { v }).boxed()
}
/// request ids: integers and strings (also numeric-looking ones)
pub fn rid() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => int().prop_map(Value::from),
        1 => (0i64..6).prop_map(Value::from),
        2 => text().prop_map(Value::from),
        1 => (0i64..6).prop_map(|n| Value::from(n.to_string())),
        1 => prop_oneof![any::<i64>().prop_map(|n| n.to_string()), any::<u64>().prop_map(|n| n.to_string()), (0i64..60).prop_map(|n| format!("0{n}")), (0i64..60).prop_map(|n| format!("-{n}"))].prop_map(Value::from),
    ]
    .boxed()
}
/// object from fields: (name, strategy, required). Optional fields appear half of the time, never as null.
pub fn obj(fields: Vec<(&'static str, BoxedStrategy<Value>, bool)>) -> BoxedStrategy<Value> {
    let mut acc: BoxedStrategy<Map<String, Value>> = Just(Map::new()).boxed();
    for (n, s, req) in fields {
        let o: BoxedStrategy<Option<Value>> =
            if req { s.prop_map(Some).boxed() } else { prop::option::of(s).boxed() };
        acc = (acc, o)
            .prop_map(move |(mut m, v)| {
                if let Some(v) = v {
                    m.insert(n.to_string(), v);
                }
                m
            })
            .boxed();
    }
    acc.prop_map(Value::Object).boxed()
}
pub fn arr(s: BoxedStrategy<Value>, max: usize) -> BoxedStrategy<Value> {
    vec(s, 0..=max).prop_map(Value::from).boxed()
}
pub fn vtext() -> BoxedStrategy<Value> {
    text().prop_map(Value::from).boxed()
}
pub fn vint() -> BoxedStrategy<Value> {
    int().prop_map(Value::from).boxed()
}
pub fn vflt() -> BoxedStrategy<Value> {
    flt().prop_map(Value::from).boxed()
}
pub fn vbool() -> BoxedStrategy<Value> {
    any::<bool>().prop_map(Value::from).boxed()
}
pub fn pick(v: &'static [&'static str]) -> BoxedStrategy<Value> {
    prop::sample::select(v).prop_map(Value::from).boxed()
}
/// structural JSON equality in which integers and floats never mix
pub fn same(a: &Value, b: &Value) -> bool {
    a == b
}
/// byte strings around vector widths
pub fn simd_bytes(alphabet: &'static [u8]) -> BoxedStrategy<Vec<u8>> {
    let len = prop_oneof![
        3 => 0usize..100,
        3 => prop::sample::select(vec![31usize, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 160]),
        1 => 100usize..400,
    ];
    (len, 0u8..4)
        .prop_flat_map(move |(n, mode)| {
            let b: BoxedStrategy<u8> = match mode {
                0 => any::<u8>().boxed(),
                1 => prop::sample::select(alphabet).boxed(),
                2 => prop_oneof![20 => Just(b'x'), 1 => prop::sample::select(alphabet)].boxed(),
                _ => prop_oneof![4 => proptest::num::u8::ANY, 4 => prop::sample::select(alphabet), 4 => Just(b'z')].boxed(),
            };
            vec(b, n)
        })
        .boxed()
}
/// order-independent text of a JSON value
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<(&String, String)> = m.iter().map(|(k, v)| (k, canon(v))).collect();
            k.sort();
            format!("{k:?}")
        },
        Value::Array(a) => format!("{:?}", a.iter().map(canon).collect::<Vec<_>>()),
        _ => v.to_string(),
    }
}
