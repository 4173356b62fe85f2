//! C11 SSE, C12 URI templates.
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::shared::sse_parser::{SseEvent, SseParser, SseStream};
use pmcp::shared::UriTemplate;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Ev {
    id: Option<String>,
    event: Option<String>,
    data: String,
    retry: Option<u64>,
}
impl From<&SseEvent> for Ev {
    fn from(e: &SseEvent) -> Self {
        Ev { id: e.id.clone(), event: e.event.clone(), data: e.data.clone(), retry: e.retry }
    }
}
/// WHATWG event-stream interpretation (LF and CRLF line ends), plus the last event id after the stream.
fn reference(s: &str) -> (Vec<Ev>, Option<String>) {
    let mut out = vec![];
    let (mut data, mut event, mut id, mut retry): (Option<String>, Option<String>, Option<String>, Option<u64>) = (None, None, None, None);
    let mut last: Option<String> = None;
    let mut lines: Vec<&str> = s.split('\n').collect();
    lines.pop(); // the unterminated rest
    for l in lines {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.is_empty() {
            if let Some(i) = id.take() {
                last = Some(i);
            }
            if let Some(d) = data.take() {
                out.push(Ev { id: last.clone(), event: event.take(), data: d, retry: retry.take() });
            }
            event = None;
            retry = None;
            continue;
        }
        if l.starts_with(':') {
            continue;
        }
        let (f, v) = match l.split_once(':') {
            Some((f, v)) => (f, v.strip_prefix(' ').unwrap_or(v)),
            None => (l, ""),
        };
        match f {
            "data" => match &mut data {
                Some(d) => {
                    d.push('\n');
                    d.push_str(v);
                },
                None => data = Some(v.to_string()),
            },
            "event" => event = Some(v.to_string()),
            "id" if !v.contains('\0') => id = Some(v.to_string()),
            "retry" if !v.is_empty() && v.chars().all(|c| c.is_ascii_digit()) => {
                if let Ok(n) = v.parse() {
                    retry = Some(n);
                }
            },
            _ => {},
        }
    }
    (out, last)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stream {
    text: String,
    cuts: Vec<u16>,
}
fn stream() -> BoxedStrategy<Stream> {
    let val = prop_oneof![6 => text().prop_map(|t| t.replace('\n', "")), 1 => Just(String::new()), 2 => prop::sample::select(vec!["5", "+5", "007", "18446744073709551615", "18446744073709551616", "5 ", "-1", "5x"]).prop_map(String::from)];
    let field = prop_oneof![
        8 => prop::sample::select(vec!["data", "id", "event", "retry"]).prop_map(String::from),
        1 => prop::sample::select(vec!["Data", "dat", " data", "data ", "foo", "", "ïd"]).prop_map(String::from),
        1 => text().prop_map(|t| t.replace('\n', "")),
    ];
    let line = prop_oneof![
        8 => (field, prop::sample::select(vec![":", ": ", ":  ", " :", ""]), val).prop_map(|(f, s, v)| if s.is_empty() { f } else { format!("{f}{s}{v}") }),
        1 => text().prop_map(|t| format!(":{}", t.replace('\n', ""))),
        4 => Just(String::new()),
    ];
    let nl = prop_oneof![4 => Just("\n"), 2 => Just("\r\n")];
    (vec((line, nl), 0..14), any::<bool>(), vec(any::<u16>(), 0..6))
        .prop_map(|(ls, cutend, cuts)| {
            let mut s: String = ls.into_iter().map(|(l, n)| format!("{l}{n}")).collect();
            if cutend {
                s.pop();
            }
            let text = s.trim_start_matches('\u{feff}').to_string();
            Stream { text, cuts }
        })
        .boxed()
}
fn chunks(s: &str, cuts: &[u16]) -> Vec<String> {
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (s.len() + 1)).filter(|i| s.is_char_boundary(*i)).collect();
    at.push(s.len());
    at.sort_unstable();
    let mut out = vec![];
    let mut p = 0;
    for a in at {
        out.push(s[p..a].to_string());
        p = a;
    }
    out
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Evs(Vec<Ev>);

pub fn c11(c: &mut Ctx) {
    c.check(sub("parse", 60_000, "the stream dispatches at least one event"), stream, |s: &Stream| {
        let (want, last) = reference(&s.text);
        let mut p = SseParser::new();
        let mut got: Vec<Ev> = vec![];
        let ch = chunks(&s.text, &s.cuts);
        for x in &ch {
            got.extend(p.feed(x).iter().map(Ev::from));
        }
        ensure!(got == want, "events", "stream {:?} in chunks {:?}: got {:?}, expected {:?}", s.text, ch, got, want);
        ensure_eq!(p.last_event_id().map(String::from), last, "last-id", "last event id of {:?}", s.text);
        Ok(Info::nt(!want.is_empty())
            .label(ch.len() > 1 && !want.is_empty(), "chunked")
            .label(s.text.contains("\r\n") && !s.text.is_ascii(), "crlf+multibyte")
            .label(want.len() > 1, "several events"))
    });
    c.check(sub("bytewise", 10_000, "the stream dispatches at least one event"), stream, |s: &Stream| {
        let (want, _) = reference(&s.text);
        let mut p = SseParser::new();
        let mut got: Vec<Ev> = vec![];
        let mut b = [0u8; 4];
        for ch in s.text.chars() {
            got.extend(p.feed(ch.encode_utf8(&mut b)).iter().map(Ev::from));
        }
        ensure!(got == want, "events", "stream {:?} fed per character: got {:?}, expected {:?}", s.text, got, want);
        Ok(Info::nt(!want.is_empty()))
    });
    c.check(
        sub("roundtrip", 30_000, "an event with several data lines or metadata"),
        || {
            let t = || text().prop_map(|t| t.replace(['\n', '\r', '\0'], "")).boxed();
            let data = vec(prop_oneof![3 => t(), 1 => Just(String::new())], 1..4).prop_map(|v| v.join("\n"));
            let strip = |o: Option<String>| o.map(|s: String| s.to_string());
            vec((prop::option::of(t()), prop::option::of(t()), data, prop::option::of(any::<u64>())).prop_map(move |(id, event, data, retry)| Ev { id: strip(id), event, data, retry }), 0..5).prop_map(Evs).boxed()
        },
        |evs: &Evs| {
            let mut st = SseStream::new();
            let mut single = String::new();
            for e in &evs.0 {
                let mut x = SseEvent::new(e.data.clone());
                if let Some(i) = &e.id {
                    x = x.with_id(i.clone());
                }
                if let Some(i) = &e.event {
                    x = x.with_event(i.clone());
                }
                if let Some(i) = e.retry {
                    x = x.with_retry(i);
                }
                single.push_str(&x.to_string());
                st = st.event(x);
            }
            let whole = st.build();
            ensure_eq!(whole, single, "build", "stream of the rendered events");
            let mut last = None;
            let want: Vec<Ev> = evs
                .0
                .iter()
                .cloned()
                .map(|mut e| {
                    if e.id.is_some() {
                        last = e.id.clone();
                    }
                    e.id = last.clone();
                    e
                })
                .collect();
            let got: Vec<Ev> = SseParser::new().feed(&whole).iter().map(Ev::from).collect();
            ensure!(got == want, "roundtrip", "{whole:?} parsed as {got:?}, expected {want:?}");
            Ok(Info::nt(evs.0.iter().any(|e| e.data.contains('\n') || e.id.is_some() || e.retry.is_some())))
        },
    );
    c.check(sub("reset", 10_000, "reset after a partial event"), || (stream(), stream()).boxed(), |(a, b): &(Stream, Stream)| {
        // after reset the next stream is read afresh, keeping only the last event id
        let mut p = SseParser::new();
        // the first stream may stop anywhere, even inside a character
        let cut = a.cuts.first().map_or(a.text.len(), |c| *c as usize % (a.text.len() + 1));
        let part = &a.text.as_bytes()[..cut];
        p.feed_bytes(part);
        p.reset();
        let known = match std::str::from_utf8(part) {
            Ok(s) => s,
            Err(e) => &a.text[..e.valid_up_to()],
        };
        let (_, last) = reference(known);
        let mut want = reference(&b.text).0;
        let mut seen = None;
        for e in &mut want {
            if e.id.is_none() {
                e.id = last.clone();
            }
            seen = e.id.clone();
        }
        let _ = seen;
        let got: Vec<Ev> = p.feed(&b.text).iter().map(Ev::from).collect();
        ensure!(got == want, "reset", "after {:?} and reset, {:?} gives {:?}, expected {:?}", String::from_utf8_lossy(part), b.text, got, want);
        Ok(Info::nt(!want.is_empty() && !a.text.is_empty()))
    });
}

// ---------------- C12 ----------------
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Part {
    Lit(String),
    Expr { op: char, vars: Vec<(String, Option<usize>, bool)> },
}
fn render(ps: &[Part]) -> String {
    let mut s = String::new();
    for p in ps {
        match p {
            Part::Lit(l) => s.push_str(l),
            Part::Expr { op, vars } => {
                s.push('{');
                if *op != ' ' {
                    s.push(*op);
                }
                let v: Vec<String> = vars.iter().map(|(n, p, e)| format!("{n}{}{}", p.map(|p| format!(":{p}")).unwrap_or_default(), if *e && p.is_none() { "*" } else { "" })).collect();
                s.push_str(&v.join(","));
                s.push('}');
            },
        }
    }
    s
}
fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-._~".contains(&b)
}
fn enc(v: &str, reserved: bool) -> String {
    let b = v.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let trip = b[i] == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit();
        if reserved && trip {
            o.push_str(&v[i..i + 3]);
            i += 3;
            continue;
        }
        if unreserved(b[i]) || (reserved && b":/?#[]@!$&'()*+,;=".contains(&b[i])) {
            o.push(b[i] as char);
        } else {
            o.push_str(&format!("%{:02X}", b[i]));
        }
        i += 1;
    }
    o
}
/// RFC 6570 appendix A for string values
fn expand(ps: &[Part], vars: &HashMap<String, String>) -> String {
    let mut out = String::new();
    for p in ps {
        match p {
            Part::Lit(l) => out.push_str(l),
            Part::Expr { op, vars: vs } => {
                let (first, sep, named, ifemp, res) = match op {
                    ' ' => ("", ",", false, "", false),
                    '+' => ("", ",", false, "", true),
                    '#' => ("#", ",", false, "", true),
                    '.' => (".", ".", false, "", false),
                    '/' => ("/", "/", false, "", false),
                    ';' => (";", ";", true, "", false),
                    '?' => ("?", "&", true, "=", false),
                    _ => ("&", "&", true, "=", false),
                };
                let mut any = false;
                for (n, pre, _) in vs {
                    let Some(v) = vars.get(n) else { continue };
                    out.push_str(if any { sep } else { first });
                    any = true;
                    let v: String = match pre {
                        Some(k) => v.chars().take(*k).collect(),
                        None => v.clone(),
                    };
                    if named {
                        out.push_str(n);
                        if v.is_empty() {
                            out.push_str(ifemp);
                        } else {
                            out.push('=');
                            out.push_str(&enc(&v, res));
                        }
                    } else {
                        out.push_str(&enc(&v, res));
                    }
                }
            },
        }
    }
    out
}
fn lit() -> BoxedStrategy<String> {
    let c = prop_oneof![6 => "[a-z/]", 2 => "[A-Z0-9._~:?#@!$&'()*+,;=/\\[\\]-]", 1 => Just("%41".to_string()), 1 => Just("%C3%A9".to_string())];
    vec(c, 0..8).prop_map(|v| v.concat()).boxed()
}
fn var() -> BoxedStrategy<String> {
    prop_oneof![8 => prop::sample::select(vec!["x", "y", "id", "q", "X_1"]).prop_map(String::from), 1 => "[a-zA-Z_][a-zA-Z0-9_]{0,5}"].boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tpl {
    parts: Vec<Part>,
    vars: Vec<(String, String)>,
}
fn tpl() -> BoxedStrategy<Tpl> {
    let expr = (prop::sample::select(vec![' ', '+', '#', '.', '/', ';', '?', '&']), vec((var(), prop::option::weighted(0.3, prop_oneof![1usize..6, 1usize..10000]), any::<bool>()), 1..4)).prop_map(|(op, vars)| Part::Expr { op, vars });
    let part = prop_oneof![2 => lit().prop_map(Part::Lit), 3 => expr];
    let val = prop_oneof![5 => text(), 1 => Just("100%".to_string()), 1 => Just("a%2Fb%zz%4".to_string()), 1 => Just("a/b?c#d&e=f".to_string()), 1 => Just(String::new())];
    (vec(part, 0..6), vec((var(), val), 0..6))
        .prop_map(|(mut parts, mut vars)| {
            // a prefix on a reserved expansion of a value with '%' is where RFC 6570 leaves counting unclear
            let pre = parts.iter().any(|p| matches!(p, Part::Expr{op:'+'|'#',vars} if vars.iter().any(|v| v.1.is_some())));
            if pre {
                for v in &mut vars {
                    v.1 = v.1.replace('%', "");
                }
            }
            parts.retain(|p| !matches!(p, Part::Lit(l) if l.is_empty()));
            Tpl { parts, vars }
        })
        .boxed()
}
fn good_expr() -> BoxedStrategy<String> {
    let m = prop_oneof![4 => Just(String::new()), 1 => Just("*".to_string()), 2 => (1u32..10000).prop_map(|n| format!(":{n}"))];
    (prop::sample::select(vec!["", "+", "#", ".", "/", ";", "?", "&"]), vec((var(), m), 1..4))
        .prop_map(|(op, vs)| format!("{op}{}", vs.iter().map(|(v, m)| format!("{v}{m}")).collect::<Vec<_>>().join(",")))
        .boxed()
}
/// an expression RFC 6570 does not allow, whatever stands around it
fn bad_expr() -> BoxedStrategy<String> {
    let op = || prop::sample::select(vec!["", "+", "#", ".", "/", ";", "?", "&"]);
    let spec = prop_oneof![
        // a character no variable name may hold, at the start, inside or at the end
        4 => (var(), prop::sample::select("!\"'()<>@[]\\^`{|~=$-+#/;?&é\u{1F600}\u{301}ßⅨ٣".chars().collect::<Vec<_>>()), var(), 0u8..3).prop_map(|(a, c, b, k)| match k {
            0 => format!("{a}{c}{b}"),
            1 => format!("{a}{c}"),
            _ => format!("!{c}{b}"),
        }),
        1 => Just(String::new()),
        1 => Just("*".to_string()),
        1 => Just(":3".to_string()),
        3 => (var(), prop::sample::select(vec!["0", "", "00", "x", "3x", "-1", "1.5", "10001", "99999", "18446744073709551616", "٣", "3*", "3:4"])).prop_map(|(v, m)| format!("{v}:{m}")),
        1 => var().prop_map(|v| format!("{v}**")),
        1 => var().prop_map(|v| format!("{v}*:3")),
    ];
    let whole = (op(), vec(var(), 0..3), spec, any::<u8>()).prop_map(|(op, mut vs, s, at)| {
        let i = at as usize % (vs.len() + 1);
        vs.insert(i, s);
        format!("{op}{}", vs.join(","))
    });
    let reserved = (prop::sample::select(vec!['=', ',', '!', '@', '|']), var()).prop_map(|(c, v)| format!("{c}{v}"));
    prop_oneof![8 => whole, 1 => reserved]
        // `{}` stays a literal for this parser
        .prop_filter("empty", |s| !s.is_empty())
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MatchCase {
    segs: Vec<(String, Option<(String, String)>, String)>,
    tweak: Option<(u16, u8)>,
}

pub fn c12(c: &mut Ctx) {
    c.check(sub("expand", 60_000, "an expression with a defined variable"), tpl, |t: &Tpl| {
        let s = render(&t.parts);
        let map: HashMap<String, String> = t.vars.iter().cloned().collect();
        let want = expand(&t.parts, &map);
        let u = UriTemplate::new(s.clone()).map_err(|e| Fail::new("rejects", format!("template {s:?} rejected: {e}")))?;
        let got = u.expand_with_map(&map).map_err(|e| Fail::new("expand-err", format!("{s:?}: {e}")))?;
        ensure!(got == want, "expand", "{s:?} with {map:?} expands to {got:?}, RFC 6570 gives {want:?}");
        let got2 = u.expand(&t.vars).map_err(|e| Fail::new("expand-err", format!("{s:?}: {e}")))?;
        ensure_eq!(got2, want, "expand", "{s:?} with {:?} (slice form)", t.vars);
        let names: Vec<String> = t.parts.iter().flat_map(|p| match p { Part::Expr { vars, .. } => vars.iter().map(|v| v.0.clone()).collect(), _ => vec![] }).collect();
        ensure_eq!(u.variables(), names, "variables", "variables of {s:?}");
        ensure_eq!(u.to_string(), s, "display", "display");
        let j = serde_json::to_string(&u).unwrap();
        let back: UriTemplate = serde_json::from_str(&j).map_err(|e| Fail::new("serde", format!("{e}")))?;
        ensure!(back == u, "serde", "{s:?} came back from JSON as {back:?}");
        let _ = u.match_uri(&want);
        Ok(Info::nt(names.iter().any(|n| map.contains_key(n))).label(want.contains('%'), "encoded").label(t.parts.len() > 2, "composite"))
    });
    c.check(
        sub("match", 40_000, "at least one variable"),
        || {
            // one variable per path segment; literals are URI characters without '/' or '%'
            let l = || "[a-z0-9.:_~-]{0,4}".boxed();
            let val = prop_oneof![4 => text(), 1 => Just("a/b".to_string()), 1 => Just("%41".to_string()), 2 => "[a-z.]{1,4}"].prop_map(|t| if t.is_empty() { "v".into() } else { t });
            (vec((l(), prop::option::of(("[a-z]{1,3}", val)), l()), 1..5), prop::option::of((any::<u16>(), any::<u8>()))).prop_map(|(segs, tweak)| MatchCase { segs, tweak }).boxed()
        },
        |m: &MatchCase| {
            // distinct variable names
            let mut t = String::new();
            let mut vars: Vec<(String, String)> = vec![];
            for (i, (a, v, b)) in m.segs.iter().enumerate() {
                t.push('/');
                t.push_str(a);
                if let Some((n, x)) = v {
                    let n = format!("{n}{i}");
                    t.push_str(&format!("{{{n}}}"));
                    vars.push((n, x.clone()));
                }
                t.push_str(b);
            }
            let u = UriTemplate::new(t.clone()).map_err(|e| Fail::new("rejects", format!("{t:?}: {e}")))?;
            let map: HashMap<String, String> = vars.iter().cloned().collect();
            let uri = u.expand_with_map(&map).map_err(|e| Fail::new("expand-err", format!("{e}")))?;
            let got = u.match_uri(&uri);
            ensure!(got.as_ref() == Some(&map), "match-roundtrip", "{t:?} with {map:?} gives {uri:?}, which matches as {got:?}");
            // a damaged URI: decide by segment-wise matching
            if let Some((at, x)) = m.tweak {
                let mut b: Vec<char> = uri.chars().collect();
                let i = at as usize % b.len();
                match x % 4 {
                    0 => { b.remove(i); },
                    1 => b[i] = 'Z',
                    2 => b.insert(i, '/'),
                    _ => b.push('Z'),
                }
                let dam: String = b.into_iter().collect();
                let want = seg_match(m, &dam);
                let got = u.match_uri(&dam);
                ensure!(got.is_some() == want.is_some(), "match-decision", "{t:?} against {dam:?}: got {got:?}, expected {want:?}");
                if let (Some(g), Some(w)) = (&got, &want) {
                    for (k, raw) in w {
                        let dec = urlencoding::decode(raw).map(|d| d.into_owned());
                        if let Ok(d) = dec {
                            ensure!(g.get(k) == Some(&d), "match-value", "{t:?} against {dam:?}: {k} = {:?}, expected {d:?}", g.get(k));
                        }
                    }
                }
            }
            Ok(Info::nt(!vars.is_empty()).label(m.tweak.is_some(), "damaged"))
        },
    );
    c.check(
        sub("wellformed", 20_000, "the template holds an ill-formed expression"),
        || (vec((lit(), good_expr()), 0..3), prop::option::weighted(0.7, bad_expr()), any::<u8>(), lit()).boxed(),
        |(good, bad, at, tail): &(Vec<(String, String)>, Option<String>, u8, String)| {
            // one ill-formed expression anywhere makes the template invalid; without one it is accepted
            let mut parts: Vec<String> = good.iter().map(|(l, e)| format!("{l}{{{e}}}")).collect();
            if let Some(b) = bad {
                parts.insert(*at as usize % (parts.len() + 1), format!("{{{b}}}"));
            }
            let t = format!("{}{tail}", parts.concat());
            match (UriTemplate::new(t.clone()), bad) {
                (Ok(_), None) | (Err(_), Some(_)) => {},
                (Ok(u), Some(b)) => fail!("accepts-malformed", "template {t:?} with the ill-formed expression {b:?} was accepted as {u:?}"),
                (Err(e), None) => fail!("rejects", "template {t:?} rejected: {e}"),
            }
            let j: Result<UriTemplate, _> = serde_json::from_value(serde_json::json!(t));
            ensure!(j.is_ok() == bad.is_none(), "serde", "template {t:?} from JSON: {j:?}");
            Ok(Info::nt(bad.is_some()))
        },
    );
    c.check(
        sub("total", 40_000, "template contains a brace"),
        || {
            let junk = vec(prop_oneof![3 => prop::sample::select(vec!["{", "}", "{x}", "{+", "{?", ",", "*", ":", ":3", "{x:0}", "{x:10001}", "{x:9", "{é}", "{x,}", "{,x}", "{{x}}", "(", ")", "[", "\\", "$", "^", ".*", " ", "é", "{x*}", "{&a,b}", "x"]).prop_map(String::from), 1 => text()], 0..8).prop_map(|v| v.concat());
            (prop_oneof![3 => junk, 1 => text()], text(), text()).boxed()
        },
        |(t, v, uri): &(String, String, String)| {
            if let Ok(u) = UriTemplate::new(t.clone()) {
                let m: HashMap<String, String> = ["x", "a", "b"].iter().map(|k| (k.to_string(), v.clone())).collect();
                let _ = u.expand_with_map(&m);
                let _ = u.match_uri(uri);
                let _ = u.match_uri(t);
                let _ = u.variables();
            }
            Ok(Info::nt(t.contains('{') || t.contains('}')))
        },
    );
}
fn seg_match(m: &MatchCase, uri: &str) -> Option<HashMap<String, String>> {
    let rest = uri.strip_prefix('/')?;
    let us: Vec<&str> = rest.split('/').collect();
    if us.len() != m.segs.len() {
        return None;
    }
    let mut out = HashMap::new();
    for (i, ((a, v, b), u)) in m.segs.iter().zip(us).enumerate() {
        match v {
            None => {
                if u != format!("{a}{b}") {
                    return None;
                }
            },
            Some((n, _)) => {
                let mid = u.strip_prefix(a.as_str())?;
                let mid = mid.strip_suffix(b.as_str())?;
                if mid.is_empty() {
                    return None;
                }
                out.insert(format!("{n}{i}"), mid.to_string());
            },
        }
    }
    Some(out)
}
