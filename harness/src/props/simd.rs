//! C13, C14: vectorised primitives and fast JSON paths.
use crate::core::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};
use pmcp::simd::{batch, compression, json as sj, serialization};
use pmcp::utils::json_simd::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

const WS: &[u8] = b" \t\n\r";
const ESC: &[u8] = b"\\\"";

/// pieces of text and malformed UTF-8
fn utf8ish() -> BoxedStrategy<Vec<u8>> {
    let piece: BoxedStrategy<Vec<u8>> = prop_oneof![
        6 => vec(0x20u8..0x7f, 0..34),
        6 => ch().prop_map(|c| c.to_string().into_bytes()),
        1 => prop::sample::select(vec![
            vec![0xc0u8, 0x80], vec![0xc1, 0xbf], vec![0xe0, 0x80, 0x80], vec![0xe0, 0x9f, 0xbf], vec![0xed, 0xa0, 0x80],
            vec![0xed, 0x9f, 0xbf], vec![0xf0, 0x80, 0x80, 0x80], vec![0xf0, 0x8f, 0xbf, 0xbf], vec![0xf4, 0x90, 0x80, 0x80],
            vec![0xf5, 0x80, 0x80, 0x80], vec![0xf4, 0x8f, 0xbf, 0xbf], vec![0x80], vec![0xff], vec![0xfe], vec![0xc2],
            vec![0xe1, 0x80], vec![0xf1, 0x80, 0x80], vec![0xc2, 0x41], vec![0xf8, 0x88, 0x80, 0x80, 0x80],
        ]),
        1 => any::<u8>().prop_map(|b| vec![b]),
    ]
    .boxed();
    prop_oneof![
        3 => vec(piece, 0..10).prop_map(|v| v.concat()),
        2 => vec(ch(), 0..70).prop_map(|v| v.into_iter().collect::<String>().into_bytes()),
        2 => (0usize..70, ch(), 0usize..40).prop_map(|(a, c, b)| {
            let mut v = vec![b'a'; a];
            v.extend(c.to_string().bytes());
            v.extend(vec![b'b'; b]);
            v
        }),
        1 => (vec(ch(), 0..50), 0usize..60, any::<u8>()).prop_map(|(v, at, b)| {
            let mut v = v.into_iter().collect::<String>().into_bytes();
            if !v.is_empty() { let i = at % v.len(); v[i] = b; }
            v
        }),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lens {
    lens: Vec<u32>,
    max: u32,
}

pub fn c13(c: &mut Ctx) {
    let long = "length at least 32 (vector path taken) and at least one hit";
    c.check(sub("whitespace", 30_000, long), || simd_bytes(WS), |b: &Vec<u8>| {
        let want: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b' ' | b'\t' | b'\n' | b'\r')).collect();
        let got = unsafe { sj::find_whitespace_simd(b) };
        ensure_eq!(got, want, "whitespace", "find_whitespace_simd");
        Ok(Info::nt(b.len() >= 32 && !want.is_empty()).label(b.len() > 31 && want.iter().any(|p| p % 32 == 31), "hit in top lane"))
    });
    c.check(sub("escapes", 30_000, long), || simd_bytes(ESC), |b: &Vec<u8>| {
        let want: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'\\' || b[i] == b'"').collect();
        let got = unsafe { sj::find_escapes_simd(b) };
        ensure_eq!(got, want, "escapes", "find_escapes_simd");
        Ok(Info::nt(b.len() >= 32 && !want.is_empty()).label(b.len() > 31 && want.iter().any(|p| p % 32 == 31), "hit in top lane"))
    });
    c.check(sub("utf8", 60_000, "contains a non-ASCII byte"), utf8ish, |b: &Vec<u8>| {
        let want = std::str::from_utf8(b).is_ok();
        let got = unsafe { sj::validate_utf8_simd(b) };
        ensure_eq!(got, want, "utf8", "validate_utf8_simd({:02x?})", b);
        let nt = !b.is_ascii();
        Ok(Info::nt(nt).label(nt && want, "valid").label(!want, "invalid").label(b.len() >= 32, "vector"))
    });
    c.check(
        sub("pattern", 40_000, "needle occurs in a haystack of 32 bytes or more"),
        || {
            (simd_bytes(b"ab"), 0usize..400, 0usize..6, simd_bytes(b"ab"), any::<bool>())
                .prop_map(|(h, at, n, alt, inside)| {
                    let needle = if inside && !h.is_empty() {
                        let s = at % h.len();
                        h[s..(s + n).min(h.len())].to_vec()
                    } else {
                        alt.into_iter().take(n).collect()
                    };
                    (h, needle)
                })
                .boxed()
        },
        |(h, n): &(Vec<u8>, Vec<u8>)| {
            let want = if n.is_empty() || n.len() > h.len() { None } else { (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == &n[..]) };
            let got = unsafe { compression::find_pattern_simd(h, n) };
            ensure_eq!(got, want, "pattern", "find_pattern_simd({:?},{:?})", h, n);
            Ok(Info::nt(h.len() >= 32 && want.is_some()).label(want.is_none(), "absent"))
        },
    );
    c.check(
        sub("lengths", 20_000, "at least 8 lengths, results differ among them"),
        || {
            (vec(prop_oneof![any::<u32>(), 0u32..20, Just(10u32), Just(u32::MAX), Just(0x8000_0000u32)], 0..40), prop_oneof![any::<u32>(), 0u32..20, Just(10u32), Just(u32::MAX), Just(0x8000_0000u32)])
                .prop_map(|(lens, max)| Lens { lens, max })
                .boxed()
        },
        |l: &Lens| {
            let want: Vec<bool> = l.lens.iter().map(|x| *x <= l.max).collect();
            let got = unsafe { batch::batch_validate_lengths(&l.lens, l.max) };
            ensure_eq!(got, want, "lengths", "batch_validate_lengths({:?}, {})", l.lens, l.max);
            Ok(Info::nt(l.lens.len() >= 8 && want.contains(&true) && want.contains(&false)))
        },
    );
    c.check(
        sub("checksum", 8_000, "a buffer of 32 bytes or more with a remainder"),
        || vec(simd_bytes(&[0xff, 0x80]), 0..5).boxed(),
        |bs: &Vec<Vec<u8>>| {
            let refs: Vec<&[u8]> = bs.iter().map(|b| &b[..]).collect();
            let want: Vec<u32> = bs.iter().map(|b| b.iter().fold(0u32, |a, x| a.wrapping_add(u32::from(*x)))).collect();
            let got = unsafe { batch::batch_checksum_simd(&refs) };
            ensure_eq!(got, want, "checksum", "batch_checksum_simd");
            Ok(Info::nt(bs.iter().any(|b| b.len() > 32 && b.len() % 32 != 0)))
        },
    );
    c.check(
        sub("copy", 10_000, "longer than 32 bytes"),
        || (simd_bytes(b"ab"), 0usize..40).boxed(),
        |(src, extra): &(Vec<u8>, usize)| {
            let mut dst = vec![0xa5u8; src.len() + extra];
            unsafe { serialization::copy_simd(src, &mut dst) };
            ensure!(dst[..src.len()] == src[..], "copy", "copied bytes differ: {:?} vs {:?}", dst, src);
            ensure!(dst[src.len()..].iter().all(|b| *b == 0xa5), "copy", "bytes beyond the source were written");
            Ok(Info::nt(src.len() > 32))
        },
    );
    c.check(
        sub("xor_mask", 10_000, "longer than 32 bytes with a remainder"),
        || (simd_bytes(b"ab"), any::<[u8; 4]>()).boxed(),
        |(d, m): &(Vec<u8>, [u8; 4])| {
            let want: Vec<u8> = d.iter().enumerate().map(|(i, b)| b ^ m[i % 4]).collect();
            let mut got = d.clone();
            unsafe { serialization::xor_mask_simd(&mut got, *m) };
            ensure_eq!(got, want, "xor", "xor_mask_simd");
            Ok(Info::nt(d.len() > 32 && d.len() % 32 != 0))
        },
    );
    c.check(sub("base64", 10_000, "non-empty"), || simd_bytes(&[0, 0xff, 0x3f]), |b: &Vec<u8>| {
        use base64::Engine;
        let want = base64::engine::general_purpose::STANDARD.encode(b).into_bytes();
        let mut got = b"pre".to_vec();
        unsafe { serialization::base64_encode_simd(b, &mut got) };
        ensure!(got[..3] == b"pre"[..] && got[3..] == want[..], "base64", "base64_encode_simd({:?}) = {:?}", b, String::from_utf8_lossy(&got));
        Ok(Info::nt(!b.is_empty()).label(b.len() % 3 == 1, "mod1").label(b.len() % 3 == 2, "mod2"))
    });
    c.check(
        sub("rle", 20_000, "a run of 2 or more"),
        || vec((any::<bool>(), prop::sample::select(vec![1usize, 2, 3, 31, 32, 33, 40, 64, 254, 255, 256, 300, 510, 520])), 0..6)
            .prop_map(|v| v.into_iter().enumerate().flat_map(|(i, (b, n))| vec![if b { b'a' } else { i as u8 }; n]).collect::<Vec<u8>>())
            .boxed(),
        |b: &Vec<u8>| {
            let mut want = vec![];
            let mut i = 0;
            while i < b.len() {
                let mut n = 1;
                while i + n < b.len() && n < 255 && b[i + n] == b[i] {
                    n += 1;
                }
                want.extend([n as u8, b[i]]);
                i += n;
            }
            let mut got = vec![];
            unsafe { compression::rle_encode_simd(b, &mut got) };
            ensure_eq!(got, want, "rle", "rle_encode_simd of {} bytes", b.len());
            Ok(Info::nt(b.windows(2).any(|w| w[0] == w[1])))
        },
    );
}

/// JSON texts with arbitrary whitespace between tokens
fn spaced(v: &Value, ws: &mut dyn FnMut() -> &'static str, out: &mut String) {
    out.push_str(ws());
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                spaced(x, ws, out);
            }
            if a.is_empty() {
                out.push_str(ws());
            }
            out.push(']');
        },
        Value::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws());
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push_str(ws());
                out.push(':');
                spaced(x, ws, out);
            }
            if o.is_empty() {
                out.push_str(ws());
            }
            out.push('}');
        },
        x => out.push_str(&x.to_string()),
    }
    out.push_str(ws());
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    bytes: Vec<u8>,
}
fn texts() -> BoxedStrategy<Text> {
    const W: [&str; 8] = ["", "", "", " ", "\n", "\t", "  \r\n", "          "];
    let valid = (jval(), any::<u64>(), 1u64..9).prop_map(|(v, seed, dens)| {
        let mut s = seed;
        let mut out = String::new();
        spaced(&v, &mut || {
            s = splitmix(s);
            W[(s % dens) as usize % 8]
        }, &mut out);
        out.into_bytes()
    });
    let mutated = (valid.clone(), vec((any::<u16>(), 0u8..5, any::<u8>(), prop::sample::select(&b" \n\t\r\"\\{}[],:0123456789-+.eEtrufalsn"[..])), 0..4)).prop_map(|(mut b, ms)| {
        for (at, op, x, c) in ms {
            if b.is_empty() {
                break;
            }
            let i = at as usize % b.len();
            match op {
                0 => b.insert(i, c),
                1 => b.insert(i, b' '),
                2 => { b.remove(i); },
                3 => b[i] = c,
                _ => b[i] = x,
            }
        }
        b
    });
    // numbers and literals broken up by whitespace
    let broken = vec(prop::sample::select(vec!["1", "2", " ", "\n", "-", ".", "e", "true", "tr", "ue", "null", "\"a b\"", "\"", "[", "]", "{", "}", ",", ":"]), 0..12).prop_map(|v| v.concat().into_bytes());
    prop_oneof![4 => valid, 4 => mutated, 1 => broken].prop_map(|bytes| Text { bytes }).boxed()
}
fn kind(r: &Result<Value, serde_json::Error>) -> Option<Value> {
    r.as_ref().ok().cloned()
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Rec {
    name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    n: Option<i64>,
    list: Vec<Option<f64>>,
}

/// every element of a container on a line of its own, indented two spaces per level
fn layout(p: &str) -> Result<(), Fail> {
    let b = p.as_bytes();
    let (mut depth, mut instr, mut i) = (0usize, false, 0usize);
    while i < b.len() {
        let x = b[i];
        i += 1;
        if instr {
            match x {
                b'\\' => i += 1,
                b'"' => instr = false,
                _ => {},
            }
            continue;
        }
        match x {
            b'"' => instr = true,
            b'{' | b'[' => {
                depth += 1;
                let empty = b.get(i).is_some_and(|n| *n == x + 2);
                ensure!(empty || b.get(i) == Some(&b'\n'), "pretty-layout", "no new line after {:?} in {p:?}", x as char);
            },
            b'}' | b']' => depth = depth.saturating_sub(1),
            b',' => ensure!(b.get(i) == Some(&b'\n'), "pretty-layout", "no new line after a comma in {p:?}"),
            b'\n' => {
                let n = b[i..].iter().take_while(|c| **c == b' ').count();
                let next = b.get(i + n).copied();
                let want = if matches!(next, Some(b'}' | b']')) { depth.saturating_sub(1) } else { depth } * 2;
                ensure!(next == Some(b'\n') || n == want, "pretty-layout", "a line is indented by {n} spaces, not {want}, in {p:?}");
            },
            _ => {},
        }
    }
    Ok(())
}

pub fn c14(c: &mut Ctx) {
    c.check(sub("parse", 60_000, "accepted by the reference parser and containing whitespace, or rejected although non-empty"), texts, |t: &Text| {
        let want: Result<Value, _> = serde_json::from_slice(&t.bytes);
        let got: Result<Value, _> = parse_json_fast(&t.bytes);
        let txt = String::from_utf8_lossy(&t.bytes);
        match (&want, &got) {
            (Ok(_), Err(e)) => fail!("parse-rejects", "parse_json_fast rejects {txt:?}: {e}"),
            (Err(e), Ok(v)) => fail!("parse-accepts", "parse_json_fast accepts {txt:?} as {v} where the reference says {e}"),
            (Ok(a), Ok(b)) => ensure!(a == b, "parse-value", "parse_json_fast({txt:?}) = {b}, reference {a}"),
            _ => {},
        }
        let ws = t.bytes.iter().any(|b| WS.contains(b));
        Ok(Info::nt(want.is_ok() && ws || want.is_err() && !t.bytes.is_empty()).label(want.is_ok(), "accepted").label(t.bytes.len() >= 32, "vector"))
    });
    c.check(
        sub("typed", 15_000, "record with a list"),
        || (text(), prop::option::of(int()), vec(prop::option::of(flt()), 0..6)).prop_map(|(name, n, list)| Rec { name, n, list }).boxed(),
        |r: &Rec| {
            let b = serialize_json_fast(r).map_err(|e| Fail::new("serialize", format!("{e}")))?;
            ensure_eq!(b, serde_json::to_vec(r).unwrap(), "serialize", "serialize_json_fast");
            let back: Rec = parse_json_fast(&b).map_err(|e| Fail::new("typed-parse", format!("{e}")))?;
            ensure_eq!(back, *r, "typed", "round trip");
            Ok(Info::nt(!r.list.is_empty()))
        },
    );
    c.check(sub("serialize", 20_000, "value with an object, array or string"), jval, |v: &Value| {
        let b = serialize_json_fast(v).map_err(|e| Fail::new("serialize", format!("serialize_json_fast({v}) fails: {e}")))?;
        let back: Value = serde_json::from_slice(&b).map_err(|e| Fail::new("serialize", format!("{v}: {e}")))?;
        ensure!(back == *v, "serialize", "{v} came back as {back}");
        Ok(Info::nt(!v.is_null() && !v.is_number() && !v.is_boolean()))
    });
    c.check(sub("pretty", 20_000, "value with a container or a non-ASCII string"), jval, |v: &Value| {
        let p = pretty_print_fast(v).map_err(|e| Fail::new("pretty", format!("pretty_print_fast({v}) fails: {e}")))?;
        let back: Value = serde_json::from_str(&p).map_err(|e| Fail::new("pretty", format!("pretty form of {v} is not JSON ({e}): {p:?}")))?;
        ensure!(back == *v, "pretty", "pretty form of {v} parses to {back}");
        layout(&p)?;
        Ok(Info::nt(v.is_object() || v.is_array() || !p.is_ascii()))
    });
    c.check(
        sub("batch", 6_000, "at least two texts, accepted and rejected ones mixed"),
        || vec(texts(), 0..6).boxed(),
        |ts: &Vec<Text>| {
            let refs: Vec<&[u8]> = ts.iter().map(|t| &t.bytes[..]).collect();
            let got: Vec<Result<Value, _>> = parse_json_batch(&refs);
            ensure_eq!(got.len(), refs.len(), "batch-len", "parse_json_batch result count");
            for (i, r) in got.iter().enumerate() {
                let one: Result<Value, _> = serde_json::from_slice(refs[i]);
                ensure_eq!(kind(r), kind(&one), "batch-item", "item {i} of batch");
            }
            let ok = got.iter().filter(|r| r.is_ok()).count();
            Ok(Info::nt(ok > 0 && ok < got.len()))
        },
    );
}
