//! Generators shared by the properties.

use crate::engine::{dict_strs, G};
use crate::model::*;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;

// --------------------------------------------------------------- strings

const SPECIAL: &[char] = &[
    '"', '\\', '/', '\x08', '\x0c', '\n', '\r', '\t', '\0', '\x01', '\x0b', '\x1b', '\x1f', ' ', '\x7f', 'u', 'b', 'n',
];
const EXOTIC: &[char] = &[
    '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', 'é', 'ß', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{2028}',
    '\u{2029}', '\u{200b}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}',
    '\u{10ffff}', '中', 'Ω', '\u{301}',
];

pub fn char_of(cp: u64) -> char {
    // skips the surrogates
    let cp = cp as u32;
    char::from_u32(if cp >= 0xd800 { cp + 0x800 } else { cp }).unwrap()
}

pub const CHARS: u64 = 0x110000 - 0x800;

pub fn any_char(g: &mut G) -> char {
    match g.weighted(&[50, 18, 12, 8, 8, 4]) {
        0 => (b'a' + g.below(26) as u8) as char,
        1 => *g.pick(SPECIAL),
        2 => *g.pick(EXOTIC),
        3 => char_of(g.upto(0x7f)),
        4 => char_of(g.upto(0xffff - 0x800)),
        _ => char_of(g.upto(CHARS - 1)),
    }
}

/// Any string; `max` bounds its length in bytes
pub fn string(g: &mut G, max: usize) -> String {
    match g.weighted(&[30, 25, 15, 15, 8, 5]) {
        0 => {
            let n = g.size(max.min(40));
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect::<String>()
        }
        1 => {
            // a given number of bytes, any characters
            let n = g.size(max);
            let n = if n > 400 { 400.min(max) } else { n };
            let mut s = String::new();
            while s.len() < n {
                let c = any_char(g);
                if s.len() + c.len_utf8() > n {
                    s.push('x');
                } else {
                    s.push(c);
                }
            }
            s
        }
        2 => {
            // one character repeated to a given length
            let n = g.size(max);
            let c = any_char(g);
            let mut s = String::new();
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
            while s.len() < n {
                s.push('y');
            }
            s
        }
        3 => {
            // plain filler with one odd character somewhere
            let n = g.size(max.saturating_sub(4));
            let at = g.upto(n as u64) as usize;
            let c = any_char(g);
            let mut s = "p".repeat(at);
            s.push(c);
            s.push_str(&"q".repeat(n - at));
            s
        }
        4 => hint(g),
        _ => {
            // looks like an escape or JSON text
            let parts = ["\\u", "00e9", "\\", "\"", "\\n", "d83d", "{", "}", "[1,2]", ":", ",", "null", "-0", "1e5", "\u{0}"];
            let n = g.size(10);
            (0..n).map(|_| *g.pick(&parts)).collect()
        }
    }
}

fn hint(g: &mut G) -> String {
    let d = dict_strs();
    if d.is_empty() {
        return "hint".into();
    }
    d[g.below(d.len())].clone()
}

// ------------------------------------------------------------------ keys

/// Groups of distinct keys with equal FNV-1a hashes
pub fn colliding(group: usize) -> Vec<String> {
    let a = ["xCSAA_pJL1A", "B3GlLJuLJkI"];
    let b = ["k98KNSlzjcP", "f1Uy6KguCMK"];
    let c = ["TvPOWUx8T9G", "drh6pp-676M"];
    match group {
        0 => vec!["8yn0iYCKYHlIj4-BwPqk".into(), "GReLUrM4wMqfg9yzV3KQ".into()],
        1 => a.iter().map(|x| x.to_string()).collect(),
        2 => vec!["nNn_shY7iIE".into(), "wmHTLaM5OUN".into()],
        3 => a.iter().flat_map(|x| b.iter().map(move |y| format!("{}{}", x, y))).collect(),
        4 => (0..8).map(|i| format!("{}{}{}", a[i / 4], b[i / 2 % 2], c[i % 2])).collect(),
        5 => a.iter().map(|x| format!("{}{}", x, "-and-a-tail-that-makes-it-long")).collect(),
        6 => a.iter().map(|x| format!("{}{}", x, "012345678901234567890")).collect(), // 32 bytes
        7 => a.iter().map(|x| format!("{}{}", x, "0123456789012345678901")).collect(), // 33 bytes
        8 => vec!["xaAbFUv6BbD".into(), "5Kb_LziWA4M".into()],
        9 => vec!["lOJlKZ6PcvD".into(), "Jm9jH0xp37M".into()],
        10 => vec!["izaAUeoF-RJ".into(), "Fge82edeWMC".into()],
        _ => vec!["KTS-Ck25jFC".into(), "n694dJxe3rJ".into()],
    }
}

pub fn fnv(key: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in key.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn key(g: &mut G) -> String {
    match g.weighted(&[40, 12, 12, 10, 10, 10, 6]) {
        0 => ((b'a' + g.below(12) as u8) as char).to_string(),
        1 => {
            let grp = colliding(g.below(12));
            grp[g.below(grp.len())].clone()
        }
        2 => {
            // around the inline key size
            let n = g.range(28, 36) as usize;
            let c = (b'a' + g.below(3) as u8) as char;
            let mut s: String = std::iter::repeat('k').take(n - 1).collect();
            s.push(c);
            s
        }
        3 => format!("key{}", g.below(200)),
        4 => {
            let n = g.size(2000).min(2000);
            let c = any_char(g);
            let mut s = String::new();
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
            s
        }
        5 => string(g, 80),
        _ => String::new(),
    }
}

// --------------------------------------------------------------- numbers

/// Mantissas, with every digit count, long runs of zeros and nines, and edges
pub fn mantissa(g: &mut G) -> u64 {
    match g.weighted(&[20, 25, 20, 15, 20]) {
        0 => g.upto(100),
        1 => g.int(u64::MAX),
        2 => {
            // d digits, uniform
            let d = g.range(1, 20) as u32;
            let lo = 10u64.pow(d - 1);
            let hi = if d == 20 { u64::MAX } else { 10u64.pow(d) - 1 };
            g.range(lo, hi)
        }
        3 => {
            // a few digits with trailing zeros
            let z = g.below(20) as u32;
            let m = g.range(1, 9999);
            m.checked_mul(10u64.pow(z)).unwrap_or(m)
        }
        _ => {
            const EDGE: &[u64] = &[
                0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000,
                576460752303423487, 576460752303423499, 576460752303423500, 576460752303423501,
                1 << 24, (1 << 24) + 1, 1 << 53, (1 << 53) + 1, 1 << 63, (1 << 63) - 1, u64::MAX, u64::MAX - 1,
                1844674407370955161, 1844674407370955162, 18446744073709551610, 922337203685477580,
                9223372036854775807, 9223372036854775808, 9223372036854775809,
                999999999999999999, 1000000000000000000, 9999999999999999999, 10000000000000000000,
                4294967295, 4294967296, 2147483647, 2147483648, 255, 256, 127, 128, 32767, 32768, 65535, 65536,
            ];
            *g.pick(EDGE)
        }
    }
}

pub fn exponent(g: &mut G) -> i16 {
    match g.weighted(&[30, 30, 15, 10, 10, 5]) {
        0 => 0,
        1 => g.upto(50) as i16 - 25,
        2 => g.upto(700) as i16 - 350,
        3 => {
            const EDGE: &[i16] = &[
                -1, -17, -18, -19, -20, -21, 1, 15, 16, 17, 18, 19, 20, 21, 22, 23, -22, -23, 307, 308, 309, -307, -308, -323, -324, -325,
                -342, -343, -344, 37, 38, 39, -44, -45, -46, i16::MIN, i16::MIN + 1, i16::MAX, i16::MAX - 1, -32750, 32750,
                -99, -100, -999, -1000, 99, 100, 999, 1000, 9999, 10000, -9999, -10000, 127, 128, 255, 256, -128, -129,
            ];
            *g.pick(EDGE)
        }
        4 => g.upto(65535) as u16 as i16,
        _ => g.int(65535) as u16 as i16,
    }
}

pub fn num(g: &mut G) -> Num {
    if g.prob(20) {
        return Num { nan: true, neg: false, m: 0, e: 0 };
    }
    Num { nan: false, neg: g.prob(300), m: mantissa(g), e: exponent(g) }
}

/// Number a user gets: an integer or float of some type, or any parts
pub fn api_num(g: &mut G) -> Num {
    match g.weighted(&[40, 20, 40]) {
        0 => Num::int(g.upto(2000) as i128 - 1000),
        1 => {
            let f = float64(g);
            Num::of(&Number::from(f))
        }
        _ => num(g),
    }
}

pub fn float64(g: &mut G) -> f64 {
    match g.weighted(&[20, 20, 15, 15, 10, 10, 10]) {
        0 => (g.upto(20000) as f64 - 10000.0) / *g.pick(&[1.0, 10.0, 100.0, 8.0, 3.0, 1000.0]),
        1 => f64::from_bits(g.upto(u64::MAX)),
        2 => {
            // exponent uniform, few mantissa bits
            let e = g.upto(2046);
            let m = g.int((1 << 52) - 1);
            f64::from_bits((g.upto(1) << 63) | (e << 52) | m)
        }
        3 => {
            // neighbours of a power of ten
            let e = g.upto(640) as i32 - 325;
            let f: f64 = format!("{}e{}", g.range(1, 9), e).parse().unwrap();
            let d = g.upto(4) as i64 - 2;
            f64::from_bits((f.to_bits() as i64).saturating_add(d).max(0) as u64)
        }
        4 => f64::from_bits(g.int((1 << 52) - 1)), // subnormal
        5 => *g.pick(&[
            0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.1, 0.2, 0.3, 1e21, 1e22, 1e23,
            9007199254740992.0, 9007199254740993.0, 18446744073709551615.0, 9223372036854775807.0, 1e308, 1e-308, 4.35, 1.005,
            f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 2.2250738585072011e-308, 1.7976931348623157e308, 123456.789,
        ]),
        _ => {
            // integers of every size
            let n = g.int(u64::MAX);
            if g.flip() { -(n as f64) } else { n as f64 }
        }
    }
}

pub fn float32(g: &mut G) -> f32 {
    match g.weighted(&[40, 30, 20, 10]) {
        0 => f32::from_bits(g.upto(u32::MAX as u64) as u32),
        1 => float64(g) as f32,
        2 => {
            let e = g.upto(254) as u32;
            let m = g.int((1 << 23) - 1) as u32;
            f32::from_bits(((g.upto(1) as u32) << 31) | (e << 23) | m)
        }
        _ => *g.pick(&[
            0.0, -0.0, 1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777216.0, 16777217.0, 3.4e38, 1e-38,
            f32::INFINITY, f32::NEG_INFINITY, f32::NAN,
        ]),
    }
}

// ------------------------------------------------------- number literals

fn push_digits(g: &mut G, n: usize, s: &mut String) {
    match g.weighted(&[60, 15, 15, 10]) {
        0 if n <= 64 => {
            for _ in 0..n {
                s.push((b'0' + g.below(10) as u8) as char);
            }
        }
        1 => s.push_str(&"0".repeat(n)),
        2 => s.push_str(&"9".repeat(n)),
        _ => {
            let c = (b'0' + g.below(10) as u8) as char;
            for _ in 0..n {
                s.push(c);
            }
        }
    }
}

/// A number literal valid by the JSON grammar (integer part below the limit
/// of 32767 digits beyond a u64)
pub fn literal(g: &mut G, big: bool) -> String {
    let mut s = String::new();
    if g.prob(250) {
        s.push('-');
    }
    // integer part
    match g.weighted(&[25, 15, 25, 10, 15, 10]) {
        0 => s.push_str(&g.upto(200).to_string()),
        1 => s.push('0'),
        2 => s.push_str(&mantissa(g).to_string()),
        3 => {
            s.push((b'1' + g.below(9) as u8) as char);
            let n = g.range(14, 24) as usize;
            push_digits(g, n, &mut s);
        }
        4 => {
            // an edge followed or not by more digits
            s.push_str(&mantissa(g).max(1).to_string());
            let n = g.below(4);
            push_digits(g, n, &mut s);
        }
        _ => {
            s.push((b'1' + g.below(9) as u8) as char);
            let n = if big && g.prob(60) { g.upto(32600) as usize } else { g.size(80) };
            push_digits(g, n, &mut s);
        }
    }
    // fraction
    if g.prob(450) {
        s.push('.');
        match g.weighted(&[40, 20, 20, 15, 5]) {
            0 => {
                let n = g.range(1, 8) as usize;
                push_digits(g, n, &mut s);
            }
            1 => {
                let z = g.size(30);
                s.push_str(&"0".repeat(z));
                s.push_str(&mantissa(g).to_string());
            }
            2 => {
                s.push_str(&mantissa(g).to_string());
                let z = g.size(30);
                s.push_str(&"0".repeat(z));
            }
            3 => {
                let n = g.range(8, 45) as usize;
                push_digits(g, n, &mut s);
            }
            _ => {
                let z = if big && g.prob(300) { g.upto(70000) as usize } else { g.size(400) };
                s.push_str(&"0".repeat(z));
                s.push_str(&g.upto(99).to_string());
            }
        }
    }
    // exponent
    if g.prob(400) {
        s.push(*g.pick(&['e', 'E']));
        s.push_str(*g.pick(&["", "-", "+"]));
        s.push_str(&"0".repeat(g.weighted(&[85, 8, 4, 2, 1])));
        match g.weighted(&[50, 20, 12, 12, 6]) {
            0 => s.push_str(&g.upto(30).to_string()),
            1 => s.push_str(&g.upto(400).to_string()),
            2 => s.push_str(&g.range(32700, 32800).to_string()),
            3 => s.push_str(&g.int(200000).to_string()),
            _ => {
                let n = g.range(1, 40) as usize;
                push_digits(g, n, &mut s);
            }
        }
    }
    s
}

/// A literal that is read exactly (digits fit in u64, exponent in i16)
pub fn exact_literal(g: &mut G) -> (String, Num) {
    let n = Num { nan: false, neg: g.prob(250), m: mantissa(g), e: g.upto(40) as i16 - 20 };
    let mut s = String::new();
    if n.neg {
        s.push('-');
    }
    match g.below(2) {
        0 => {
            s.push_str(&n.m.to_string());
            if n.e != 0 {
                s.push_str(&format!("e{}", n.e));
            }
        }
        _ => {
            let d = n.m.to_string();
            if n.e >= 0 {
                s.push_str(&d);
                if n.e > 0 {
                    s.push_str(&format!("E+{}", n.e));
                }
            } else {
                let k = (-n.e) as usize;
                if k < d.len() {
                    s.push_str(&d[..d.len() - k]);
                    s.push('.');
                    s.push_str(&d[d.len() - k..]);
                } else {
                    s.push_str("0.");
                    s.push_str(&"0".repeat(k - d.len()));
                    s.push_str(&d);
                }
            }
        }
    }
    (s, n)
}

// ----------------------------------------------------------------- values

pub struct Shape {
    pub nan: bool,
    pub exact: bool,
    pub max_str: usize,
    pub big: bool,
}

pub const PLAIN: Shape = Shape { nan: true, exact: false, max_str: 120, big: true };

pub fn leaf(g: &mut G, sh: &Shape) -> RV {
    match g.weighted(&[12, 12, 38, 38]) {
        0 => RV::Null,
        1 => RV::Bool(g.flip()),
        2 => {
            let mut n = api_num(g);
            if n.nan && !sh.nan {
                n = Num::int(7);
            }
            RV::Num(n)
        }
        _ => RV::Str(string(g, sh.max_str)),
    }
}

/// Any value; sizes are mostly small, now and then wide or deep
pub fn value(g: &mut G, sh: &Shape) -> RV {
    match if sh.big { g.weighted(&[900, 40, 40, 20]) } else { 0 } {
        0 => {
            let mut fuel = 40;
            tree(g, sh, 4, &mut fuel)
        }
        1 => {
            // wide
            let n = g.size(600);
            let proto = leaf(g, sh);
            if g.flip() {
                RV::Arr((0..n).map(|i| if i % 7 == 3 { RV::Num(Num::int(i as i128)) } else { proto.clone() }).collect())
            } else {
                let long = g.prob(300);
                RV::Obj((0..n).map(|i| {
                    let k = if long { format!("a rather long key, longer than thirty-two bytes {}", i) } else { format!("k{}", i) };
                    (k, if i % 5 == 2 { RV::Num(Num::int(i as i128)) } else { proto.clone() })
                }).collect())
            }
        }
        2 => {
            // deep
            let n = g.size(300);
            let mut v = leaf(g, sh);
            let pat = g.upto(u64::MAX);
            for i in 0..n {
                let extra = (pat >> (i % 31)) & 4 != 0;
                if (pat >> (i % 64)) & 1 == 0 {
                    v = RV::Arr(if extra { vec![RV::Null, v] } else { vec![v] });
                } else {
                    let mut o = vec![("k".to_string(), v)];
                    if extra {
                        o.push(("z".into(), RV::Bool(true)));
                    }
                    v = RV::Obj(o);
                }
            }
            v
        }
        _ => {
            let mut fuel = 400;
            tree(g, sh, 8, &mut fuel)
        }
    }
}

pub fn tree(g: &mut G, sh: &Shape, depth: usize, fuel: &mut usize) -> RV {
    *fuel = fuel.saturating_sub(1);
    if depth == 0 || *fuel == 0 {
        return leaf(g, sh);
    }
    match g.weighted(&[30, 35, 35]) {
        0 => leaf(g, sh),
        1 => {
            let n = g.size(12.min(*fuel));
            RV::Arr((0..n).map(|_| tree(g, sh, depth - 1, fuel)).collect())
        }
        _ => {
            let n = g.size(12.min(*fuel));
            let mut o: Vec<(String, RV)> = Vec::new();
            for _ in 0..n {
                let mut k = key(g);
                while o.iter().any(|x| x.0 == k) {
                    k.push('\'');
                }
                let v = tree(g, sh, depth - 1, fuel);
                o.push((k, v));
            }
            RV::Obj(o)
        }
    }
}

/// A container
pub fn container(g: &mut G, sh: &Shape) -> RV {
    let mut fuel = 40;
    let n = g.size(10);
    if g.flip() {
        let mut o: Vec<(String, RV)> = Vec::new();
        for _ in 0..n {
            let k = key(g);
            let v = tree(g, sh, 3, &mut fuel);
            obj_set(&mut o, &k, v);
        }
        RV::Obj(o)
    } else {
        RV::Arr((0..n).map(|_| tree(g, sh, 3, &mut fuel)).collect())
    }
}

/// Builds the value a model describes, through some route of the API
pub fn build(g: &mut G, m: &RV) -> JsonValue {
    // one choice decides the routes, so that big values cost few choices
    let style = g.upto(u64::MAX);
    let mut s = style;
    build_styled(m, &mut s)
}

fn step(s: &mut u64, n: u64) -> u64 {
    if *s == 0 {
        return 0; // the simplest route throughout
    }
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*s >> 33) % n
}

pub fn build_string(t: &str, s: &mut u64) -> JsonValue {
    match step(s, 5) {
        0 => JsonValue::from(t),
        1 => JsonValue::from(t.to_string()),
        2 if t.len() <= json::short::MAX_LEN => JsonValue::Short(unsafe { Short::from_slice(t) }),
        3 => {
            let mut x = String::with_capacity(t.len() + 50);
            x.push_str(t);
            JsonValue::String(x)
        }
        _ => JsonValue::String(t.into()),
    }
}

pub fn build_styled(m: &RV, s: &mut u64) -> JsonValue {
    match m {
        RV::Null => match step(s, 3) {
            0 => JsonValue::Null,
            1 => JsonValue::from(None::<bool>),
            _ => json::Null,
        },
        RV::Bool(b) => JsonValue::from(*b),
        RV::Num(n) => JsonValue::Number(number(n)),
        RV::Lit(t) => match json::parse(t) {
            Ok(v) => v,
            Err(_) => JsonValue::Null,
        },
        RV::Str(t) => build_string(t, s),
        RV::Arr(a) => match step(s, 4) {
            0 => JsonValue::Array(a.iter().map(|x| build_styled(x, s)).collect()),
            1 => {
                let mut v = JsonValue::new_array();
                for x in a {
                    let x = build_styled(x, s);
                    let _ = v.push(x);
                }
                v
            }
            2 => {
                let items: Vec<JsonValue> = a.iter().map(|x| build_styled(x, s)).collect();
                JsonValue::from(items)
            }
            _ => {
                let mut v = Vec::with_capacity(a.len() + 5);
                for x in a {
                    v.push(build_styled(x, s));
                }
                JsonValue::Array(v)
            }
        },
        RV::Obj(o) => JsonValue::Object(build_object(o, s)),
    }
}

pub fn build_object(o: &[(String, RV)], s: &mut u64) -> Object {
    match step(s, 5) {
        0 => {
            let mut r = Object::new();
            for (k, v) in o {
                r.insert(k, build_styled(v, s));
            }
            r
        }
        1 => {
            let mut r = Object::with_capacity(o.len());
            for (k, v) in o {
                r.insert(k, build_styled(v, s));
            }
            r
        }
        2 => {
            let items: Vec<(String, JsonValue)> = o.iter().map(|(k, v)| (k.clone(), build_styled(v, s))).collect();
            items.into_iter().collect()
        }
        3 => {
            // through JsonValue, with every value written twice
            let mut r = JsonValue::new_object();
            for (k, _) in o {
                r[&k[..]] = JsonValue::from("placeholder of some length, not short");
            }
            for (k, v) in o {
                r[&k[..]] = build_styled(v, s);
            }
            match r {
                JsonValue::Object(r) => r,
                _ => Object::new(),
            }
        }
        _ => {
            // with a member that is removed again
            let extra = "a key that no generator makes, removed again";
            let mut r = Object::with_capacity(step(s, 4) as usize);
            let at = o.len() / 2;
            for (i, (k, v)) in o.iter().enumerate() {
                if i == at {
                    r.insert(extra, JsonValue::new_array());
                }
                r.insert(k, build_styled(v, s));
            }
            r.remove(extra);
            r
        }
    }
}

// ------------------------------------------------------------------ texts

pub fn ws(g: &mut G, o: &mut String) {
    match g.weighted(&[75, 15, 10]) {
        0 => {}
        1 => o.push(*g.pick(&[' ', '\n', '\t', '\r'])),
        _ => {
            let n = g.size(8);
            for _ in 0..n {
                o.push(*g.pick(&[' ', '\n', '\t', '\r', ' ', ' ', '\x0b', '\x0c']));
            }
        }
    }
}

/// Spells a string as a JSON string token
pub fn spell(g: &mut G, s: &str, o: &mut String) {
    // 0: only what must be escaped; else a mixture
    let mode = g.weighted(&[55, 35, 10]);
    let mut st = if mode == 1 { g.upto(u64::MAX) } else { 0 };
    o.push('"');
    for c in s.chars() {
        let how = match mode {
            0 => 0,
            1 => step(&mut st, 4),
            _ => 2,
        };
        spell_char(c, how, &mut st, o);
    }
    o.push('"');
}

pub fn spell_char(c: char, how: u64, st: &mut u64, o: &mut String) {
    let short = match c {
        '"' => Some('"'),
        '\\' => Some('\\'),
        '/' => Some('/'),
        '\x08' => Some('b'),
        '\x0c' => Some('f'),
        '\n' => Some('n'),
        '\r' => Some('r'),
        '\t' => Some('t'),
        _ => None,
    };
    let must = c == '"' || c == '\\' || (c as u32) < 0x20;
    let unicode = |o: &mut String, st: &mut u64| {
        let mut buf = [0u16; 2];
        for u in c.encode_utf16(&mut buf) {
            o.push_str("\\u");
            let mix = step(st, 3);
            let h = format!("{:04x}", u);
            for (i, ch) in h.chars().enumerate() {
                let up = mix == 1 || (mix == 2 && i % 2 == 0);
                o.push(if up { ch.to_ascii_uppercase() } else { ch });
            }
        }
    };
    match how {
        2 => unicode(o, st),
        _ => match short {
            Some(e) if must || how == 1 => {
                o.push('\\');
                o.push(e);
            }
            _ if must => unicode(o, st),
            _ => o.push(c),
        },
    }
}

/// A valid document with the value it denotes; `lits` uses free number
/// literals (RV::Lit), otherwise exact ones (RV::Num)
pub fn document(g: &mut G, lits: bool) -> (String, RV) {
    let mut o = String::new();
    ws(g, &mut o);
    let v = match g.weighted(&[940, 30, 30]) {
        0 => {
            let mut fuel = 30;
            doc_value(g, 5, &mut fuel, lits, &mut o)
        }
        1 => {
            // wide: repeat one item
            let n = g.size(800);
            let mut item = String::new();
            let mut fuel = 6;
            let iv = doc_value(g, 2, &mut fuel, lits, &mut item);
            if g.flip() {
                o.push('[');
                o.push_str(&vec![item; n].join(","));
                o.push(']');
                RV::Arr(vec![iv; n])
            } else {
                let m = g.range(1, 1000) as usize;
                let mut obj = Vec::new();
                o.push('{');
                for i in 0..n {
                    if i > 0 {
                        o.push(',');
                    }
                    let k = format!("n{}", i % m);
                    o.push_str(&format!("\"{}\":{}", k, item));
                    if i < m {
                        obj.push((k, iv.clone()));
                    }
                }
                o.push('}');
                RV::Obj(obj)
            }
        }
        _ => {
            // deep
            let n = g.size(512);
            let pat = g.upto(u64::MAX);
            let mut close = String::new();
            let mut kinds = Vec::new();
            for i in 0..n {
                if (pat >> (i % 61)) & 1 == 0 {
                    o.push('[');
                    close.push(']');
                    kinds.push(0);
                } else {
                    o.push_str("{\"k\":");
                    close.push('}');
                    kinds.push(1);
                }
            }
            let mut fuel = 2;
            let mut v = doc_value(g, if n < 510 { 1 } else { 0 }, &mut fuel, lits, &mut o);
            for (c, k) in close.chars().rev().zip(kinds.iter().rev()) {
                o.push(c);
                v = if *k == 0 { RV::Arr(vec![v]) } else { RV::Obj(vec![("k".into(), v)]) };
            }
            v
        }
    };
    ws(g, &mut o);
    (o, v)
}

pub fn doc_value(g: &mut G, depth: usize, fuel: &mut usize, lits: bool, o: &mut String) -> RV {
    *fuel = fuel.saturating_sub(1);
    let kind = if depth == 0 || *fuel == 0 { g.weighted(&[40, 40, 10, 10]) } else { g.weighted(&[18, 18, 5, 5, 27, 27]) };
    match kind {
        0 => {
            if lits {
                let l = literal(g, false);
                o.push_str(&l);
                RV::Lit(l)
            } else {
                let (l, n) = exact_literal(g);
                o.push_str(&l);
                RV::Num(n)
            }
        }
        1 => {
            let s = string(g, 100);
            spell(g, &s, o);
            RV::Str(s)
        }
        2 => {
            o.push_str("null");
            RV::Null
        }
        3 => {
            let b = g.flip();
            o.push_str(if b { "true" } else { "false" });
            RV::Bool(b)
        }
        4 => {
            o.push('[');
            ws(g, o);
            let n = g.size(8.min(*fuel + 1));
            let mut a = Vec::new();
            for i in 0..n {
                if i > 0 {
                    o.push(',');
                    ws(g, o);
                }
                a.push(doc_value(g, depth - 1, fuel, lits, o));
                ws(g, o);
            }
            o.push(']');
            RV::Arr(a)
        }
        _ => {
            o.push('{');
            ws(g, o);
            let n = g.size(8.min(*fuel + 1));
            let mut a = Vec::new();
            for i in 0..n {
                if i > 0 {
                    o.push(',');
                    ws(g, o);
                }
                // now and then repeat an earlier key
                let k = if i > 0 && g.prob(150) {
                    let a: &Vec<(String, RV)> = &a;
                    a[g.below(a.len())].0.clone()
                } else {
                    key(g)
                };
                spell(g, &k, o);
                ws(g, o);
                o.push(':');
                ws(g, o);
                let v = doc_value(g, depth - 1, fuel, lits, o);
                obj_set(&mut a, &k, v);
                ws(g, o);
            }
            o.push('}');
            RV::Obj(a)
        }
    }
}

const TOKENS: &[&str] = &[
    "[", "]", "{", "}", ",", ":", "\"a\"", "\"\"", "1", "0", "-1", "null", "true", "false", "1.5", "1e5", " ", "\n", "\"k\":", "-", ".",
    "e", "+", "\"", "\\", "\\u", "d800", "\\ud83d\\ude00", "00", "01", "-0", "nul", "tru", "\t", "é", "\u{1f600}", "\u{feff}", "//", "'", "\r\n",
    "NaN", "Infinity", "0x1", "1.", ".5", "1e", "1e+", "\\x", "\\/", "\u{0}", "\x0b", "\x0c", "\x7f", "\u{a0}", "\u{2028}",
];

/// Text that may or may not be JSON
pub fn wild_text(g: &mut G) -> String {
    match g.weighted(&[45, 20, 15, 20]) {
        0 => {
            let (t, _) = document(g, true);
            mutate_text(g, t)
        }
        1 => {
            let n = g.size(30);
            (0..n).map(|_| *g.pick(TOKENS)).collect()
        }
        2 => {
            let alphabet: Vec<char> = "[]{},:\"\\ue0123456789.-+Etrufalsn \n".chars().collect();
            let n = g.size(24);
            (0..n).map(|_| *g.pick(&alphabet)).collect()
        }
        _ => {
            let (t, _) = document(g, true);
            // cut anywhere
            let n = t.chars().count();
            let cut = g.upto(n as u64) as usize;
            t.chars().take(cut).collect()
        }
    }
}

pub fn mutate_text(g: &mut G, t: String) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let rounds = 1 + g.weighted(&[60, 20, 10, 10]);
    for _ in 0..rounds {
        let at = g.upto(c.len() as u64) as usize;
        match g.weighted(&[25, 20, 25, 10, 10, 10]) {
            0 => {
                let x = odd_char(g);
                c.insert(at, x);
            }
            1 => {
                if at < c.len() {
                    c.remove(at);
                }
            }
            2 => {
                let x = odd_char(g);
                if at < c.len() {
                    c[at] = x;
                }
            }
            3 => {
                let tok: Vec<char> = g.pick(TOKENS).chars().collect();
                c.splice(at..at, tok);
            }
            4 => {
                let b = g.upto(c.len() as u64) as usize;
                if at < b && b < c.len() {
                    c.swap(at, b);
                }
            }
            _ => {
                let n = (g.size(20)).min(c.len() - at);
                let dup: Vec<char> = c[at..at + n].to_vec();
                c.splice(at..at, dup);
            }
        }
    }
    c.into_iter().collect()
}

fn odd_char(g: &mut G) -> char {
    match g.weighted(&[50, 25, 25]) {
        0 => {
            let a: Vec<char> = "[]{},:\"\\u0123456789.-+eEtrfalsnbdx/ \n\t\r\0\x1f\x7f".chars().collect();
            *g.pick(&a)
        }
        1 => any_char(g),
        _ => char_of(g.upto(0xff)),
    }
}
