//! C01 to C05: parsing.

use super::{sweep, Sweep};
use std::sync::atomic::Ordering::Relaxed;

use crate::engine::{G, R, SMALL};
use crate::gen::*;
use crate::model::*;
use json::{Error, JsonValue};

// ------------------------------------------------------------------ C01

const SHORT_ALPHABET: &[u8] = b"[]{},:\"\\u0123-+.eEntaf \n";

fn verdict(g: &mut G, t: &str) -> R {
    g.print_bytes(t.as_bytes());
    g.note(|| format!("text {:?}", t));
    let r = ref_parse(t);
    let got = json::parse(t);
    match (&r.result, &got) {
        (Ok(m), Ok(v)) => {
            g.label("accepted");
            if !matches!(m, RV::Null | RV::Bool(_)) {
                g.nontrivial = true;
            }
            check(v, m).map_err(|e| format!("{:?} parses to the wrong value: {}", clip(t), e))
        }
        (Err(_), Err(_)) => {
            g.label("refused");
            if t.len() > 1 {
                g.nontrivial = true;
            }
            Ok(())
        }
        (Ok(m), Err(Error::ExceededDepthLimit)) if long_integer(m) => {
            g.label("integer-part-limit");
            Ok(())
        }
        (Ok(_), Err(e)) => fail!("valid JSON {:?} was refused: {:?}", clip(t), e),
        (Err(e), Ok(v)) => fail!("{:?} is not JSON ({:?}) but parsed to {}", clip(t), e, clip(&v.dump())),
    }
}

/// Is there a literal whose integer part exceeds the documented limit?
fn long_integer(m: &RV) -> bool {
    match m {
        RV::Lit(t) => t.len() > 32767,
        RV::Arr(a) => a.iter().any(long_integer),
        RV::Obj(o) => o.iter().any(|x| long_integer(&x.1)),
        _ => false,
    }
}

pub fn clip(s: &str) -> String {
    if s.len() <= 400 {
        return s.to_string();
    }
    let cut = |mut i: usize| {
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    format!("{} ... {} ({} bytes)", &s[..cut(200)], &s[cut(s.len() - 100)..], s.len())
}

pub fn c01(g: &mut G) -> R {
    match g.weighted(&[45, 30, 5, 15, 5]) {
        0 => {
            let (t, m) = document(g, true);
            g.print_bytes(t.as_bytes());
            g.note(|| format!("document {:?}", t));
            g.nontrivial = m.nodes() > 1 || t.contains('\\') || matches!(m, RV::Lit(_));
            g.label("document");
            g.label_if(t.contains('\\'), "escapes");
            g.label_if(m.depth() > 10, "deep");
            g.label_if(m.nodes() > 100, "wide");
            let v = match json::parse(&t) {
                Ok(v) => v,
                Err(e) => fail!("valid JSON {:?} was refused: {:?}", clip(&t), e),
            };
            check(&v, &m).map_err(|e| format!("{:?} parses to the wrong value: {}", clip(&t), e))?;
            if t.len() < 3000 {
                match ref_parse(&t).result {
                    Ok(m2) => check(&v, &m2).map_err(|e| format!("{:?} parses to the wrong value: {}", clip(&t), e))?,
                    Err(e) => fail!("harness: the reference parser refuses {:?}: {:?}", t, e),
                }
            }
            Ok(())
        }
        1 => {
            let t = wild_text(g);
            verdict(g, &t)
        }
        2 => {
            // every text over a small alphabet, by number
            let n = SHORT_ALPHABET.len() as u64;
            let mut i = g.upto(n.pow(5) + n.pow(4) + n.pow(3) + n.pow(2) + n);
            let mut t = String::new();
            while i > 0 {
                i -= 1;
                t.push(SHORT_ALPHABET[(i % n) as usize] as char);
                i /= n;
            }
            g.label("enumerated");
            verdict(g, &t)
        }
        3 => {
            // the same tree spelled twice, with other white space and escapes
            let sh = Shape { nan: false, exact: true, max_str: 80, big: false };
            let mut fuel = 25;
            let m = tree(g, &sh, 4, &mut fuel);
            let a = respell(g, &m);
            let b = respell(g, &m);
            g.print_bytes(a.as_bytes());
            g.print_bytes(b.as_bytes());
            g.note(|| format!("spellings {:?} and {:?}", a, b));
            g.nontrivial = a != b;
            g.label("respelled");
            match (json::parse(&a), json::parse(&b)) {
                (Ok(x), Ok(y)) => {
                    check(&x, &m).map_err(|e| format!("{:?}: {}", clip(&a), e))?;
                    check(&y, &m).map_err(|e| format!("{:?}: {}", clip(&b), e))?;
                    ensure!(x == y, "two spellings of a value differ: {:?} and {:?}", clip(&a), clip(&b));
                    ensure!(x.dump() == y.dump(), "two spellings print differently: {:?} and {:?}", clip(&a), clip(&b));
                    Ok(())
                }
                (x, y) => fail!("valid JSON refused: {:?} -> {:?}; {:?} -> {:?}", clip(&a), x.err(), clip(&b), y.err()),
            }
        }
        _ => {
            // an object with many repeated keys
            let n = g.size(60);
            let mut t = String::from("{");
            let mut m = Vec::new();
            for i in 0..n {
                if i > 0 {
                    t.push(',');
                }
                let k = key(g);
                spell(g, &k, &mut t);
                t.push_str(&format!(":{}", i));
                obj_set(&mut m, &k, RV::Num(Num::int(i as i128)));
            }
            t.push('}');
            g.print_bytes(t.as_bytes());
            g.note(|| format!("keys {:?}", t));
            g.nontrivial = m.len() < n;
            g.label("repeated-keys");
            match json::parse(&t) {
                Ok(v) => check(&v, &RV::Obj(m)).map_err(|e| format!("{:?}: {}", clip(&t), e)),
                Err(e) => fail!("valid JSON {:?} was refused: {:?}", clip(&t), e),
            }
        }
    }
}

pub fn c01_sweeps(quick: bool) -> Vec<Sweep> {
    let n = SHORT_ALPHABET.len() as u64;
    let all4 = n.pow(4) + n.pow(3) + n.pow(2) + n + 1;
    if quick {
        vec![sweep(&[2], 0, all4), Sweep { prefix: vec![2], lo: all4, hi: all4 + n.pow(5), step: 23 }]
    } else {
        vec![sweep(&[2], 0, all4 + n.pow(5))]
    }
}

/// Prints a model as JSON with free white space and escapes (numbers exactly)
pub fn respell(g: &mut G, m: &RV) -> String {
    let mut o = String::new();
    ws(g, &mut o);
    respell_at(g, m, &mut o);
    ws(g, &mut o);
    o
}

fn respell_at(g: &mut G, m: &RV, o: &mut String) {
    match m {
        RV::Arr(a) => {
            o.push('[');
            ws(g, o);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(g, o);
                }
                respell_at(g, x, o);
                ws(g, o);
            }
            o.push(']');
        }
        RV::Obj(a) => {
            o.push('{');
            ws(g, o);
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(g, o);
                }
                spell(g, k, o);
                ws(g, o);
                o.push(':');
                ws(g, o);
                respell_at(g, x, o);
                ws(g, o);
            }
            o.push('}');
        }
        RV::Str(s) => spell(g, s, o),
        RV::Num(n) if !n.nan => {
            o.push_str(if n.neg { "-" } else { "" });
            o.push_str(&n.m.to_string());
            if n.e != 0 {
                o.push_str(&format!("e{}", n.e));
            }
        }
        m => compact(m, o),
    }
}

// ------------------------------------------------------------------ C02

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

/// Pages with an unreadable page on both sides
struct Guarded {
    base: *mut u8,
    len: usize,
}

impl Guarded {
    fn get(need: usize) -> &'static Guarded {
        static mut POOL: Vec<Guarded> = Vec::new();
        let len = (need.max(1) + 4095) & !4095;
        #[allow(static_mut_refs)]
        unsafe {
            let slot = len.next_power_of_two();
            if let Some(x) = POOL.iter().find(|x| x.len == slot) {
                return x;
            }
            let base = mmap(std::ptr::null_mut(), slot + 8192, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            assert!(mprotect(base, 4096, 0) == 0);
            assert!(mprotect(base.add(4096 + slot), 4096, 0) == 0);
            POOL.push(Guarded { base: base.add(4096), len: slot });
            POOL.last().unwrap()
        }
    }
    /// The text right before the unreadable page
    fn at_end(&self, t: &str) -> &'static str {
        unsafe {
            let p = self.base.add(self.len - t.len());
            std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, t.len()))
        }
    }
    /// The text right after the unreadable page
    fn at_start(&self, t: &str) -> &'static str {
        unsafe {
            std::ptr::copy_nonoverlapping(t.as_ptr(), self.base, t.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.base, t.len()))
        }
    }
}

fn outcome(t: &str) -> Result<JsonValue, Error> {
    json::parse(t)
}

fn same_outcome(a: &Result<JsonValue, Error>, b: &Result<JsonValue, Error>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.dump() == b.dump() && a == b,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

fn bomb(g: &mut G) -> String {
    let n = match g.weighted(&[50, 40, 10]) {
        0 => g.size(700),
        1 => g.range(500, 5000) as usize,
        _ => g.upto(150000) as usize,
    };
    let unit = *g.pick(&["[", "{\"a\":", "[[],", "{\"\":[", "\"", "\\", "-", "1", "0", ".", "e", "9", "\\u0041", "\\ud83d\\ude00",
        " ", "\n", ",", "]", "}", "é", "\u{1f600}", "[1,", "\"\\", "0.0", "1e", "\\n", "null", "{}", "\"a\"", "\u{0}"]);
    let head = *g.pick(&["", "[", "{", "\"", "1", "-1", "0.", "1e", "1.5e-", "[\"", "{\"", "{\"a\":\"\\u00"]);
    let tail = *g.pick(&["", "]", "\"", "}", "\"]", "1", "\\", "x", "e5", ".5", "\u{e9}"]);
    let mut t = String::from(head);
    t.push_str(&unit.repeat(n));
    t.push_str(tail);
    t
}

pub fn c02(g: &mut G) -> R {
    let t = match g.weighted(&[25, 40, 20, 15]) {
        0 => document(g, true).0,
        1 => wild_text(g),
        2 => bomb(g),
        _ => {
            let n = g.size(60);
            (0..n).map(|_| any_char(g)).collect()
        }
    };
    g.print_bytes(t.as_bytes());
    g.note(|| format!("text {:?}", clip(&t)));
    g.nontrivial = t.len() > 1;
    let first = outcome(&t);
    g.label(if first.is_ok() { "ok" } else { "err" });
    // unreadable memory right behind, and right before
    let guard = Guarded::get(t.len());
    let r = outcome(guard.at_end(&t));
    ensure!(same_outcome(&first, &r), "the outcome depends on where the text lies: {:?} gives {:?} or {:?}", clip(&t), brief(&first), brief(&r));
    let r = outcome(guard.at_start(&t));
    ensure!(same_outcome(&first, &r), "the outcome depends on where the text lies: {:?} gives {:?} or {:?}", clip(&t), brief(&first), brief(&r));
    // inside a larger text whose neighbours invite reading on
    let around = *g.pick(&["0", "9", "\"", "\\", "]", "}", "e5", ".5", " ", ",", "[", "true", "u0041", "\u{0}"]);
    let mut big = String::with_capacity(t.len() + 64);
    for _ in 0..8 {
        big.push_str(around);
    }
    let at = big.len();
    big.push_str(&t);
    for _ in 0..8 {
        big.push_str(around);
    }
    let r = outcome(&big[at..at + t.len()]);
    ensure!(same_outcome(&first, &r), "the outcome depends on what surrounds the text: {:?} gives {:?}, or {:?} between {:?}", clip(&t), brief(&first), brief(&r), around);
    // other calls in between
    let other = wild_text(g);
    let _ = outcome(&other);
    let r = outcome(&t);
    ensure!(same_outcome(&first, &r), "the outcome depends on earlier calls: {:?} gives {:?}, and {:?} after parsing {:?}", clip(&t), brief(&first), brief(&r), clip(&other));
    Ok(())
}

fn brief(r: &Result<JsonValue, Error>) -> String {
    match r {
        Ok(v) => format!("Ok({})", clip(&v.dump())),
        Err(e) => format!("Err({:?})", e),
    }
}

// ------------------------------------------------------------------ C03

fn check_error(g: &mut G, t: &[char]) -> R {
    let text: String = t.iter().collect();
    g.print_bytes(text.as_bytes());
    g.note(|| format!("text {:?}", clip(&text)));
    let r = ref_parse_chars(t);
    let got = match (json::parse(&text), &r.result) {
        (Ok(_), _) => return Ok(()), // C01 decides
        (Err(_), Ok(_)) => return Ok(()),
        (Err(e), Err(_)) => e,
    };
    let why = match r.result {
        Err(w) => w,
        Ok(_) => return Ok(()),
    };
    if let Error::ExceededDepthLimit = got {
        ensure!(r.max_open > DEPTH || longest_digits(t) > 32767,
            "{:?} was refused for its depth, which is {}", clip(&text), r.max_open);
        g.label("depth");
        return Ok(());
    }
    match why {
        Refusal::Depth => {
            g.label("depth");
            Ok(())
        }
        Refusal::Surrogate => {
            g.label("surrogate");
            g.nontrivial = true;
            Ok(())
        }
        Refusal::End => {
            g.label("end");
            g.nontrivial = t.len() > 1;
            ensure!(got == Error::UnexpectedEndOfJson, "{:?} is an unfinished document, but the error is {:?}", clip(&text), got);
            Ok(())
        }
        Refusal::Char(at) => {
            g.label("character");
            let (line, column) = position(t, at);
            g.label_if(line > 1, "multi-line");
            g.label_if(column == 1 && line > 1, "starts-a-line");
            g.label_if(t[..at].iter().any(|c| c.len_utf8() > 1), "multi-byte-before");
            g.label_if(t[at].len_utf8() > 1, "multi-byte-offender");
            g.nontrivial = at > 0;
            let want = Error::UnexpectedCharacter { ch: t[at], line, column };
            ensure!(got == want, "in {:?} the first offending character is number {}: expected {:?}, got {:?}", clip(&text), at, want, got);
            let shown = got.to_string();
            ensure!(shown.contains(t[at]) && shown.contains(&format!("{}:{}", line, column)),
                "the error {:?} prints as {:?}", got, shown);
            Ok(())
        }
    }
}

fn longest_digits(t: &[char]) -> usize {
    let (mut best, mut run) = (0, 0);
    for c in t {
        run = if c.is_ascii_digit() { run + 1 } else { 0 };
        best = best.max(run);
    }
    best
}

pub fn c03(g: &mut G) -> R {
    let t: Vec<char> = match g.weighted(&[35, 15, 20, 5, 15, 10]) {
        0 => {
            // one change to a valid document
            let (t, _) = document(g, true);
            let mut c: Vec<char> = t.chars().collect();
            let at = g.upto(c.len() as u64) as usize;
            let x = match g.weighted(&[60, 40]) {
                0 => *g.pick(&['x', '}', ']', ',', ':', '"', '\\', '0', '\n', '\u{e9}', '\u{1f600}', '\0', '.', 'e', '-', '\r', '\u{301}']),
                _ => any_char(g),
            };
            if g.flip() && at < c.len() {
                c[at] = x;
            } else {
                c.insert(at, x);
            }
            c
        }
        1 => {
            let (t, _) = document(g, true);
            let c: Vec<char> = t.chars().collect();
            let cut = g.upto(c.len() as u64) as usize;
            c[..cut].to_vec()
        }
        2 => wild_text(g).chars().collect(),
        3 => {
            // enumerated: a bad character after every kind of prefix
            let i = g.upto(C03_PREFIXES.len() as u64 * 256 - 1);
            let mut t: Vec<char> = C03_PREFIXES[(i / 256) as usize].chars().collect();
            t.push(char::from_u32((i % 256) as u32).unwrap());
            t
        }
        4 => {
            // many lines, then trouble
            let n = g.size(40);
            let mut t = String::from("[");
            for _ in 0..n {
                let nl = *g.pick(&["\n", "\r\n", "\n\n", " ", "\r", "\n\t", "\x0b", "\x0c"]);
                let item = *g.pick(&["1", "\"é\"", "\"\u{1f600}\"", "null", "\"\u{2028}\"", "[]", "{}", "\"a\u{85}b\""]);
                t.push_str(nl);
                t.push_str(item);
                t.push(',');
            }
            t.push_str(*g.pick(&["", "\n", "\r\n", "\u{20}\n ", "\"é", "\"é\\", "1", "1\n"]));
            t.push(any_char(g));
            t.push_str(*g.pick(&["", "]", "\n]", "x"]));
            t.chars().collect()
        }
        _ => {
            // trouble after a complete document
            let (t, _) = document(g, true);
            let mut t = t;
            ws(g, &mut t);
            t.push(any_char(g));
            let rest = g.size(4);
            for _ in 0..rest {
                t.push(any_char(g));
            }
            t.chars().collect()
        }
    };
    check_error(g, &t)
}

const C03_PREFIXES: &[&str] = &[
    "", " ", "\n", "[", "[ ", "[\n", "[1", "[1 ", "[1,", "[1,\n", "{", "{ ", "{\"a\"", "{\"a\" ", "{\"a\":", "{\"a\": ", "{\"a\":1", "{\"a\":1 ",
    "{\"a\":1,", "{\"a\":1, ", "{\"a\":1,\n\"b\"", "\"", "\"a", "\"\\", "\"\\n", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\u0041", "\"é", "\"a\"", "\"a\\\"\"",
    "-", "0", "-0", "1", "12", "0.", "0.1", "1.", "1.5", "1e", "1E+", "1e-", "1e5", "1.5e5", "576460752303423500", "5764607523034235000", "18446744073709551615",
    "184467440737095516150", "5764607523034235000.", "5764607523034235000.5", "5764607523034235000e", "5764607523034235000e1", "99999999999999999999999.", "0e", "0.0e",
    "t", "tr", "tru", "true", "f", "fa", "fal", "fals", "false", "n", "nu", "nul", "null", "[]", "{}", "[[]", "[{}", "[[],", "[1]\n", "{}\n\n", "[\r\n", "é", "[\"é\",",
    "[\"\\u00e9\",\n", "\"\n", "[\"\\\\\"", "[true", "[null ", "{\"é\":\"\u{1f600}\"", "{\"\\n\"", "{\"a\":[1,{\"b\":null}", "[0", "[-0", "[0.5", "[1e1", "[-", "[0e",
];

pub fn c03_sweeps(_quick: bool) -> Vec<Sweep> {
    vec![sweep(&[3], 0, C03_PREFIXES.len() as u64 * 256)]
}

// ------------------------------------------------------------------ C04

fn nest(kinds: &dyn Fn(usize) -> u64, depth: usize, core: &str, out: &mut String) {
    let mut close = Vec::new();
    for i in 0..depth {
        match kinds(i) % 8 {
            0 | 1 => {
                out.push('[');
                close.push("]");
            }
            2 => {
                out.push_str("{\"k\":");
                close.push("}");
            }
            3 => {
                out.push_str("[1,");
                close.push("]");
            }
            4 => {
                out.push_str("[\n");
                close.push(",[]]");
            }
            5 => {
                out.push_str("{\"a\":[{}],\"k\":");
                close.push(" }");
            }
            6 => {
                out.push_str("{ \"k\" : ");
                close.push(",\"z\":null}");
            }
            _ => {
                out.push_str("[[[]],");
                close.push(" ]");
            }
        }
    }
    out.push_str(core);
    for c in close.iter().rev() {
        out.push_str(c);
    }
}

/// Non-empty containers enclosing one another, by reading the text itself
fn measure(t: &str) -> usize {
    let b = t.as_bytes();
    let (mut depth, mut max, mut i) = (0usize, 0, 0);
    let mut stack = Vec::new();
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'[' | b'{' => {
                let mut j = i + 1;
                while matches!(b[j], b' ' | b'\n' | b'\t' | b'\r') {
                    j += 1;
                }
                let empty = b[j] == b']' || b[j] == b'}';
                stack.push(!empty);
                if !empty {
                    depth += 1;
                    max = max.max(depth);
                }
            }
            b']' | b'}' => {
                if stack.pop() == Some(true) {
                    depth -= 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    max
}

pub fn c04(g: &mut G) -> R {
    let arm = g.weighted(&[80, 10, 10]);
    let mut t = String::new();
    let cores = ["1", "[]", "{}", "\"x\"", "null", "[ ]", "{ }", "-0.5e1", "\"\\u00e9\""];
    match arm {
        0 => {
            // several parts of different depth side by side, the whole inside a prefix
            let parts = 1 + g.weighted(&[50, 30, 15, 5]);
            let wrap = if parts > 1 { 1 } else { 0 };
            if wrap == 1 {
                t.push('[');
            }
            for p in 0..parts {
                if p > 0 {
                    t.push_str(*g.pick(&[",", " , ", ",[],", ",{},"]));
                }
                let d = match g.weighted(&[15, 45, 15, 15, 10]) {
                    0 => g.upto(20) as usize,
                    1 => 512 - wrap + 4 - g.upto(8) as usize,
                    2 => g.range(400, 600) as usize,
                    3 => g.range(254, 260) as usize,
                    _ => g.range(500, 3000) as usize,
                };
                let uniform = g.flip();
                let seed = g.upto(u64::MAX);
                let core = *g.pick(&cores);
                let kind = seed % 8;
                nest(&|i| if uniform { kind } else { seed.rotate_left((i * 3 % 64) as u32).wrapping_mul(0x9e3779b97f4a7c15) >> 40 }, d, core, &mut t);
            }
            if wrap == 1 {
                t.push(']');
            }
        }
        1 => {
            // enumerated: depth, shape, core
            let i = g.upto(620 * 8 * 9 - 1);
            let (d, k, c) = (i / 72, (i / 9) % 8, i % 9);
            nest(&|_| k, d as usize, cores[c as usize], &mut t);
        }
        _ => {
            // many shallow containers: depth must count nesting, not containers
            let n = g.range(500, 3000) as usize;
            let unit = *g.pick(&["[1]", "{\"a\":1}", "[]", "{}", "[[1]]", "[{\"a\":[2]}]"]);
            let d = g.upto(511) as usize;
            nest(&|_| 0, d, "0", &mut t);
            t = format!("[{},{}]", vec![unit; n].join(","), t);
        }
    }
    let depth = measure(&t);
    g.print_bytes(t.as_bytes());
    g.note(|| format!("depth {}: {:?}", depth, clip(&t)));
    g.nontrivial = depth >= 2;
    g.label_if(depth == 512, "exactly-512");
    g.label_if(depth == 513, "exactly-513");
    let r = json::parse(&t);
    if depth > 512 {
        g.label("too-deep");
        return match r {
            Err(Error::ExceededDepthLimit) => Ok(()),
            Err(e) => fail!("a valid document {} levels deep gives {:?}: {:?}", depth, e, clip(&t)),
            Ok(_) => fail!("a document {} levels deep was accepted: {:?}", depth, clip(&t)),
        };
    }
    g.label("within");
    let v = match r {
        Ok(v) => v,
        Err(e) => fail!("a document {} levels deep was refused with {:?}: {:?}", depth, e, clip(&t)),
    };
    let text = v.dump();
    let again = match json::parse(&text) {
        Ok(v) => v,
        Err(e) => fail!("printing a document {} levels deep gives text refused with {:?}", depth, e),
    };
    ensure!(again == v, "a document {} levels deep changes when printed and parsed: {:?}", depth, clip(&t));
    let c = v.clone();
    ensure!(c == v, "the clone of a document {} levels deep differs", depth);
    drop(v);
    ensure!(c.dump() == text, "the clone of a document {} levels deep changes when the original is dropped", depth);
    ensure!(measure(&text) == depth, "a document {} levels deep parsed to one of {} levels", depth, measure(&text));
    let p = c.pretty(1);
    ensure!(measure(&p) == depth, "a document {} levels deep prints as one of {} levels", depth, measure(&p));
    match json::parse(&p) {
        Ok(v) => ensure!(v == c, "a document {} levels deep changes when pretty-printed and parsed", depth),
        Err(e) => fail!("pretty-printing a document {} levels deep gives text refused with {:?}", depth, e),
    }
    Ok(())
}

pub fn c04_sweeps(quick: bool) -> Vec<Sweep> {
    if quick {
        vec![
            Sweep { prefix: vec![1], lo: 0, hi: 500 * 72, step: 31 },
            sweep(&[1], 500 * 72, 530 * 72),
            Sweep { prefix: vec![1], lo: 530 * 72, hi: 620 * 72, step: 7 },
        ]
    } else {
        vec![sweep(&[1], 0, 620 * 72)]
    }
}

// ------------------------------------------------------------------ C05

fn roundtrip_string(s: &str) -> R {
    let want = escape(s);
    for v in [JsonValue::from(s), JsonValue::String(s.to_string())] {
        let t = v.dump();
        ensure!(t == want, "the string {:?} prints as {} instead of {}", clip(s), clip(&t), clip(&want));
        match json::parse(&t) {
            Ok(b) => {
                ensure!(b.as_str() == Some(s), "{} parses to {:?} instead of {:?}", clip(&t), b.as_str().map(clip), clip(s));
                ensure!(b.is_string() && b == v, "{} parses to a different value", clip(&t));
            }
            Err(e) => fail!("printing the string {:?} gives {}, refused with {:?}", clip(s), clip(&t), e),
        }
    }
    Ok(())
}

fn roundtrip_key(s: &str) -> R {
    let mut v = JsonValue::new_object();
    if v.insert(s, 1).is_err() {
        fail!("insert into an object failed");
    }
    let want = format!("{{{}:1}}", escape(s));
    let t = v.dump();
    ensure!(t == want, "an object with the key {:?} prints as {} instead of {}", clip(s), clip(&t), clip(&want));
    match json::parse(&t) {
        Ok(b) => {
            let k = b.entries().next().map(|x| x.0.to_string());
            ensure!(k.as_deref() == Some(s), "{} parses to an object with the key {:?}", clip(&t), k);
            ensure!(b.has_key(s) && b[s] == 1, "the key {:?} is not found after parsing {}", clip(s), clip(&t));
        }
        Err(e) => fail!("an object with the key {:?} prints as {}, refused with {:?}", clip(s), clip(&t), e),
    }
    Ok(())
}

fn expect_string(t: &str, s: &str) -> R {
    match json::parse(t) {
        Ok(v) => {
            ensure!(v.as_str() == Some(s), "{} parses to {:?} instead of {:?}", clip(t), v.as_str().map(clip), clip(s));
            Ok(())
        }
        Err(e) => fail!("the string {} was refused with {:?}", clip(t), e),
    }
}

/// Runs of plain characters whose lengths lie around multiples of powers of
/// two, with something to escape (or of several bytes) between them
fn long_segments(g: &mut G) -> R {
    let mut s = String::new();
    let mut lens = Vec::new();
    for i in 0..1 + g.upto(3) {
        let p = 1u64 << g.range(3, if SMALL.load(Relaxed) { 6 } else { 16 });
        let n = match g.weighted(&[40, 30, 30]) {
            0 => p * g.range(1, 5) + g.upto(4),
            1 => p + g.upto(p),
            _ => (p * g.range(1, 5)).saturating_sub(g.upto(8)),
        };
        let n = n.min(150_000 - s.len().min(150_000) as u64) as usize;
        if i > 0 {
            s.push(*g.pick(&['"', '\\', '\n', '\u{1}', '\u{1f600}', 'é', '/', '\u{7f}']));
        }
        s.push_str(&"ab~"[i as usize % 3..][..1].repeat(n));
        lens.push(n);
    }
    if g.flip() {
        s.push('\n');
    }
    if g.flip() {
        s.push_str("end");
    }
    g.label("very-long");
    g.nontrivial = true;
    g.print_bytes(s.as_bytes());
    g.note(|| format!("runs of {:?}", lens));
    roundtrip_string(&s)?;
    // the same with every escape spelled out
    let mut t = String::from("\"");
    let mut st = g.upto(u64::MAX);
    for c in s.chars() {
        match c {
            'a'..='z' | '~' => t.push(c),
            c => spell_char(c, 2, &mut st, &mut t),
        }
    }
    t.push('"');
    expect_string(&t, &s)?;
    if g.flip() { roundtrip_key(&s) } else { Ok(()) }
}

pub fn c05(g: &mut G) -> R {
    match g.weighted(&[40, 15, 30, 3, 3, 3, 6]) {
        0 => {
            let s = string(g, 2000);
            g.print_bytes(s.as_bytes());
            g.note(|| format!("string {:?}", s));
            g.nontrivial = !s.is_empty();
            g.label("string");
            g.label_if(s.len() > 30, "heap-string");
            g.label_if(escape(&s).len() > s.len() + 2, "escaped");
            roundtrip_string(&s)?;
            // the other printers
            let v = JsonValue::from(&s[..]);
            let want = escape(&s);
            ensure!(v.pretty(2) == want, "pretty prints the string {:?} as {}", clip(&s), clip(&v.pretty(2)));
            let mut out = Vec::new();
            ensure!(v.write(&mut out).is_ok() && out == want.as_bytes(), "write prints the string {:?} as {:?}", clip(&s), String::from_utf8_lossy(&out));
            Ok(())
        }
        1 => {
            let s = if g.flip() { key(g) } else { string(g, 200) };
            g.print_bytes(s.as_bytes());
            g.note(|| format!("key {:?}", s));
            g.nontrivial = !s.is_empty();
            g.label("key");
            g.label_if(s.len() > 32, "heap-key");
            roundtrip_key(&s)
        }
        2 => {
            // spellings, several strings in one text
            let n = 1 + g.size(5);
            let mut strs = Vec::new();
            let mut t = String::from("[");
            for i in 0..n {
                let s = string(g, 150);
                if i > 0 {
                    t.push(',');
                }
                spell(g, &s, &mut t);
                strs.push(RV::Str(s));
            }
            t.push(']');
            g.print_bytes(t.as_bytes());
            g.note(|| format!("spelled {:?}", t));
            g.nontrivial = t.contains('\\');
            g.label("spelled");
            match json::parse(&t) {
                Ok(v) => check(&v, &RV::Arr(strs)).map_err(|e| format!("{}: {}", clip(&t), e))?,
                Err(e) => fail!("{} was refused with {:?}", clip(&t), e),
            }
            // as keys
            let mut t = String::from("{");
            let mut m = Vec::new();
            for i in 0..n {
                let s = key(g);
                if i > 0 {
                    t.push(',');
                }
                spell(g, &s, &mut t);
                t.push(':');
                let x = string(g, 60);
                spell(g, &x, &mut t);
                obj_set(&mut m, &s, RV::Str(x));
            }
            t.push('}');
            match json::parse(&t) {
                Ok(v) => check(&v, &RV::Obj(m)).map_err(|e| format!("{}: {}", clip(&t), e)),
                Err(e) => fail!("{} was refused with {:?}", clip(&t), e),
            }
        }
        3 => {
            // every character
            let c = char_of(g.upto(CHARS - 1));
            g.label("every-char");
            g.nontrivial = true;
            let s = c.to_string();
            g.note(|| format!("character {:?}", c));
            roundtrip_string(&s)?;
            roundtrip_key(&s)?;
            let mut st = 0;
            for how in [0, 1, 2] {
                let mut t = String::from("\"");
                spell_char(c, how, &mut st, &mut t);
                t.push('"');
                expect_string(&t, &s)?;
            }
            let mut t = String::from("\"x");
            let mut st = 12345 + c as u64;
            spell_char(c, 2, &mut st, &mut t);
            t.push_str("y\"");
            expect_string(&t, &format!("x{}y", c))
        }
        4 => {
            // every \uXXXX, in both cases; lone surrogates refused
            let u = g.upto(0xffff) as u32;
            g.label("every-unit");
            g.nontrivial = true;
            g.note(|| format!("unit {:04x}", u));
            for h in [format!("{:04x}", u), format!("{:04X}", u)] {
                let t = format!("\"\\u{}\"", h);
                match (char::from_u32(u), json::parse(&t)) {
                    (Some(c), Ok(v)) => ensure!(v.as_str() == Some(&c.to_string()[..]), "{} parses to {:?}", t, v.as_str()),
                    (Some(_), Err(e)) => fail!("{} was refused with {:?}", t, e),
                    (None, Ok(v)) => fail!("the unpaired surrogate {} was accepted as {:?}", t, v.as_str()),
                    (None, Err(_)) => {}
                }
            }
            Ok(())
        }
        5 => {
            // pairs of units
            let i = g.upto(0x1000 * 0x1000 - 1) as u32;
            let (a, b) = (0xd000 + i / 0x1000, 0xd000 + i % 0x1000);
            g.label("unit-pairs");
            g.nontrivial = true;
            let t = format!("\"\\u{:04x}\\u{:04X}\"", a, b);
            g.note(|| t.clone());
            let want = String::from_utf16(&[a as u16, b as u16]);
            match (want, json::parse(&t)) {
                (Ok(s), Ok(v)) => ensure!(v.as_str() == Some(&s[..]), "{} parses to {:?} instead of {:?}", t, v.as_str(), s),
                (Ok(_), Err(e)) => fail!("{} was refused with {:?}", t, e),
                (Err(_), Ok(v)) => fail!("{} has an unpaired surrogate but was accepted as {:?}", t, v.as_str()),
                (Err(_), Err(_)) => {}
            }
            Ok(())
        }
        _ => {
            if g.prob(250) {
                return long_segments(g);
            }
            // an escape at every place of a longer string, at buffer edges
            let n = g.size(5000);
            let at = g.upto(n as u64) as usize;
            let c = *g.pick(&['"', '\\', '\n', '\u{1}', '\u{1f600}', 'é', '/', '\u{7f}']);
            let mut s = "a".repeat(at);
            s.push(c);
            s.push_str(&"b".repeat(n - at));
            g.label("long");
            g.nontrivial = true;
            g.print_bytes(s.as_bytes());
            g.note(|| format!("{} at {} of {}", c, at, n));
            roundtrip_string(&s)?;
            roundtrip_key(&s)
        }
    }
}

pub fn c05_sweeps(quick: bool) -> Vec<Sweep> {
    if quick {
        vec![
            sweep(&[3], 0, 0x3000),
            Sweep { prefix: vec![3], lo: 0x3000, hi: CHARS, step: 37 },
            sweep(&[4], 0, 0x10000),
            // every pair of units D000..DFFF would be 16 million: take a grid
            Sweep { prefix: vec![5], lo: 0, hi: 0x1000 * 0x1000, step: 61 },
        ]
    } else {
        vec![sweep(&[3], 0, CHARS), sweep(&[4], 0, 0x10000), Sweep { prefix: vec![5], lo: 0, hi: 0x1000 * 0x1000, step: 1 }]
    }
}
