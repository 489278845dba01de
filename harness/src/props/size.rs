//! C38: what holds for small things holds for large ones.

use super::text::clip;
use super::{sweep, Sweep};
use crate::engine::{G, R, SMALL};
use crate::model::*;
use crate::gen::{build, build_styled};
use json::JsonValue;
use std::io;
use std::sync::atomic::Ordering::Relaxed;

fn hash(i: usize, seed: u64) -> u64 {
    let mut x = (i as u64 ^ seed).wrapping_mul(0x9e3779b97f4a7c15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^ x >> 29
}

/// Around a power of two
fn extent(g: &mut G, most: u32) -> usize {
    let k = if SMALL.load(Relaxed) {
        4 + g.below(3) as u32
    } else {
        const W: [u32; 14] = [4, 12, 4, 6, 2, 6, 3, 3, 14, 30, 8, 3, 2, 1];
        (7 + g.weighted(&W) as u32).min(most)
    };
    let d = *g.pick(&[0i64, 1, -1, 2, -2, 3, 5, -7]);
    let n = match g.weighted(&[65, 15, 20]) {
        0 => 1i64 << k,
        1 => 10i64.pow(1 + k * 3 / 10),
        _ => g.range(1 << k, 2 << k) as i64,
    };
    (n + d).min((1 << most) + 8) as usize
}

/// A place among n
fn place(g: &mut G, n: usize) -> usize {
    match g.below(5) {
        0 => 0,
        1 => n.saturating_sub(1 + g.below(3)),
        2 => {
            let k = g.below(20);
            ((1usize << k) + g.below(3)).saturating_sub(1).min(n.saturating_sub(1))
        }
        _ => g.below(n.max(1)),
    }
}

/// A string of about n bytes whose parts tell where they belong
fn long_string(g: &mut G, n: usize) -> String {
    let seed = g.upto(u64::MAX);
    let kind = g.below(6);
    let mut s = String::with_capacity(n + 8);
    const MIXED: [&str; 12] = ["a", "b", "\"", "\\", "\n", "\u{1}", "\u{7f}", "é", "€", "\u{1f600}", "/", "\u{2028}"];
    const HARD: [char; 8] = ['"', '\\', '\n', '\t', '\u{0}', '\u{1f}', '\u{8}', '\r'];
    const WIDE: [char; 6] = ['é', '€', '\u{1f600}', '\u{ffff}', '\u{10ffff}', '\u{80}'];
    let mut i = 0;
    while s.len() < n {
        let h = hash(i, seed);
        let plain = (b'a' + (h % 26) as u8) as char;
        match kind {
            0 => s.push_str(MIXED[(h % 12) as usize]),
            1 => s.push(HARD[(h % 8) as usize]),
            2 => s.push(WIDE[(h % 6) as usize]),
            _ => s.push(plain),
        }
        i += 1;
    }
    if kind >= 3 {
        // plain but for one place
        let x = *g.pick(&["\"", "\\", "\n", "\u{0}", "é", "€", "\u{1f600}", "\u{7f}", "z"]);
        let at = place(g, s.len());
        if kind == 3 {
            s.insert_str(at, x);
        } else if kind == 4 {
            s.replace_range(at..at + 1, x);
        }
    }
    s
}

fn element(i: usize, seed: u64) -> RV {
    let h = hash(i, seed);
    match h % 11 {
        0 => RV::Null,
        1 => RV::Bool(h & 64 != 0),
        2 => RV::Arr(vec![]),
        3 => RV::Arr(vec![RV::Num(Num::int(i as i128))]),
        4 => RV::Obj(vec![("i".into(), RV::Num(Num::int(i as i128)))]),
        5 => RV::Str(format!("element number {} of all", i)),
        6 => RV::Str(format!("{}", i)),
        7 => RV::Num(Num { nan: false, neg: h & 64 != 0, m: i as u64 + 1, e: -3 }),
        8 => RV::Num(Num::int((h >> 8) as i128)),
        _ => RV::Num(Num::int(i as i128)),
    }
}

fn member_name(i: usize, style: u64) -> String {
    match style {
        0 => format!("{}", i),
        1 => format!("k{:x}", i),
        2 => format!("a name that goes beyond the inline buffer {}", i),
        _ => format!("{}\u{e9}{}", i % 10, i / 10),
    }
}

/// Takes some of what it is given
struct Slow {
    got: Vec<u8>,
    seed: u64,
    calls: usize,
    most: usize,
}

impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let h = hash(self.calls, self.seed) as usize;
        if h % 16 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = b.len().min(1 + (h >> 8) % self.most);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn first_difference(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

fn same_text(what: &str, got: &[u8], want: &str) -> R {
    let want = want.as_bytes();
    if got != want {
        let at = first_difference(got, want);
        let show = |x: &[u8]| String::from_utf8_lossy(&x[at.min(x.len())..(at + 20).min(x.len())]).into_owned();
        fail!("{} gives {} bytes instead of {}; they differ from byte {} on: {:?} instead of {:?}", what, got.len(), want.len(), at, show(got), show(want));
    }
    Ok(())
}

fn parsed(what: &str, t: &str, m: &RV) -> Result<JsonValue, String> {
    match json::parse(t) {
        Ok(v) => {
            check(&v, m).map_err(|e| format!("{}, {} bytes: {}", what, t.len(), clip(&e)))?;
            Ok(v)
        }
        Err(e) => Err(format!("{}, {} bytes, is refused: {:?}", what, t.len(), e)),
    }
}

/// Places outside strings where a value or key is about to begin, and places
/// inside strings between two characters
fn openings(t: &[char]) -> (Vec<usize>, Vec<usize>) {
    let (mut outside, mut inside) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            '"' => {
                i += 1;
                while t[i] != '"' {
                    inside.push(i);
                    i += match t[i] {
                        '\\' if t[i + 1] == 'u' => 6,
                        '\\' => 2,
                        _ => 1,
                    };
                }
                inside.push(i);
            }
            ',' | '[' | '{' | ':' => outside.push(i + 1),
            _ => {}
        }
        i += 1;
    }
    (outside, inside)
}

fn broken(g: &mut G, t: &str) -> R {
    let mut t: Vec<char> = t.chars().collect();
    let (outside, inside) = openings(&t);
    let how = g.below(4);
    if how == 0 {
        // a proper prefix
        let end = t.iter().rposition(|c| !matches!(c, ' ' | '\t'..='\r')).unwrap_or(1).max(1);
        let n = 1 + place(g, end);
        g.label("cut");
        let x: String = t[..n].iter().collect();
        let got = json::parse(&x).err();
        ensure!(got == Some(json::Error::UnexpectedEndOfJson), "the first {} of {} characters give {:?}", n, t.len(), got);
        return Ok(());
    }
    let (places, x) = if how == 1 && !inside.is_empty() {
        g.label("broken in a string");
        (inside, *g.pick(&['\n', '\u{0}', '\u{1f}', '\t']))
    } else {
        g.label("broken between");
        (outside, *g.pick(&['x', '\u{e9}', '\u{1f600}', ':', '\u{0}']))
    };
    if places.is_empty() {
        return Ok(());
    }
    let at = places[place(g, places.len())];
    t.insert(at, x);
    let (line, column) = position(&t, at);
    let s: String = t.iter().collect();
    let got = json::parse(&s).err();
    let want = json::Error::UnexpectedCharacter { ch: x, line, column };
    ensure!(got.as_ref() == Some(&want), "with {:?} put in at character {} of {}: {:?} instead of {:?}", x, at, t.len(), got, want);
    Ok(())
}

/// What holds for every value
fn whole(g: &mut G, m: &RV, v: &JsonValue) -> R {
    let t = compact_text(m);
    let style = g.upto(u64::MAX);
    check(v, m).map_err(|e| format!("as built: {}", clip(&e)))?;
    for _ in 0..1 + g.below(3) {
        match g.below(9) {
            0 => same_text("dump", v.dump().as_bytes(), &t)?,
            1 => {
                let k = g.below(9);
                let p = pretty_text(m, k);
                same_text("pretty", v.pretty(k as u16).as_bytes(), &p)?;
                parsed("pretty text", &p, m)?;
            }
            2 => {
                let mut w = Slow { got: Vec::new(), seed: style, calls: 0, most: *g.pick(&[7, 300, 5000, 70000, 300000]) };
                ensure!(v.write(&mut w).is_ok(), "writing fails");
                same_text("write", &w.got, &t)?;
            }
            3 => {
                let k = g.below(5);
                let mut w = Slow { got: Vec::new(), seed: style, calls: 0, most: *g.pick(&[7, 300, 5000, 70000, 300000]) };
                ensure!(v.write_pretty(&mut w, k as u16).is_ok(), "writing fails");
                same_text("write_pretty", &w.got, &pretty_text(m, k))?;
            }
            4 => {
                let w = parsed("compact text", &t, m)?;
                ensure!(w == *v && *v == w, "the value read back from {} bytes differs", t.len());
            }
            5 => {
                let c = v.clone();
                check(&c, m).map_err(|e| format!("the clone: {}", clip(&e)))?;
                ensure!(c == *v && *v == c, "the clone is not equal");
            }
            6 => {
                let mut s = style;
                let w = build_styled(m, &mut s);
                ensure!(w == *v && *v == w, "the same value built another way is not equal");
                if let RV::Obj(p) = m {
                    let mut p = p.clone();
                    p.reverse();
                    let w = build_styled(&RV::Obj(p), &mut s);
                    ensure!(w == *v && *v == w, "an object with the same members in another order is not equal");
                }
                let mut s = style;
                let mut into = JsonValue::from(vec![1, 2, 3]);
                into.clone_from(v);
                check(&into, m).map_err(|e| format!("clone_from: {}", clip(&e)))?;
                let mut w = build_styled(m, &mut s);
                if alter(g, &mut w) {
                    ensure!(w != *v && *v != w, "a value that differs in one place is equal");
                }
            }
            7 => {
                if let RV::Str(s) = m {
                    same_text("Display", v.to_string().as_bytes(), s)?;
                } else {
                    same_text("Display", v.to_string().as_bytes(), &t)?;
                }
            }
            _ => {
                let laid = g.flip();
                broken(g, &if laid { pretty_text(m, 1) } else { t.clone() })?
            }
        }
    }
    Ok(())
}

/// Changes one part
fn alter(g: &mut G, v: &mut JsonValue) -> bool {
    match v {
        JsonValue::String(s) => {
            let mut at = place(g, s.len());
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            let old = s[at..].chars().next();
            match (g.below(3), old) {
                (0, _) => s.insert(at, '~'),
                (1, Some(_)) => {
                    s.remove(at);
                }
                (_, Some(c)) => s.replace_range(at..at + c.len_utf8(), if c == 'q' { "r" } else { "q" }),
                _ => s.push('q'),
            }
        }
        JsonValue::Array(a) => {
            let at = place(g, a.len());
            match g.below(3) {
                0 => {
                    a.push(JsonValue::Null);
                }
                1 => {
                    a.pop();
                }
                _ => a[at] = JsonValue::from("another element"),
            }
        }
        JsonValue::Object(o) => {
            let at = place(g, o.len());
            let k = match o.iter().nth(at) {
                Some((k, _)) => k.to_string(),
                None => return false,
            };
            match g.below(3) {
                0 => o.insert("another name, that is nowhere else", JsonValue::Null),
                1 => {
                    o.remove(&k);
                }
                _ => o.insert(&k, JsonValue::from("another member's value")),
            }
        }
        _ => return false,
    }
    true
}

/// Reads or builds
fn made(g: &mut G, m: &RV) -> Result<JsonValue, String> {
    Ok(match g.below(4) {
        0 => {
            let t = compact_text(m);
            parsed("compact text", &t, m)?
        }
        1 => {
            let t = pretty_text(m, g.below(3));
            parsed("pretty text", &t, m)?
        }
        _ => build(g, m),
    })
}

pub fn c38(g: &mut G) -> R {
    g.nontrivial = true;
    match g.weighted(&[25, 15, 25, 12, 15, 8, 0]) {
        0 => {
            let n = extent(g, 20);
            let s = long_string(g, n);
            g.label("string");
            g.note(|| format!("a string of {} bytes, {}", s.len(), clip(&s)));
            let m = match g.below(4) {
                0 => RV::Arr(vec![RV::Num(Num::int(1)), RV::Str(s.clone()), RV::Str("end".into())]),
                1 => RV::Obj(vec![("a".into(), RV::Str(s.clone())), ("b".into(), RV::Bool(true))]),
                _ => RV::Str(s.clone()),
            };
            let mut v = made(g, &m)?;
            whole(g, &m, &v)?;
            let x = match &m {
                RV::Arr(_) => &mut v[1],
                RV::Obj(_) => &mut v["a"],
                _ => &mut v,
            };
            ensure!(x.as_str() == Some(&s[..]) && *x == s[..] && *x == s && s == *x, "it is not the string it was made of");
            let again = x.take_string();
            ensure!(again.as_ref() == Some(&s), "take_string gives another text, of {:?} bytes", again.map(|x| x.len()));
            ensure!(x.is_null(), "a taken string leaves {}", describe(x));
            // spelled with escapes
            let seed = g.upto(u64::MAX);
            let often = *g.pick(&[1u64, 2, 50, 3000]);
            let mut t = String::from("[\"");
            for (i, c) in s.chars().enumerate() {
                let h = hash(i, seed);
                if h % often == 0 && (c as u32) < 0x10000 {
                    t.push_str(&if h & 128 == 0 { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) });
                } else if h % often == 0 {
                    let mut b = [0; 2];
                    for x in c.encode_utf16(&mut b) {
                        t.push_str(&format!("\\u{:04x}", x));
                    }
                } else {
                    let e = escape(&c.to_string());
                    t.push_str(&e[1..e.len() - 1]);
                }
            }
            t.push_str("\",2]");
            parsed("the string spelled with escapes", &t, &RV::Arr(vec![RV::Str(s), RV::Num(Num::int(2))]))?;
            Ok(())
        }
        1 => {
            let n = extent(g, 19);
            let s = long_string(g, n);
            g.label("key");
            g.note(|| format!("a key of {} bytes, {}", s.len(), clip(&s)));
            let near = {
                let mut x = JsonValue::String(s.clone());
                alter(g, &mut x);
                x.take_string().unwrap_or_default()
            };
            let mut p = vec![("a".to_string(), RV::Num(Num::int(1))), (s.clone(), RV::Num(Num::int(2))), (near.clone(), RV::Num(Num::int(3))), ("b".to_string(), RV::Null)];
            if near == s {
                p.remove(2);
            }
            if g.flip() {
                p.reverse();
            }
            let m = RV::Obj(p.clone());
            let mut v = made(g, &m)?;
            whole(g, &m, &v)?;
            ensure!(v.has_key(&s) && v[&s[..]] == 2 && v[s.clone()] == 2, "the key of {} bytes is not found", s.len());
            let mut longer = s.clone();
            longer.push('~');
            ensure!(!v.has_key(&longer) || longer == near, "a longer key is found");
            v[&s[..]] = "changed".into();
            obj_set(&mut p, &s, RV::Str("changed".into()));
            check(&v, &RV::Obj(p.clone())).map_err(|e| format!("after an assignment: {}", clip(&e)))?;
            let x = v.remove(&s);
            ensure!(x == "changed" && !v.has_key(&s), "removing the key gives {}", clip(&x.dump()));
            p.retain(|x| x.0 != s);
            check(&v, &RV::Obj(p)).map_err(|e| format!("after a removal: {}", clip(&e)))
        }
        2 => {
            let n = extent(g, 19);
            let seed = g.upto(u64::MAX);
            let mut a: Vec<RV> = (0..n).map(|i| element(i, seed)).collect();
            g.label("array");
            g.note(|| format!("an array of {} elements", n));
            let nested = g.prob(250);
            let m = if nested { RV::Arr(vec![RV::Arr(a.clone()), RV::Arr(vec![])]) } else { RV::Arr(a.clone()) };
            let mut v = made(g, &m)?;
            whole(g, &m, &v)?;
            let mut v = if nested { v[0].take() } else { v.take() };
            for _ in 0..g.size(8) {
                let n = a.len();
                let i = place(g, n);
                match g.below(9) {
                    0 => {
                        let x = v.array_remove(i);
                        let want = if i < n { a.remove(i) } else { RV::Null };
                        check(&x, &want).map_err(|e| format!("array_remove({}) of {}: {}", i, n, clip(&e)))?;
                    }
                    1 => {
                        ensure!(v.push("pushed").is_ok(), "push fails");
                        a.push(RV::Str("pushed".into()));
                    }
                    2 => {
                        let x = v.pop();
                        check(&x, &a.pop().unwrap_or(RV::Null)).map_err(|e| format!("pop of {}: {}", n, clip(&e)))?;
                    }
                    3 => {
                        v[n] = "at the end".into();
                        a.push(RV::Str("at the end".into()));
                    }
                    4 if n > 0 => {
                        v[i] = i.into();
                        a[i] = RV::Num(Num::int(i as i128));
                    }
                    5 => {
                        let (mut x, mut y) = (v.members(), a.iter());
                        let (k, l) = (g.below(n.max(1)), g.below(n.max(1)));
                        let (p, q) = (x.nth(k), y.nth(k));
                        ensure!(p.is_some() == q.is_some(), "nth({}) of {} is {:?}", k, n, p.is_some());
                        if let (Some(p), Some(q)) = (p, q) {
                            check(p, q).map_err(|e| format!("nth({}) of {}: {}", k, n, clip(&e)))?;
                        }
                        let (mut x, mut y) = (x.rev(), y.rev());
                        ensure!(x.len() == y.len(), "{} elements are left instead of {}", x.len(), y.len());
                        match (x.nth(l), y.nth(l)) {
                            (Some(p), Some(q)) => check(p, q).map_err(|e| format!("nth({}) from the back after {} of {}: {}", l, k, n, clip(&e)))?,
                            (None, None) => {}
                            (p, q) => fail!("nth({}) from the back after {} of {}: {} instead of {}", l, k, n, p.is_some(), q.is_some()),
                        }
                    }
                    6 => {
                        ensure!(v.contains("nowhere to be found") == false, "contains what it does not");
                        if i < n {
                            if let RV::Num(_) | RV::Null | RV::Bool(_) = a[i] {
                                let x = v[i].clone();
                                ensure!(v.contains(x), "contains does not find element {} of {}", i, n);
                            }
                        }
                        ensure!(v[n].is_null() && v[n + 65536].is_null() || n == 0, "reading beyond the end gives something");
                    }
                    7 => {
                        for (i, x) in v.members_mut().enumerate().skip(i) {
                            if i % 5 == 0 {
                                *x = JsonValue::Null;
                                a[i] = RV::Null;
                            }
                        }
                    }
                    _ => {
                        ensure!(v.len() == n && v.is_empty() == (n == 0), "length is {} instead of {}", v.len(), n);
                        ensure!(v.members().count() == n && v.members().rev().count() == n, "iteration gives {} elements of {}", v.members().count(), n);
                    }
                }
            }
            check(&v, &RV::Arr(a)).map_err(|e| format!("after these operations: {}", clip(&e)))
        }
        3 => {
            let n = extent(g, 17);
            let seed = g.upto(u64::MAX);
            let style = g.upto(3);
            let mut p: Vec<(String, RV)> = (0..n).map(|i| (member_name(i, style), element(i, seed))).collect();
            g.label("object");
            g.note(|| format!("an object of {} members like {:?}", n, member_name(7, style)));
            let m = RV::Obj(p.clone());
            let mut v = made(g, &m)?;
            whole(g, &m, &v)?;
            for _ in 0..g.size(6) {
                let n = p.len();
                let i = place(g, n);
                if n == 0 {
                    break;
                }
                let k = p[i].0.clone();
                match g.below(6) {
                    0 => {
                        let x = v.remove(&k);
                        check(&x, &p.remove(i).1).map_err(|e| format!("remove of member {} of {}: {}", i, n, clip(&e)))?;
                        ensure!(!v.has_key(&k), "member {} of {} is there after its removal", i, n);
                    }
                    1 => {
                        ensure!(v.insert(&k, i).is_ok(), "insert fails");
                        p[i].1 = RV::Num(Num::int(i as i128));
                    }
                    2 => {
                        v[&k[..]] = "assigned".into();
                        p[i].1 = RV::Str("assigned".into());
                    }
                    3 => {
                        v["fresh"] = n.into();
                        obj_set(&mut p, "fresh", RV::Num(Num::int(n as i128)));
                    }
                    4 => {
                        for (i, (_, x)) in v.entries_mut().enumerate().skip(i) {
                            if i % 5 == 0 {
                                *x = JsonValue::Null;
                                p[i].1 = RV::Null;
                            }
                        }
                    }
                    _ => {
                        ensure!(v.len() == n && v.entries().count() == n && v.entries().rev().count() == n, "length is {} instead of {}", v.len(), n);
                        match v.entries().nth(i) {
                            Some((kk, _)) => ensure!(k == kk, "number {} of {} is {:?} instead of {:?}", i, n, kk, k),
                            None => fail!("there is no member number {} of {}", i, n),
                        }
                    }
                }
            }
            check(&v, &RV::Obj(p)).map_err(|e| format!("after these operations: {}", clip(&e)))
        }
        4 => {
            // long runs of space and many lines
            let n = extent(g, 19);
            let seed = g.upto(u64::MAX);
            let kind = g.below(7);
            let mut run = String::new();
            let mut i = 0;
            while run.len() < n {
                let h = hash(i, seed);
                run.push_str(match kind {
                    0 => " ",
                    1 => "\n",
                    2 => "\r\n",
                    3 => "\t",
                    4 => ["\n", " ", "\t", "\r", "\r\n", "\x0b", "\x0c"][(h % 7) as usize],
                    5 => if h % 1000 == 0 { "\n" } else { " " },
                    _ => if i == 300 { "\n" } else { " " },
                });
                i += 1;
            }
            let parts = ["", "{", "\"a\"", ":", "[", "1.5", ",", "\"\u{e9}\"", ",", "true", "]", ",", "\"b\"", ":", "{", "}", "}"];
            let at = g.below(parts.len() + 1);
            let mut t = String::new();
            let mut starts = Vec::new();
            for (i, p) in parts.iter().enumerate() {
                starts.push(t.chars().count());
                if i == at {
                    t.push_str(&run);
                }
                t.push_str(p);
            }
            if at == parts.len() {
                t.push_str(&run);
            }
            g.label("space");
            g.note(|| format!("{} bytes of space before part {} of {}", run.len(), at, parts.concat()));
            let m = RV::Obj(vec![
                ("a".into(), RV::Arr(vec![RV::Num(Num { nan: false, neg: false, m: 15, e: -1 }), RV::Str("\u{e9}".into()), RV::Bool(true)])),
                ("b".into(), RV::Obj(vec![])),
            ]);
            parsed("the text", &t, &m)?;
            // and after it something wrong, or nothing more
            let c: Vec<char> = t.chars().collect();
            if g.flip() {
                broken(g, &t)
            } else {
                let mut c = c;
                c.push('x');
                let (line, column) = position(&c, c.len() - 1);
                let s: String = c.iter().collect();
                let got = json::parse(&s).err();
                let want = json::Error::UnexpectedCharacter { ch: 'x', line, column };
                ensure!(got.as_ref() == Some(&want), "with x put at the end: {:?} instead of {:?}", got, want);
                Ok(())
            }
        }
        6 => every_length(g),
        _ => {
            // many containers side by side, each some levels deep
            let n = extent(g, 15);
            let levels = g.range(1, 6) as usize;
            let seed = g.upto(u64::MAX);
            let one = |i: usize| {
                let mut x = element(i, seed);
                for l in 0..1 + hash(i, seed) as usize % levels {
                    x = if hash(i, l as u64) & 64 == 0 { RV::Arr(vec![x]) } else { RV::Obj(vec![("in".into(), x), ("x".into(), RV::Null)]) };
                }
                x
            };
            g.label("siblings");
            g.note(|| format!("{} containers of up to {} levels", n, levels));
            let m = RV::Arr((0..n).map(one).collect());
            let v = made(g, &m)?;
            whole(g, &m, &v)
        }
    }
}

const SIDES: u64 = 21;
const FORMS: u64 = 8;

/// Enumerated: runs of one form whose length is any near a power of two
fn every_length(g: &mut G) -> R {
    let i = g.upto(14 * SIDES * FORMS - 1);
    let form = i % FORMS;
    let k = i / FORMS / SIDES + 4;
    let k = if SMALL.load(Relaxed) { 4 + k % 4 } else { k };
    let n = ((1i64 << k) + (i / FORMS % SIDES) as i64 - 10) as usize;
    g.label("every length");
    g.note(|| format!("form {}, {} bytes", form, n));
    let piece = |j: usize| (b'a' + (j % 23) as u8) as char;
    let run: String = (0..n).map(piece).collect();
    let (one, two) = (RV::Num(Num::int(1)), RV::Num(Num::int(2)));
    match form {
        // space: before everything, between and after
        0..=2 => {
            let run: String = match form {
                0 => " ".repeat(n),
                1 => "\n".repeat(n),
                _ => (0..n).map(|j| if j % 97 == 5 { '\n' } else { ' ' }).collect(),
            };
            let m = RV::Arr(vec![one, two]);
            parsed("space before", &format!("{}[1,2]", run), &m)?;
            parsed("space at the start", &format!("[{}1,2]", run), &m)?;
            parsed("space within", &format!("[1{},2]", run), &m)?;
            parsed("space within", &format!("[1,{}2]", run), &m)?;
            parsed("space at the end", &format!("[1,2{}]", run), &m)?;
            parsed("space after", &format!("[1,2]{}", run), &m)?;
            parsed("space in an object", &format!("{{\"a\"{}:1,{}\"b\":2}}", run, run), &RV::Obj(vec![("a".into(), RV::Num(Num::int(1))), ("b".into(), RV::Num(Num::int(2)))]))?;
            let t: Vec<char> = format!("[1,{}x", run).chars().collect();
            let (line, column) = position(&t, t.len() - 1);
            let s: String = t.iter().collect();
            let (got, want) = (json::parse(&s).err(), json::Error::UnexpectedCharacter { ch: 'x', line, column });
            ensure!(got.as_ref() == Some(&want), "after {} characters of space: {:?} instead of {:?}", n, got, want);
            Ok(())
        }
        // strings: plain, then with one thing at the end, at the start, or an
        // escape before and after
        _ => {
            let s = match form {
                3 => run,
                4 => run + "\"",
                5 => format!("\u{1}{}", run),
                6 => format!("\n{}\\", run),
                _ => run + "\u{1f600}",
            };
            let m = RV::Arr(vec![RV::Str(s.clone()), two]);
            let v = JsonValue::from(vec![JsonValue::from(&s[..]), 2.into()]);
            check(&v, &m)?;
            let t = compact_text(&m);
            same_text("dump", v.dump().as_bytes(), &t)?;
            same_text("pretty", v.pretty(2).as_bytes(), &pretty_text(&m, 2))?;
            let mut w = Vec::new();
            ensure!(v.write(&mut w).is_ok(), "writing fails");
            same_text("write", &w, &t)?;
            let w = parsed("the text", &t, &m)?;
            ensure!(w == v && w.clone() == v, "the string of {} bytes read back is not equal", s.len());
            let o = RV::Obj(vec![("b".into(), one), (s.clone(), RV::Null)]);
            let mut v = parsed("as a key", &compact_text(&o), &o)?;
            same_text("dump with such a key", v.dump().as_bytes(), &compact_text(&o))?;
            ensure!(v.has_key(&s) && !v.has_key(&s[1..]), "the key of {} bytes is not found, or a part of it is", s.len());
            ensure!(v.remove(&s).is_null() && v.len() == 1, "the key of {} bytes is not removed", s.len());
            Ok(())
        }
    }
}

pub fn c38_sweeps(_quick: bool) -> Vec<Sweep> {
    let all = 14 * SIDES * FORMS;
    vec![sweep(&[6], 0, all)]
}
