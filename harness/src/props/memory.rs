//! C19 memory safety and leaks, C22 cost, C23 threads.

use super::containers::{apply, gen_op, show_op, Op};
use super::text::clip;
use super::Sweep;
use crate::alloc;
use crate::cov;
use crate::engine::{G, R};
use crate::gen::*;
use crate::model::*;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};
use std::sync::atomic::Ordering::Relaxed;

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug)]
enum Cmd {
    Parse(usize, String),
    Build(usize, RV, u64),
    Apply(usize, Op),
    Clone(usize, usize),
    Swap(usize, usize),
    Drop(usize),
    Compare(usize, usize),
    Print(usize, u64),
    /// Writer that fails, or panics, after so many bytes
    Broken(usize, usize, bool),
    /// Iterator left half way
    Part(usize, usize, u64),
    /// Takes the container apart, keeping one piece
    Apart(usize, usize, u64),
    /// Moves a piece of one value into another
    Transplant(usize, usize, u32),
    /// Conversion whose source panics at the given item
    Interrupted(usize, usize, u64),
    Wrap(usize, usize, u64),
    Strings(usize),
}

const SLOTS: usize = 4;

fn gen_cmd(g: &mut G, i: usize) -> Cmd {
    let s = g.below(SLOTS);
    let first = if i < 2 { 60 } else { 10 };
    match g.weighted(&[first, first, 30, 10, 3, 6, 5, 6, 5, 5, 7, 6, 3, 5, 4]) {
        0 => Cmd::Build(s, if g.prob(800) { container(g, &PLAIN) } else { leaf(g, &PLAIN) }, g.upto(u64::MAX)),
        1 => {
            let t = match g.weighted(&[60, 25, 15]) {
                0 => document(g, true).0,
                1 => {
                    let t = document(g, true).0;
                    mutate_text(g, t)
                }
                _ => wild_text(g),
            };
            Cmd::Parse(s, t)
        }
        2 => Cmd::Apply(s, gen_op(g)),
        3 => Cmd::Clone(s, g.below(SLOTS)),
        4 => Cmd::Swap(s, g.below(SLOTS)),
        5 => Cmd::Drop(s),
        6 => Cmd::Compare(s, g.below(SLOTS)),
        7 => Cmd::Print(s, g.upto(5)),
        8 => Cmd::Broken(s, g.size(200), g.flip()),
        9 => Cmd::Part(s, g.size(20), g.upto(3)),
        10 => Cmd::Apart(s, g.size(20), g.upto(3)),
        11 => Cmd::Transplant(s, g.below(SLOTS), g.upto(63) as u32),
        12 => Cmd::Interrupted(s, g.size(12), g.upto(3)),
        13 => Cmd::Wrap(s, g.below(SLOTS), g.upto(5)),
        _ => Cmd::Strings(s),
    }
}

fn show_cmd(c: &Cmd) -> String {
    match c {
        Cmd::Parse(s, t) => format!("#{} = parse {:?}", s, clip(t)),
        Cmd::Build(s, m, w) => format!("#{} = build {} in style {:x}", s, clip(&compact_text(m)), w),
        Cmd::Apply(s, op) => format!("#{} {}", s, clip(&show_op(op))),
        c => format!("{:?}", c),
    }
}

struct Broken {
    left: usize,
    panics: bool,
}

impl Write for Broken {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.panics {
                // not through the hook: the unwinding is the point
                std::panic::resume_unwind(Box::new(7u8));
            }
            return Err(io::Error::from(io::ErrorKind::WriteZero));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Bomb<'a>(&'a RV, bool);

impl From<Bomb<'_>> for JsonValue {
    fn from(b: Bomb) -> JsonValue {
        if b.1 {
            std::panic::resume_unwind(Box::new(7u8));
        }
        build_styled(b.0, &mut 0)
    }
}

type Slot = Option<(JsonValue, RV)>;

fn two(slots: &mut [Slot], a: usize, b: usize) -> Option<(&mut Slot, &mut Slot)> {
    if a == b {
        return None;
    }
    let (lo, hi) = slots.split_at_mut(a.max(b));
    Some(if a < b { (&mut lo[a], &mut hi[0]) } else { (&mut hi[0], &mut lo[b]) })
}

fn run_cmd(slots: &mut [Slot], c: &Cmd) -> R {
    match c {
        Cmd::Parse(s, t) => {
            slots[*s] = match json::parse(t) {
                Ok(v) => {
                    let m = rv_of(&v);
                    Some((v, m))
                }
                Err(e) => {
                    // errors own strings too
                    let _ = format!("{} {:?} {:?}", e, e, e == e);
                    None
                }
            }
        }
        Cmd::Build(s, m, w) => slots[*s] = Some((build_styled(m, &mut { *w }), m.clone())),
        Cmd::Apply(s, op) => {
            if let Some((v, m)) = &mut slots[*s] {
                apply(v, m, op)?;
            }
        }
        Cmd::Clone(a, b) => {
            let x = slots[*a].clone();
            // by clone_from when there is something to replace
            match (&mut slots[*b], x) {
                (Some((v, m)), Some((w, n))) if a != b => {
                    match (&mut *v, &w) {
                        (JsonValue::Object(o), JsonValue::Object(p)) => o.clone_from(p),
                        (JsonValue::Array(o), JsonValue::Array(p)) => o.clone_from(p),
                        (v, w) => v.clone_from(w),
                    }
                    *m = n;
                    check(&w, m)?;
                }
                (_, x) => slots[*b] = x,
            }
        }
        Cmd::Swap(a, b) => slots.swap(*a, *b),
        Cmd::Drop(s) => slots[*s] = None,
        Cmd::Compare(a, b) => {
            if let (Some((v, m)), Some((w, n))) = (&slots[*a], &slots[*b]) {
                ensure!((v == w) == rv_eq(m, n), "equality is {}", v == w);
            }
        }
        Cmd::Print(s, how) => {
            if let Some((v, m)) = &slots[*s] {
                match how {
                    0 => ensure!(v.dump() == compact_text(m), "prints {}", clip(&v.dump())),
                    1 => ensure!(v.pretty(3) == pretty_text(m, 3), "pretty prints {}", clip(&v.pretty(3))),
                    2 => {
                        let _ = format!("{:?}", v);
                    }
                    3 => {
                        let _ = format!("{} {:#}", v, v);
                    }
                    4 => {
                        let mut o = Vec::new();
                        let _ = v.write(&mut o);
                        let _ = v.write_pretty(&mut o, 1);
                    }
                    _ => {
                        if let JsonValue::Object(o) = v {
                            let _ = (o.dump(), o.pretty(2), format!("{:?}", o));
                        }
                    }
                }
            }
        }
        Cmd::Broken(s, left, panics) => {
            if let Some((v, _)) = &slots[*s] {
                for pretty in [false, true] {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut w = Broken { left: *left, panics: *panics };
                        if pretty { v.write_pretty(&mut w, 2) } else { v.write(&mut w) }
                    }));
                }
            }
        }
        Cmd::Part(s, k, how) => {
            if let Some((v, m)) = &mut slots[*s] {
                match how {
                    0 => {
                        let _ = (v.members().take(*k).count(), v.entries().rev().take(*k).count());
                    }
                    1 => {
                        for x in v.members_mut().take(*k) {
                            *x = JsonValue::from("replaced while iterating");
                        }
                        for (_, x) in v.entries_mut().take(*k) {
                            *x = JsonValue::from("replaced while iterating");
                        }
                        let new = || RV::Str("replaced while iterating".into());
                        match m {
                            RV::Arr(a) => a.iter_mut().take(*k).for_each(|x| *x = new()),
                            RV::Obj(o) => o.iter_mut().take(*k).for_each(|x| x.1 = new()),
                            _ => {}
                        }
                    }
                    2 => {
                        for x in v.members_mut().rev().take(*k) {
                            x.take();
                        }
                        for (_, x) in v.entries_mut().rev().take(*k) {
                            x.take();
                        }
                        match m {
                            RV::Arr(a) => a.iter_mut().rev().take(*k).for_each(|x| *x = RV::Null),
                            RV::Obj(o) => o.iter_mut().rev().take(*k).for_each(|x| x.1 = RV::Null),
                            _ => {}
                        }
                    }
                    _ => {
                        // keys borrowed across other reads
                        let keys: Vec<&str> = v.entries().map(|x| x.0).collect();
                        if let RV::Obj(o) = &*m {
                            ensure!(keys.len() == o.len(), "entries gives {} keys of {}", keys.len(), o.len());
                            for (a, b) in keys.iter().zip(o) {
                                ensure!(*a == b.0, "key {:?} reads as {:?}", b.0, a);
                            }
                        }
                    }
                }
            }
        }
        Cmd::Apart(s, k, how) => {
            if let Some((v, m)) = slots[*s].take() {
                slots[*s] = match (v, m) {
                    (JsonValue::Array(a), RV::Arr(n)) => {
                        let mut it = a.into_iter();
                        let mut jt = n.into_iter();
                        let keep = if how % 2 == 0 {
                            (it.nth(*k), jt.nth(*k))
                        } else {
                            (it.nth_back(*k), jt.nth_back(*k))
                        };
                        match keep {
                            (Some(v), Some(m)) => Some((v, m)),
                            _ => None,
                        }
                    }
                    (JsonValue::Object(o), RV::Obj(n)) => match how {
                        0 => {
                            let map: HashMap<String, JsonValue> = o.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
                            drop(o);
                            let v = JsonValue::from(map);
                            let m = rv_of(&v);
                            ensure!(rv_eq(&m, &RV::Obj(n)), "not the same after passing through a HashMap");
                            Some((v, m))
                        }
                        1 => {
                            let map: BTreeMap<String, JsonValue> = o.iter().take(*k).map(|(k, v)| (k.to_string(), v.clone())).collect();
                            drop(o);
                            let v = JsonValue::from(map);
                            let m = rv_of(&v);
                            Some((v, m))
                        }
                        2 => {
                            let p: Object = o.iter().rev().map(|(k, v)| (k, v.clone())).collect();
                            drop(o);
                            let m = RV::Obj(n.into_iter().rev().collect());
                            Some((JsonValue::Object(p), m))
                        }
                        _ => {
                            let mut o = o;
                            let mut n = n;
                            let p = o.clone();
                            o.clear();
                            ensure!(o.is_empty() && o.get("a").is_none(), "cleared object is not empty");
                            o.insert("after clear", p.into());
                            let inner = std::mem::take(&mut n);
                            Some((JsonValue::Object(o), RV::Obj(vec![("after clear".into(), RV::Obj(inner))])))
                        }
                    },
                    (v, m) => Some((v, m)),
                };
            }
        }
        Cmd::Transplant(a, b, at) => {
            if let Some((Some((v, m)), Some((w, n)))) = two(slots, *a, *b) {
                // take a child of the first
                let (x, y) = match (&mut *v, &mut *m) {
                    (JsonValue::Array(c), RV::Arr(d)) if !d.is_empty() => {
                        let i = *at as usize % d.len();
                        (c.swap_remove(i), d.swap_remove(i))
                    }
                    (JsonValue::Object(c), RV::Obj(d)) if !d.is_empty() => {
                        let (k, y) = d.remove(*at as usize % d.len());
                        match c.remove(&k) {
                            Some(x) => (x, y),
                            None => fail!("remove of a present key gives nothing"),
                        }
                    }
                    _ => (v.take(), std::mem::replace(m, RV::Null)),
                };
                // put it somewhere in the second
                match (&mut *w, &mut *n) {
                    (JsonValue::Array(c), RV::Arr(d)) => {
                        let i = *at as usize % (d.len() + 1);
                        c.insert(i, x);
                        d.insert(i, y);
                    }
                    (JsonValue::Object(c), RV::Obj(d)) => {
                        c.insert("transplanted", x);
                        obj_set(d, "transplanted", y);
                    }
                    _ => {
                        *w = x;
                        *n = y;
                    }
                }
            }
        }
        Cmd::Interrupted(s, k, how) => {
            let items: Vec<(String, RV)> = match slots[*s].as_ref().map(|x| &x.1) {
                Some(RV::Obj(o)) => o.clone(),
                Some(RV::Arr(a)) => a.iter().enumerate().map(|(i, x)| (format!("item number {} of them all, a long key", i), x.clone())).collect(),
                _ => return Ok(()),
            };
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
                0 => {
                    let o: Object = items.iter().enumerate().map(|(i, (k2, m))| (k2, Bomb(m, i == *k))).collect();
                    JsonValue::Object(o)
                }
                1 => {
                    let b: Vec<Bomb> = items.iter().enumerate().map(|(i, (_, m))| Bomb(m, i == *k)).collect();
                    JsonValue::from(b)
                }
                2 => {
                    let b: BTreeMap<String, Bomb> = items.iter().enumerate().map(|(i, (k2, m))| (k2.clone(), Bomb(m, i == *k))).collect();
                    JsonValue::from(b)
                }
                _ => {
                    let mut o = Object::new();
                    for (i, (k2, m)) in items.iter().enumerate() {
                        o.insert(k2, JsonValue::from(Bomb(m, i == *k)));
                    }
                    JsonValue::Object(o)
                }
            }));
        }
        Cmd::Wrap(a, b, how) => {
            let x = slots[*a].take();
            let y = if a == b { None } else { slots[*b].take() };
            let (v, m) = x.unwrap_or((JsonValue::Null, RV::Null));
            let (w, n) = y.unwrap_or((JsonValue::Null, RV::Null));
            slots[*a] = Some(match how {
                0 => (json::array![v, w], RV::Arr(vec![m, n])),
                1 => (json::object! { "first" => v, "second" => w }, RV::Obj(vec![("first".into(), m), ("second".into(), n)])),
                2 => (json::object! { first: v, "a key of more than thirty-two bytes": [w] },
                    RV::Obj(vec![("first".into(), m), ("a key of more than thirty-two bytes".into(), RV::Arr(vec![n]))])),
                3 => (JsonValue::from(vec![v, w]), RV::Arr(vec![m, n])),
                4 => {
                    let mut o = Object::with_capacity(1);
                    o.insert("same", v);
                    o.insert("same", w);
                    (o.into(), RV::Obj(vec![("same".into(), n)]))
                }
                _ => (JsonValue::from(Some(v)), m),
            });
        }
        Cmd::Strings(s) => {
            if let Some((v, m)) = &mut slots[*s] {
                strings(v, m)?;
            }
        }
    }
    Ok(())
}

/// Takes every string out of the value
fn strings(v: &mut JsonValue, m: &mut RV) -> R {
    match m {
        RV::Str(t) => {
            if let JsonValue::Short(s) = v {
                let owned: String = (*s).into();
                ensure!(owned == *t && s.as_str() == t, "a short string converts to {:?}", owned);
            }
            ensure!(v.as_str() == Some(&t[..]), "as_str gives {:?}", v.as_str());
            let got = v.take_string();
            ensure!(got.as_ref() == Some(&*t), "take_string gives {:?}", got);
            *m = RV::Null;
        }
        RV::Arr(a) => {
            for (x, y) in v.members_mut().zip(a) {
                strings(x, y)?;
            }
        }
        RV::Obj(o) => {
            for ((_, x), (_, y)) in v.entries_mut().zip(o) {
                strings(x, y)?;
            }
        }
        _ => ensure!(v.take_string().is_none(), "take_string gives a string"),
    }
    Ok(())
}

pub fn c19(g: &mut G) -> R {
    let small = crate::engine::SMALL.load(Relaxed);
    let n = 1 + g.size(if small { 8 } else { 60 });
    let mut plan = Vec::with_capacity(n);
    for i in 0..n {
        let c = gen_cmd(g, i);
        g.note(|| show_cmd(&c));
        g.label(match &c {
            Cmd::Parse(..) => "parse",
            Cmd::Build(..) => "build",
            Cmd::Apply(..) => "operation",
            Cmd::Clone(..) => "clone",
            Cmd::Drop(_) => "drop",
            Cmd::Broken(_, _, true) => "panicking writer",
            Cmd::Broken(..) => "failing writer",
            Cmd::Interrupted(..) => "panicking conversion",
            Cmd::Transplant(..) => "transplant",
            Cmd::Apart(..) => "taken apart",
            Cmd::Strings(_) => "strings taken",
            _ => "other",
        });
        plan.push(c);
    }
    let order = g.upto(23);
    g.nontrivial = n > 2;
    alloc::paranoid(|| {
        let mut slots: Vec<Slot> = (0..SLOTS).map(|_| None).collect();
        for (i, c) in plan.iter().enumerate() {
            run_cmd(&mut slots, c).map_err(|e| format!("step {} ({}): {}", i, clip(&show_cmd(c)), e))?;
            for (j, s) in slots.iter().enumerate() {
                if let Some((v, m)) = s {
                    check(v, m).map_err(|e| format!("after step {} ({}), #{}: {}", i, clip(&show_cmd(c)), j, e))?;
                }
            }
            if slots.iter().flatten().map(|s| s.1.nodes()).sum::<usize>() > 3000 {
                break;
            }
        }
        // every order of dropping them
        let mut k = order as usize;
        for left in (1..=SLOTS).rev() {
            let i = k % left;
            k /= left;
            drop(slots.remove(i));
            for s in slots.iter().flatten() {
                check(&s.0, &s.1).map_err(|e| format!("after dropping another value: {}", e))?;
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C22

/// A document of about `n` repetitions
struct Family {
    kind: usize,
    unit: Vec<String>,
    style: usize,
    end: usize,
}

const KINDS: usize = 24;

/// The most units a kind can have, for limits of the format
fn limit(kind: usize) -> usize {
    match kind {
        5 => 30000,
        14 | 15 => 500,
        _ => usize::MAX,
    }
}

impl Family {
    fn text(&self, n: usize) -> String {
        let u = |i: usize| &self.unit[i % self.unit.len()][..];
        let sep = ["", " ", "\n"][self.style % 3];
        let mut s = String::new();
        match self.kind {
            0 => {
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(sep);
                    s.push_str(u(i));
                }
                s.push(']');
            }
            1 | 2 => {
                s.push('{');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(sep);
                    if self.kind == 2 {
                        let k = self.style / 3 % 3 + 1;
                        s.push_str(&format!("\"repeated{}\":", i % k));
                    } else {
                        s.push_str(&match self.style / 3 % 5 {
                            0 => format!("\"key{}\":", i),
                            1 => format!("\"a-long-prefix-that-all-of-the-keys-have-in-common-{}\":", i),
                            2 => format!("\"{:016x}\":", (i as u64).wrapping_mul(0x9e3779b97f4a7c15)),
                            3 => format!("\"{}-and-a-suffix-that-they-share\":", i),
                            _ => format!("\"{:06}\":", 999999 - i),
                        });
                    }
                    s.push_str(u(i));
                }
                s.push('}');
            }
            3 => {
                s.push('"');
                for i in 0..n {
                    s.push_str(["abcdefgh", "é中😀", "/'{}[],:", "\u{7f}\u{80}\u{2028}"][(self.style + i * (self.style & 1)) % 4]);
                }
                s.push('"');
            }
            4 => {
                s.push('"');
                for i in 0..n {
                    s.push_str(["\\n", "\\\"x", "\\u00e9", "\\ud83d\\ude00", "\\\\", "\\/ab"][(self.style + i * (self.style & 1)) % 6]);
                }
                s.push('"');
            }
            5 => {
                s.push_str(&"1234567890".repeat(n / 10 + 1)[..n.max(1)]);
            }
            6 => {
                s.push_str("0.");
                s.push_str(&["0", "3", "98"][self.style % 3].repeat(n));
                s.push('1');
            }
            7 => {
                s.push_str("1e");
                s.push_str(["", "-", "+"][self.style % 3]);
                s.push_str(&["0", "9"][self.style / 3 % 2].repeat(n));
            }
            8 => {
                let w = [" ", "\n", "\t", "\r\n", " \n"][self.style % 5].repeat(n);
                s = format!("{}[{}1{},{}{{{}\"a\"{}:{}2{}}}{}]{}", w, w, w, w, w, w, w, w, w, w);
            }
            9 => {
                let d = [5, 40, 120, 300][self.style % 4];
                s.push('[');
                for i in 0..n / d + 1 {
                    if i > 0 {
                        s.push(',');
                    }
                    for j in 0..d {
                        s.push_str(if (self.style / 4 + i + j) % 3 == 0 { "{\"a\":" } else { "[" });
                    }
                    s.push('1');
                    for j in (0..d).rev() {
                        s.push_str(if (self.style / 4 + i + j) % 3 == 0 { "}" } else { "]" });
                    }
                }
                s.push(']');
            }
            10 => {
                s = format!("{{\"{}\":1,\"{}\":2}}", "k".repeat(n), "\\u006b\\n".repeat(n / 8));
            }
            11 => {
                // many empty things
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(["[]", "{}", "\"\"", "0", "null", "true", "false", "-0.0", "[ ]"][(self.style + i) % 9]);
                }
                s.push(']');
            }
            12 => {
                // a list of records
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(sep);
                    s.push_str(&format!("{{\"id\":{},\"name\":\"user {}\",\"tags\":[{}],\"ok\":{}}}", i, i, u(i), i % 2 == 0));
                }
                s.push(']');
            }
            13 => {
                // chains of objects inside one another, then the next chain
                s.push('{');
                for i in 0..n / 4 + 1 {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&format!("\"c{}\":{{\"d\":{{\"e\":{{\"f\":{}}},\"g\":[{}]}}}}", i, u(i), u(i + 1)));
                }
                s.push('}');
            }
            14 => {
                let o = self.style % 3;
                for i in 0..n {
                    s.push_str(match (o, i % 2) { (0, _) => "[", (1, _) => "{\"a\":", (_, 0) => "[1,", _ => "{\"b\":0,\"a\":" });
                }
                s.push_str("null");
                for i in (0..n).rev() {
                    s.push_str(match (o, i % 2) { (0, _) => "]", (1, _) => "}", (_, 0) => ",2]", _ => "}" });
                }
            }
            15 => {
                // siblings at every level
                for _ in 0..n {
                    s.push_str("[[1,2,3],\"sibling\",{\"k\":[]},");
                }
                s.push('0');
                for _ in 0..n {
                    s.push(']');
                }
            }
            16 => {
                // short strings, long strings, strings around the inline size
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push('"');
                    s.push_str(&"s".repeat([3, 30, 31, 100][(self.style + i * (self.style & 1)) % 4]));
                    s.push('"');
                }
                s.push(']');
            }
            17 => {
                // numbers in every form
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(["18446744073709551615", "1.5", "-7e-12", "123456789012345678901234567890.5", "0.000001", "5E+300", "3.141592653589793"][(self.style + i) % 7]);
                }
                s.push(']');
            }
            19 => {
                // every key once more, in one of several orders
                let half = n / 2 + 1;
                let long = self.style / 5 % 3 == 1;
                s.push('{');
                for i in 0..2 * half {
                    if i > 0 {
                        s.push(',');
                    }
                    let k = match self.style % 5 {
                        0 => i % half,
                        1 => i / 2,
                        2 => i.min(2 * half - 1 - i),
                        3 => if i < half { i } else { i.wrapping_mul(7919) % half },
                        _ => if i < half { i } else { half - 1 },
                    };
                    let k = (k as u64).wrapping_mul(0x9e3779b97f4a7c15);
                    s.push_str(&if long { format!("\"a long key, kept apart, {:016x}\":", k) } else { format!("\"{:016x}\":", k) });
                    s.push_str(u(i));
                }
                s.push('}');
            }
            20 => {
                // escapes in every string and key
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(["\"a\\n\"", "{\"k\\t\":1}", "{\"\\u006b\":\"\\\\ and some more that is plain\"}", "\"\\\"\\\"\\\"\\\"\"", "\"\\ud83d\\ude00\""][(self.style + i * (self.style & 1)) % 5]);
                }
                s.push(']');
            }
            21 => {
                // as printed with indentation
                let w = [0, 1, 2, 4, 8, 40][self.style % 6];
                s.push('{');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&format!("\n{}\"{:08x}\": [\n{}{},\n{}{}\n{}]", " ".repeat(w), (i as u32).wrapping_mul(0x9e3779b9), " ".repeat(2 * w), u(i), " ".repeat(2 * w), u(i + 1), " ".repeat(w)));
                }
                s.push_str("\n}");
            }
            22 => {
                // many objects with the same keys, and then some with their own
                s.push('[');
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    match self.style % 3 {
                        0 => s.push_str("{\"x\":1,\"y\":{\"x\":2,\"y\":[]},\"a key of more than thirty-two bytes, kept on the heap\":\"a text of more than thirty bytes, also there\"}"),
                        1 => s.push_str(&format!("{{\"{}\":{{\"{}\":{}}}}}", i, i + 1, u(i))),
                        _ => s.push_str("{\"x\":1,\"x\":2,\"x\":{\"x\":3,\"x\":[4]},\"y\":5}"),
                    }
                }
                s.push(']');
            }
            18 => {
                // a matrix
                let r = (n as f64).sqrt() as usize + 1;
                s.push('[');
                for i in 0..r {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push('[');
                    for j in 0..r {
                        if j > 0 {
                            s.push(',');
                        }
                        s.push_str(&(i * j).to_string());
                    }
                    s.push(']');
                }
                s.push(']');
            }
            _ => {
                // lines, an error on any of which has a position to compute
                s.push_str("[\n");
                for i in 0..n {
                    s.push_str(["1,\n", "\"é\",\r\n", "\n\n\nnull,\n"][(self.style + i) % 3]);
                }
                s.push_str("0]");
            }
        }
        match self.end {
            1 => s.push('x'),
            2 => {
                // cut off: unterminated
                while matches!(s.pop(), Some(']' | '}')) {}
            }
            3 => {
                s.pop();
                s.push_str("\n,\u{1}");
            }
            4 => {
                s.pop();
                s.push('\n');
                s.push_str("\"unterminated \\u12");
            }
            _ => {}
        }
        s
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub edges: u64,
    pub copied: u64,
    pub total: u64,
    pub count: u64,
    pub peak: u64,
}

impl Cost {
    fn now() -> Cost {
        Cost {
            edges: cov::EDGES.load(Relaxed),
            copied: cov::COPIED.load(Relaxed),
            total: alloc::TOTAL.load(Relaxed),
            count: alloc::COUNT.load(Relaxed),
            peak: 0,
        }
    }
}

/// Runs `f` within the budget; beyond it the process ends with code 77 or 78
pub fn measured<T>(budget: &Cost, f: impl FnOnce() -> T) -> (T, Cost) {
    let a = Cost::now();
    let live = alloc::LIVE.load(Relaxed);
    alloc::PEAK.store(live, Relaxed);
    let sat = |x: u64, y: u64| x.saturating_add(y);
    cov::EDGE_LIMIT.store(sat(a.edges, budget.edges), Relaxed);
    cov::COPY_LIMIT.store(sat(a.copied, budget.copied), Relaxed);
    let before = alloc::LIMIT.load(Relaxed);
    alloc::LIMIT.store(before.min(sat(live, budget.peak)), Relaxed);
    let r = f();
    alloc::LIMIT.store(before, Relaxed);
    cov::EDGE_LIMIT.store(u64::MAX, Relaxed);
    cov::COPY_LIMIT.store(u64::MAX, Relaxed);
    let b = Cost::now();
    (r, Cost {
        edges: b.edges - a.edges,
        copied: b.copied - a.copied,
        total: b.total - a.total,
        count: b.count - a.count,
        peak: alloc::PEAK.load(Relaxed) - live,
    })
}

fn scale(kind: usize) -> usize {
    if matches!(kind, 14 | 15) { 16 } else { 64 }
}

/// How much more than in proportion the cost may grow. The tree of an object
/// is as deep as the hashes of its keys make it: near the logarithm for keys
/// that differ early, several times that for keys that count up.
fn slack(f: &Family) -> u64 {
    match f.kind {
        1 if !matches!(f.style / 3 % 5, 2 | 3) => 6,
        13 | 19 => 6,
        _ => 4,
    }
}

pub const FREE: Cost = Cost { edges: u64::MAX, copied: u64::MAX, total: u64::MAX, count: u64::MAX, peak: u64::MAX };

fn allow(slack: u64, c: &Cost, len1: usize, len2: usize) -> Cost {
    // buffers grow by doubling: their sum over a growth may be several times
    // what a single allocation of the smaller one took
    let f = |x: u64, floor: u64, more: u64| -> u64 {
        ((x + floor) as u128 * (slack + more) as u128 * (len2 as u128 + 64) / (len1 as u128 + 64)) as u64
    };
    Cost { edges: f(c.edges, 400, 0), copied: f(c.copied, 600, 3), total: f(c.total, 600, 3), count: f(c.count, 12, 0), peak: f(c.peak, 600, 1) }
}

pub fn within(what: &str, c: &Cost, a: &Cost, one: &Cost, l1: usize, l2: usize) -> R {
    for (name, x, y, z) in [
        ("steps", c.edges, a.edges, one.edges),
        ("bytes copied", c.copied, a.copied, one.copied),
        ("bytes allocated", c.total, a.total, one.total),
        ("allocations", c.count, a.count, one.count),
        ("peak memory", c.peak, a.peak, one.peak),
    ] {
        ensure!(x <= y, "{}: {} grew from {} for {} bytes to {} for {} bytes", what, name, z, l1, x, l2);
    }
    Ok(())
}

pub fn c22(g: &mut G) -> R {
    let kind = g.below(KINDS);
    let style = g.upto(29) as usize;
    let end = g.weighted(&[60, 10, 10, 10, 10]);
    let fixed = g.prob(500);
    let mut unit: Vec<String> = Vec::new();
    if fixed {
        unit.push(["1", "\"text\"", "[]", "{\"a\":1}", "[1,[2,{\"b\":[]}]]"][style % 5].into());
    } else {
        for _ in 0..1 + g.below(3) {
            let sh = Shape { nan: false, exact: true, max_str: 40, big: false };
            let m = if g.flip() { leaf(g, &sh) } else { value(g, &sh) };
            let t = compact_text(&m);
            if t.len() < 1500 {
                unit.push(t);
            }
        }
        if unit.is_empty() {
            unit.push("7".into());
        }
    }
    let f = Family { kind, unit, style, end };
    // as many repetitions as make a few hundred bytes or more
    let per = f.text(32).len() / 32 + 1;
    let base = 600 + g.upto(2000) as usize;
    let n = (base / per).max(24).min(limit(kind) / scale(kind));
    let (t1, t2) = (f.text(n), f.text(n * scale(kind)));
    g.note(|| format!("kind {} style {} ending {}: {} times {:?} makes {} bytes, {} times {}; starts {:?}", kind, style, end, n, clip(&f.unit.concat()), t1.len(), n * scale(kind), t2.len(), clip(&t1)));
    g.print_bytes(t1.as_bytes());
    g.nontrivial = t2.len() > 4000;
    g.label(["array", "keys", "repeated-key", "string", "escapes", "integer", "fraction", "exponent", "white-space", "nested", "long-key",
        "empty-things", "records", "chains", "depth", "siblings", "strings", "numbers", "matrix", "keys-again", "all-escaped", "indented", "same-keys", "lines"][kind]);
    g.label(["accepted", "bad-end", "cut-off", "bad-tail", "open-string"][end]);
    cov::pause();
    let steps = cov::stepping();
    let k = slack(&f);
    let reps = if steps { 1 } else { 0 };
    for _ in 0..reps {
        let (v1, c1) = measured(&FREE, || json::parse(&t1));
        let budget = allow(k, &c1, t1.len(), t2.len());
        let (v2, c2) = measured(&budget, || json::parse(&t2));
        within("parsing", &c2, &budget, &c1, t1.len(), t2.len())?;
        let (v1, v2) = match (v1, v2) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => return Ok(()),
            // limits that only the longer one meets
            _ => return Ok(()),
        };
        for what in 0..4 {
            let run = |v: &JsonValue, b: &Cost| -> (usize, Cost) {
                let mut len = 0;
                let (_, c) = measured(b, || match what {
                    0 => len = v.dump().len(),
                    1 => len = v.pretty(2).len(),
                    2 => {
                        let mut o = Vec::new();
                        let _ = v.write(&mut o);
                        len = o.len();
                    }
                    _ => {
                        let mut o = Vec::new();
                        let _ = v.write_pretty(&mut o, 1);
                        len = o.len();
                    }
                });
                (len, c)
            };
            let (l1, c1) = run(&v1, &FREE);
            // the output's length is not known before: linear in it, up to
            // what indentation can make of the text
            let guess = t2.len() * 2 + (t2.len() / t1.len().max(1) + 1) * l1 * 4;
            let (l2, c2) = run(&v2, &allow(k, &c1, l1, guess.max(l1) * 8));
            let budget = allow(k, &c1, l1, l2);
            within(["dump", "pretty", "write", "write_pretty"][what], &c2, &budget, &c1, l1, l2)?;
        }
        let (_, c1) = measured(&FREE, || drop(v1));
        let budget = allow(k, &c1, t1.len(), t2.len());
        let (_, c2) = measured(&budget, || drop(v2));
        within("dropping", &c2, &budget, &c1, t1.len(), t2.len())?;
    }
    if !steps {
        timed(&f, per)?;
    }
    Ok(())
}

/// Processor time of the current thread in microseconds
fn cpu() -> u64 {
    #[repr(C)]
    struct T(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, t: *mut T) -> i32;
    }
    let mut t = T(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as u64 * 1_000_000 + t.1 as u64 / 1000
}

/// For what happens inside the standard library's own compiled code, which is
/// not instrumented: processor time on a megabyte, with a margin of two orders
/// of magnitude.
fn timed(f: &Family, per: usize) -> R {
    let big = (1_000_000 / per).min(limit(f.kind));
    let (t1, t2) = (f.text(big / 16), f.text(big));
    let time = |t: &str| -> u64 {
        let a = cpu();
        if let Ok(v) = json::parse(t) {
            let _ = v.dump().len();
            let _ = v.pretty(1).len();
        }
        cpu() - a
    };
    let (mut a, mut b) = (time(&t1), time(&t2));
    for _ in 0..3 {
        // plain linear cost is some 20 ns a byte
        if b < 600_000 || b / (a + 2000) < 80 {
            return Ok(());
        }
        a = a.max(time(&t1));
        b = b.min(time(&t2));
    }
    fail!("{} bytes took {} us of processor time and {} bytes took {} us", t1.len(), a, t2.len(), b)
}

pub fn c22_sweeps(_quick: bool) -> Vec<Sweep> {
    let mut v = Vec::new();
    for kind in 0..KINDS as u64 {
        for end in 0..5 {
            for style in 0..15 {
                // fixed units; two base sizes
                v.push(Sweep { prefix: vec![kind, style, end, 1], lo: 0, hi: 2000, step: 1500 });
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C23

/// Every reading operation, against the model
fn reads(v: &JsonValue, m: &RV, round: usize) -> R {
    check(v, m)?;
    let text = compact_text(m);
    ensure!(v.dump() == text, "dump gives {}", clip(&v.dump()));
    match round % 4 {
        0 => ensure!(v.pretty(2) == pretty_text(m, 2), "pretty gives {}", clip(&v.pretty(2))),
        1 => {
            let mut o = Vec::new();
            ensure!(v.write(&mut o).is_ok() && o == text.as_bytes(), "write gives {}", clip(&String::from_utf8_lossy(&o)));
        }
        2 => {
            let _ = format!("{:?}", v);
            if !matches!(m, RV::Str(_) | RV::Num(_) | RV::Lit(_)) {
                ensure!(format!("{}", v) == text, "Display gives {}", clip(&v.to_string()));
            }
        }
        _ => ensure!(json::stringify(v.clone()) == text, "stringify gives {}", clip(&json::stringify(v.clone()))),
    }
    let c = v.clone();
    ensure!(c == *v && *v == c && *v == *v, "not equal to its clone");
    drop(c);
    walk(v, m, round)
}

fn walk(v: &JsonValue, m: &RV, round: usize) -> R {
    ensure!(v.has_key("no such key") == false && v["no such key"].is_null() && v[usize::MAX / 3].is_null(), "absent members are there");
    let _ = (v.is_empty(), v.len(), v.as_str(), v.as_f64(), v.as_f32(), v.as_u64(), v.as_i64(), v.as_u8(), v.as_i8(), v.as_bool(), v.as_number());
    let _ = (v.as_fixed_point_u64(3), v.as_fixed_point_i64(3), v.is_number(), v.is_string(), v.contains("x"), v == "x", v == &1u8, v == &true);
    match m {
        RV::Arr(a) => {
            for (i, y) in a.iter().enumerate() {
                walk(&v[i], y, round)?;
            }
            if let Some(RV::Str(s)) = a.last() {
                ensure!(v.contains(&s[..]), "does not contain its last item");
            }
            ensure!(v.members().rev().count() == a.len(), "members backwards");
        }
        RV::Obj(o) => {
            for (k, y) in o {
                ensure!(v.has_key(k), "has_key({:?}) is false", clip(k));
                walk(&v[&k[..]], y, round)?;
            }
            if let JsonValue::Object(p) = v {
                ensure!(p.get("no such key").is_none() && p.len() == o.len(), "Object::get or len");
                ensure!(p.iter().rev().count() == o.len(), "iteration backwards");
                if round % 4 == 0 {
                    let q = p.clone();
                    ensure!(q == *p, "object differs from its clone");
                    let _ = (p.dump(), p.pretty(1));
                }
            }
        }
        RV::Str(s) => ensure!(v == &s[..] && v.as_str() == Some(s), "string reads as {:?}", v.as_str()),
        RV::Num(n) if !n.nan => ensure!(v == &number(n) && v.as_number() == Some(number(n)), "number reads as {:?}", v.as_number()),
        _ => {}
    }
    Ok(())
}

/// The harness decides that values may cross threads; whether the compiler
/// agrees is checked apart.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

/// A value with the same contents, by one of several histories
fn with_history(m: &RV, text: Option<&str>, mut style: u64) -> JsonValue {
    let mut v = match text {
        Some(t) => json::parse(t).unwrap_or(JsonValue::Null),
        None => build_styled(m, &mut style),
    };
    match style % 3 {
        1 if v.is_object() => {
            let _ = v.insert("a key that comes and goes again, of some length", 1);
            v.remove("a key that comes and goes again, of some length");
        }
        1 if v.is_array() => {
            let _ = v.push("an item that comes and goes again");
            v.pop();
        }
        2 => v = v.clone(),
        _ => {}
    }
    v
}

pub fn c23(g: &mut G) -> R {
    let sh = Shape { nan: true, exact: true, max_str: 80, big: true };
    let m = if g.prob(850) { container(g, &sh) } else { leaf(g, &sh) };
    let text = if !m.has_nan() && g.prob(300) { Some(compact_text(&m)) } else { None };
    let style = g.upto(u64::MAX);
    g.note(|| format!("value {} in style {:x}", clip(&compact_text(&m)), style));
    g.nontrivial = m.nodes() > 2;
    let text = text.as_deref();
    match g.weighted(if cfg!(feature = "tsan") || crate::engine::SMALL.load(Relaxed) { &[0, 60, 40] } else { &[70, 15, 15] }) {
        0 => {
            // any write to the value, from anywhere, is a fault
            g.label("read-only memory");
            let v = alloc::in_arena(|| Box::new(with_history(&m, text, style)));
            alloc::protect(true);
            let mut r = Ok(());
            for round in 0..4 {
                r = r.and_then(|_| reads(&v, &m, round));
            }
            alloc::protect(false);
            drop(v);
            alloc::end_arena();
            r
        }
        1 => {
            g.label("shared");
            let threads = 2 + g.below(3);
            let m2 = container(g, &sh);
            let (v, w) = (with_history(&m, text, style), with_history(&m2, None, style >> 8));
            let (v, w, m, m2) = (Cross(&v), Cross(&w), &m, &m2);
            g.note(|| format!("with {}, {} threads", clip(&compact_text(m2)), threads));
            let docs = (compact_text(m), compact_text(m2));
            let docs = &docs;
            let nan = (m.has_nan(), m2.has_nan());
            cov::pause();
            let gate = std::sync::Barrier::new(threads);
            let gate = &gate;
            let results: Vec<Result<R, ()>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|i| {
                        let (v, w) = (&v, &w);
                        s.spawn(move || -> R {
                            gate.wait();
                            for round in 0..if crate::engine::SMALL.load(Relaxed) { 2 } else { 6 } {
                                // the same value together, and different ones
                                if (round + i) % 3 == 0 {
                                    reads(w.get(), m2, round + i)?;
                                } else {
                                    reads(v.get(), m, round + i)?;
                                }
                                // whatever the library keeps between calls
                                let (t, n, mm) = if (round + i) % 2 == 0 { (&docs.0, nan.0, m) } else { (&docs.1, nan.1, m2) };
                                if !n {
                                    match json::parse(t) {
                                        Ok(x) => check(&x, mm)?,
                                        Err(e) => fail!("{} does not parse: {:?}", clip(t), e),
                                    }
                                    let e = json::parse(&t[..t.len() - 1]);
                                    let _ = format!("{:?}", e);
                                }
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
            });
            for r in results {
                match r {
                    Ok(r) => r.map_err(|e| format!("in one of {} threads: {}", threads, e))?,
                    Err(()) => fail!("one of {} threads panicked", threads),
                }
            }
            check(v.get(), m)
        }
        _ => {
            g.label("moved");
            let mut m = m;
            let ops: Vec<Op> = (0..g.size(10)).map(|_| gen_op(g)).collect();
            for op in &ops {
                g.note(|| show_op(op));
            }
            cov::pause();
            let gone = |_| "a thread panicked".to_string();
            let v = std::thread::scope(|s| s.spawn(|| Cross(with_history(&m, text, style))).join()).map_err(gone)?;
            // kept by the first thread's successor, worked on, and dropped elsewhere
            let r = std::thread::scope(|s| {
                let m = &mut m;
                let ops = &ops;
                s.spawn(move || -> Result<Cross<(JsonValue, JsonValue)>, String> {
                    let mut v = v.into();
                    check(&v, m)?;
                    let c = v.clone();
                    for op in ops {
                        apply(&mut v, m, op)?;
                    }
                    reads(&v, m, 0)?;
                    Ok(Cross((v, c)))
                })
                .join()
            })
            .map_err(gone)??;
            std::thread::scope(|s| {
                let m = &m;
                s.spawn(move || -> R {
                    let (v, c) = r.into();
                    drop(c);
                    reads(&v, m, 1)?;
                    drop(v);
                    Ok(())
                })
                .join()
            })
            .map_err(gone)?
        }
    }
}
