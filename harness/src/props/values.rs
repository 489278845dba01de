//! C17 equality, C21 conversions, C26 predicates and accessors.

use super::text::clip;
use crate::engine::{G, R};
use crate::gen::*;
use crate::model::*;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ C17

/// The same value in other words: numbers split differently, members permuted
fn reword(g: &mut G, m: &RV) -> RV {
    match m {
        RV::Num(n) if !n.nan => {
            let mut n = *n;
            match g.weighted(&[40, 30, 30]) {
                0 => {}
                1 => {
                    let mut k = g.upto(20);
                    while k > 0 && n.m.checked_mul(10).is_some() && n.e > i16::MIN {
                        n.m *= 10;
                        n.e -= 1;
                        k -= 1;
                    }
                }
                _ => {
                    while n.m != 0 && n.m % 10 == 0 && n.e < i16::MAX {
                        n.m /= 10;
                        n.e += 1;
                    }
                    if n.m == 0 {
                        n.e = exponent(g);
                        n.neg = g.flip();
                    }
                }
            }
            RV::Num(n)
        }
        RV::Arr(a) => RV::Arr(a.iter().map(|x| reword(g, x)).collect()),
        RV::Obj(o) => {
            let mut p: Vec<(String, RV)> = o.iter().map(|(k, x)| (k.clone(), reword(g, x))).collect();
            match g.weighted(&[40, 30, 30]) {
                0 => {}
                1 => p.reverse(),
                _ => {
                    for i in (1..p.len()).rev() {
                        let j = g.upto(i as u64) as usize;
                        p.swap(i, j);
                    }
                }
            }
            RV::Obj(p)
        }
        m => m.clone(),
    }
}

fn sibling(s: &str) -> Option<String> {
    if s.len() < 11 {
        return None;
    }
    (0..12).map(colliding).find(|grp| grp.iter().any(|x| x == s)).and_then(|grp| grp.into_iter().find(|x| x != s))
}

fn nudge_string(g: &mut G, s: &str) -> String {
    // another string of the same hash, if one is known
    if let Some(t) = sibling(s) {
        if g.prob(400) {
            return t;
        }
    }
    let mut c: Vec<char> = s.chars().collect();
    match g.weighted(&[30, 30, 20, 20]) {
        0 => c.push(*g.pick(&['x', '\0', 'a', ' ', 'é'])),
        1 if !c.is_empty() => {
            let i = g.below(c.len());
            c[i] = if c[i] == 'z' { 'y' } else { 'z' };
        }
        2 if !c.is_empty() => {
            c.pop();
        }
        _ => {
            let i = g.upto(c.len() as u64) as usize;
            c.insert(i, 'w');
        }
    }
    c.into_iter().collect()
}

/// More items of one kind at the end
fn grow(g: &mut G, a: &mut Vec<RV>) {
    let x = match a.last() {
        Some(x) if g.flip() => x.clone(),
        _ => leaf(g, &PLAIN),
    };
    for _ in 0..1 + g.size(40) {
        a.push(x.clone());
    }
}

/// A value that differs (usually) in one place
fn nudge(g: &mut G, m: &RV) -> RV {
    match m {
        RV::Arr(a) if !a.is_empty() && g.prob(800) => {
            let mut a = a.clone();
            let i = g.below(a.len());
            match g.weighted(&[60, 10, 10, 10, 10, 8, 8]) {
                5 if g.flip() => a.truncate(i),
                5 => a = a.split_off(i),
                6 => grow(g, &mut a),
                0 => a[i] = nudge(g, &a[i].clone()),
                1 => {
                    a.remove(i);
                }
                2 => a.push(RV::Null),
                3 => {
                    let j = g.below(a.len());
                    a.swap(i, j);
                }
                _ => {
                    let x = a[i].clone();
                    a.insert(i, x);
                }
            }
            RV::Arr(a)
        }
        RV::Obj(o) if !o.is_empty() && g.prob(800) => {
            let mut o = o.clone();
            let i = g.below(o.len());
            match g.weighted(&[55, 15, 15, 15, 8, 8]) {
                4 if g.flip() => o.truncate(i),
                4 => o = o.split_off(i),
                5 => {
                    for j in 0..1 + g.size(40) {
                        let k = format!("more{}", j);
                        if !o.iter().any(|x| x.0 == k) {
                            o.push((k, RV::Null));
                        }
                    }
                }
                0 => o[i].1 = nudge(g, &o[i].1.clone()),
                1 => {
                    o.remove(i);
                }
                2 => {
                    let mut k = nudge_string(g, &o[i].0.clone());
                    while o.iter().any(|x| x.0 == k) {
                        k.push('\'');
                    }
                    o[i].0 = k;
                }
                _ => {
                    let mut k = key(g);
                    while o.iter().any(|x| x.0 == k) {
                        k.push('\'');
                    }
                    o.push((k, RV::Null));
                }
            }
            RV::Obj(o)
        }
        RV::Str(s) if g.prob(800) => RV::Str(nudge_string(g, s)),
        RV::Num(n) if g.prob(800) => {
            let mut n = *n;
            match g.weighted(&[30, 20, 20, 15, 15]) {
                0 => n.m = n.m.wrapping_add(1),
                1 => n.e = n.e.wrapping_add(1),
                2 => n.neg = !n.neg,
                3 => n.m ^= 1 << g.below(64),
                _ => n.nan = !n.nan,
            }
            if n.nan {
                n = Num { nan: true, neg: false, m: 0, e: 0 };
            }
            RV::Num(n)
        }
        RV::Bool(b) => RV::Bool(!b),
        RV::Arr(a) if a.is_empty() && g.flip() => {
            let mut a = Vec::new();
            grow(g, &mut a);
            RV::Arr(a)
        }
        // another type with much the same look
        RV::Arr(a) if a.is_empty() => RV::Obj(vec![]),
        RV::Obj(o) if o.is_empty() => RV::Null,
        RV::Null => RV::Bool(false),
        RV::Num(n) => RV::Str(num_text(n)),
        RV::Str(s) if s.is_empty() => RV::Null,
        RV::Str(s) => RV::Arr(vec![RV::Str(s.clone())]),
        m => RV::Arr(vec![m.clone()]),
    }
}

#[allow(clippy::op_ref)]
fn against_plain(g: &mut G, v: &JsonValue, m: &RV) -> R {
    // strings
    let s: String = match (m, g.weighted(&[50, 50])) {
        (RV::Str(t), 0) => t.clone(),
        (RV::Str(t), _) => nudge_string(g, t),
        (m, 0) => {
            let mut o = String::new();
            compact(m, &mut o);
            o
        }
        _ => string(g, 40),
    };
    let want = matches!(m, RV::Str(t) if *t == s);
    let r: &str = &s;
    let q = clip(&s);
    ensure!((*v == *r) == want, "JsonValue == str is {} for {} and {:?}", !want, clip(&v.dump()), q);
    ensure!((*r == *v) == want, "str == JsonValue is {} for {:?} and {}", !want, q, clip(&v.dump()));
    ensure!((*v == r) == want, "JsonValue == &str is {} for {} and {:?}", !want, clip(&v.dump()), q);
    ensure!((r == *v) == want, "&str == JsonValue is {} for {:?} and {}", !want, q, clip(&v.dump()));
    ensure!((*v == s) == want, "JsonValue == String is {} for {} and {:?}", !want, clip(&v.dump()), q);
    ensure!((s == *v) == want, "String == JsonValue is {} for {:?} and {}", !want, q, clip(&v.dump()));
    ensure!((v == s) == want, "&JsonValue == String is {} for {} and {:?}", !want, clip(&v.dump()), q);
    ensure!((*v != *r) != want && (*v != s) != want && (r != *v) != want, "!= disagrees with == for {} and {:?}", clip(&v.dump()), q);
    if let JsonValue::Short(x) = v {
        ensure!((*x == *r) == want && (*r == *x) == want, "Short == str is {} for {:?} and {:?}", !want, x, q);
        ensure!((*x == s) == want && (s == *x) == want, "Short == String is {} for {:?} and {:?}", !want, x, q);
        if s.len() <= json::short::MAX_LEN {
            let y = unsafe { Short::from_slice(&s) };
            ensure!((*x == y) == want && (y == *x) == want, "Short == Short is {} for {:?} and {:?}", !want, x, y);
        }
    }
    // booleans
    for b in [false, true] {
        let want = matches!(m, RV::Bool(x) if *x == b);
        ensure!((*v == b) == want && (b == *v) == want && (v == b) == want, "comparing {} with {} gives {}", clip(&v.dump()), b, !want);
    }
    // numbers: C12 has the details, here types against one another
    let i = match m {
        RV::Num(n) if g.flip() => n.dec().int().unwrap_or(1),
        RV::Str(t) => t.trim().parse::<i64>().unwrap_or(0) as i128,
        RV::Bool(true) => 1,
        RV::Arr(a) => a.len() as i128,
        RV::Obj(o) => o.len() as i128,
        _ => g.upto(2) as i128,
    };
    macro_rules! ints {
        ($($t:ty),*) => { $(
            if let Ok(x) = <$t>::try_from(i) {
                let want = matches!(m, RV::Num(n) if !n.nan && n.same(&Num::int(x as i128)));
                ensure!((*v == x) == want, "JsonValue == {} is {} for {} and {}", stringify!($t), !want, clip(&v.dump()), x);
                ensure!((x == *v) == want, "{} == JsonValue is {} for {} and {}", stringify!($t), !want, x, clip(&v.dump()));
                ensure!((v == x) == want, "&JsonValue == {} is {} for {} and {}", stringify!($t), !want, clip(&v.dump()), x);
            }
        )* }
    }
    ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    if !matches!(m, RV::Num(_)) {
        let f = i as f64;
        ensure!(!(*v == f) && !(f == *v) && !(v == f), "{} compares equal to the f64 {}", clip(&v.dump()), f);
        let f = i as f32;
        ensure!(!(*v == f) && !(f == *v) && !(v == f), "{} compares equal to the f32 {}", clip(&v.dump()), f);
        let n = Number::from(1);
        ensure!(!(*v == n) && !(n == *v) && !(v == n), "{} compares equal to a number", clip(&v.dump()));
    }
    // objects
    let (o, p) = match m {
        RV::Obj(p) => {
            let p = if g.flip() { nudge(g, &RV::Obj(p.clone())) } else { reword(g, &RV::Obj(p.clone())) };
            match p {
                RV::Obj(p) => {
                    let mut st = g.upto(u64::MAX);
                    (build_object(&p, &mut st), p)
                }
                _ => (Object::new(), vec![]),
            }
        }
        _ => (Object::new(), vec![]),
    };
    let want = rv_eq(m, &RV::Obj(p));
    ensure!((*v == o) == want, "JsonValue == Object is {} for {} and {}", !want, clip(&v.dump()), clip(&o.dump()));
    ensure!((o == *v) == want, "Object == JsonValue is {} for {} and {}", !want, clip(&o.dump()), clip(&v.dump()));
    ensure!((v == o) == want, "&JsonValue == Object is {} for {} and {}", !want, clip(&v.dump()), clip(&o.dump()));
    if let JsonValue::Object(x) = v {
        ensure!((*x == o) == want && (o == *x) == want, "Object == Object is {} for {} and {}", !want, clip(&x.dump()), clip(&o.dump()));
    }
    Ok(())
}

/// Two objects that differ in keys of equal hash only (or not at all)
fn colliding_pair(g: &mut G, base: RV) -> (RV, RV) {
    let mut o = match base {
        RV::Obj(o) => o,
        _ => Vec::new(),
    };
    let grp = colliding(g.below(12));
    o.retain(|x| !grp.contains(&x.0));
    let (i, j) = (g.below(grp.len()), g.below(grp.len()));
    let v = leaf(g, &PLAIN);
    let at = g.upto(o.len() as u64) as usize;
    let mut p = o.clone();
    o.insert(at, (grp[i].clone(), v.clone()));
    p.insert(at, (grp[j].clone(), v));
    if g.prob(400) {
        // one more of the group, on both sides
        let k = grp[g.below(grp.len())].clone();
        let w = leaf(g, &PLAIN);
        for x in [&mut o, &mut p] {
            if !x.iter().any(|y| y.0 == k) {
                x.push((k.clone(), w.clone()));
            }
        }
    }
    let (a, b) = (RV::Obj(o), RV::Obj(p));
    if g.prob(200) { (RV::Arr(vec![a]), RV::Arr(vec![b])) } else { (a, b) }
}

pub fn c17(g: &mut G) -> R {
    let a = value(g, &PLAIN);
    let kind = g.weighted(&[35, 45, 10, 10, 6]);
    let (a, b4) = if kind == 4 { colliding_pair(g, a) } else { (a, RV::Null) };
    let b = match kind {
        4 => b4,
        0 => reword(g, &a),
        1 => {
            let b = nudge(g, &a);
            if g.flip() { reword(g, &b) } else { b }
        }
        2 => {
            let x = leaf(g, &PLAIN);
            x
        }
        _ => a.clone(),
    };
    let x = build(g, &a);
    let y = build(g, &b);
    let want = rv_eq(&a, &b);
    let (dx, dy) = (x.dump(), y.dump());
    g.print_bytes(dx.as_bytes());
    g.print_bytes(dy.as_bytes());
    g.note(|| format!("{} and {}: {}", clip(&dx), clip(&dy), if want { "equal" } else { "different" }));
    g.nontrivial = want && (dx != dy || a.nodes() > 1) || (!want && a.kind() == b.kind());
    g.label(if want { "equal" } else { "different" });
    g.label(["reworded", "nudged", "unrelated", "rebuilt", "equal-hashes"][kind]);
    ensure!((x == y) == want, "== is {} for {} and {}", !want, clip(&dx), clip(&dy));
    ensure!((y == x) == want, "== is {} for {} and {}, unlike the other way round", !want, clip(&dy), clip(&dx));
    ensure!((x != y) != want && (y != x) != want, "!= disagrees with == for {} and {}", clip(&dx), clip(&dy));
    let same_x = build(g, &a);
    ensure!(x == same_x && same_x == x, "{} differs from itself built another way", clip(&dx));
    #[allow(clippy::eq_op)]
    {
        ensure!(x == x, "{} differs from itself", clip(&dx));
    }
    // inside containers
    let (mut p, mut q) = (JsonValue::new_array(), JsonValue::new_object());
    let _ = p.push(y.clone());
    q["k"] = y.clone();
    if let JsonValue::Array(ref l) = p {
        ensure!(l.contains(&x) == want, "an array of {} contains {}: {}", clip(&dy), clip(&dx), !want);
    }
    ensure!(p.contains(&x.clone().into_probe()) == want, "contains({}) is {} in [{}]", clip(&dx), !want, clip(&dy));
    ensure!((p[0] == x) == want && (q["k"] == x) == want, "indexed comparison disagrees for {} and {}", clip(&dx), clip(&dy));
    against_plain(g, &x, &a)?;
    check(&x, &a)?;
    check(&y, &b)
}

/// `contains` takes anything comparable with a value
struct Probe(JsonValue);

impl<'a> PartialEq<JsonValue> for &'a Probe {
    fn eq(&self, o: &JsonValue) -> bool {
        self.0 == *o
    }
}

trait IntoProbe {
    fn into_probe(self) -> Probe;
}

impl IntoProbe for JsonValue {
    fn into_probe(self) -> Probe {
        Probe(self)
    }
}

// ------------------------------------------------------------------ C21

trait Arb: Sized + Clone + Into<JsonValue> {
    fn arb(g: &mut G) -> (Self, RV);
}

macro_rules! arb_int {
    ($($t:ty),*) => { $(
        impl Arb for $t {
            fn arb(g: &mut G) -> ($t, RV) {
                let v = g.int(u64::MAX) as $t;
                (v, RV::Num(Num::int(v as i128)))
            }
        }
    )* }
}
arb_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

impl Arb for f64 {
    fn arb(g: &mut G) -> (f64, RV) {
        let f = float64(g);
        let n = Number::from(f);
        (f, RV::Num(Num::of(&n)))
    }
}
impl Arb for f32 {
    fn arb(g: &mut G) -> (f32, RV) {
        let f = float32(g);
        let n = Number::from(f);
        (f, RV::Num(Num::of(&n)))
    }
}
impl Arb for bool {
    fn arb(g: &mut G) -> (bool, RV) {
        let b = g.flip();
        (b, RV::Bool(b))
    }
}
impl Arb for Number {
    fn arb(g: &mut G) -> (Number, RV) {
        let n = num(g);
        (number(&n), RV::Num(n))
    }
}
impl Arb for String {
    fn arb(g: &mut G) -> (String, RV) {
        let s = string(g, 80);
        (s.clone(), RV::Str(s))
    }
}
impl Arb for &'static str {
    fn arb(g: &mut G) -> (&'static str, RV) {
        let s = string(g, 80);
        (intern(&s), RV::Str(s))
    }
}
impl Arb for JsonValue {
    fn arb(g: &mut G) -> (JsonValue, RV) {
        let mut fuel = 6;
        let m = tree(g, &PLAIN, 2, &mut fuel);
        (build(g, &m), m)
    }
}
impl Arb for Object {
    fn arb(g: &mut G) -> (Object, RV) {
        let n = g.size(5);
        let mut o = Vec::new();
        for _ in 0..n {
            let k = key(g);
            let v = leaf(g, &PLAIN);
            obj_set(&mut o, &k, v);
        }
        let mut st = g.upto(u64::MAX);
        (build_object(&o, &mut st), RV::Obj(o))
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(g: &mut G) -> (Option<T>, RV) {
        if g.prob(650) {
            let (t, m) = T::arb(g);
            (Some(t), m)
        } else {
            (None, RV::Null)
        }
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(g: &mut G) -> (Vec<T>, RV) {
        let n = g.size(12);
        let (mut v, mut m) = (Vec::new(), Vec::new());
        for _ in 0..n {
            let (t, r) = T::arb(g);
            v.push(t);
            m.push(r);
        }
        (v, RV::Arr(m))
    }
}
impl<T: Arb> Arb for BTreeMap<String, T> {
    fn arb(g: &mut G) -> (BTreeMap<String, T>, RV) {
        let n = g.size(10);
        let (mut v, mut m) = (BTreeMap::new(), BTreeMap::new());
        for _ in 0..n {
            let k = key(g);
            let (t, r) = T::arb(g);
            v.insert(k.clone(), t);
            m.insert(k, r);
        }
        (v, RV::Obj(m.into_iter().collect()))
    }
}

/// Keeps one copy of each distinct string, so that the leak is bounded
fn intern(s: &str) -> &'static str {
    thread_local! {
        static SEEN: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default();
    }
    SEEN.with(|h| {
        let mut h = h.borrow_mut();
        if h.len() > 20000 {
            return "interned";
        }
        match h.get(s) {
            Some(x) => *x,
            None => {
                let x: &'static str = Box::leak(s.to_string().into_boxed_str());
                h.insert(x);
                x
            }
        }
    })
}

fn every_way<T: Arb>(g: &mut G) -> R {
    let (t, m) = T::arb(g);
    let name = std::any::type_name::<T>();
    let m = match &m {
        // the interning table may be full
        RV::Str(_) => rv_of(&t.clone().into()),
        _ => m,
    };
    let ctx = |how: &str, e: String| format!("{} of {} ({}): {}", how, name, clip(&compact_text(&m)), e);
    let a: JsonValue = t.clone().into();
    g.print_bytes(a.dump().as_bytes());
    g.print_bytes(name.as_bytes());
    g.note(|| format!("{} -> {}", name, clip(&a.dump())));
    g.nontrivial = m.nodes() > 1 || !matches!(m, RV::Null);
    check(&a, &m).map_err(|e| ctx("into()", e))?;
    check(&json::from(t.clone()), &m).map_err(|e| ctx("json::from", e))?;
    let text = compact_text(&m);
    let s = json::stringify(t.clone());
    ensure!(s == text, "stringify of {} gives {} instead of {}", name, clip(&s), clip(&text));
    let w = g.upto(5) as u16;
    let s = json::stringify_pretty(t.clone(), w);
    ensure!(s == pretty_text(&m, w as usize), "stringify_pretty of {} gives {}", name, clip(&s));
    // converted on the way into containers
    let mut arr = JsonValue::new_array();
    arr.push(t.clone()).map_err(|e| e.to_string())?;
    check(&arr, &RV::Arr(vec![m.clone()])).map_err(|e| ctx("push", e))?;
    let mut obj = JsonValue::new_object();
    obj.insert("k", t.clone()).map_err(|e| e.to_string())?;
    check(&obj, &RV::Obj(vec![("k".into(), m.clone())])).map_err(|e| ctx("insert", e))?;
    // sequences and maps of it
    let sl: JsonValue = (&[t.clone(), t.clone()][..]).into();
    check(&sl, &RV::Arr(vec![m.clone(), m.clone()])).map_err(|e| ctx("a slice", e))?;
    let o: Object = vec![("x", t.clone()), ("y", t.clone()), ("x", t.clone())].into_iter().collect();
    check_object(&o, &[("x".into(), m.clone()), ("y".into(), m.clone())], true).map_err(|e| ctx("collect", e))?;
    let so: JsonValue = Some(t.clone()).into();
    check(&so, &m).map_err(|e| ctx("Some", e))?;
    let no: JsonValue = None::<T>.into();
    check(&no, &RV::Null).map_err(|e| ctx("None", e))
}

/// An iterator with size hints chosen at will (true ones, but not tight)
struct Hinted<I> {
    inner: I,
    low: usize,
    high: Option<usize>,
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.low = self.low.saturating_sub(1);
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.low, self.high)
    }
}

/// A key that reads as one text by AsRef and as another in every other way;
/// different keys may read alike
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Alias(u32, String);

impl AsRef<str> for Alias {
    fn as_ref(&self) -> &str {
        &self.1
    }
}

impl std::fmt::Display for Alias {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "alias {}", self.0)
    }
}

impl std::ops::Deref for Alias {
    type Target = str;
    fn deref(&self) -> &str {
        "alias"
    }
}

fn maps(g: &mut G) -> R {
    let n = if g.prob(100) { g.size(400) } else { g.size(20) };
    let mut pairs: Vec<(String, RV)> = Vec::new();
    for i in 0..n {
        let k = if n > 40 { format!("m{}", i * 7 % 1000) } else { key(g) };
        let v = leaf(g, &PLAIN);
        pairs.push((k, v));
    }
    let mut last = Vec::new();
    for (k, v) in &pairs {
        obj_set(&mut last, k, v.clone());
    }
    let ms: Vec<(String, JsonValue)> = pairs.iter().map(|(k, v)| (k.clone(), build(g, v))).collect();
    g.print_bytes(compact_text(&RV::Obj(pairs.clone())).as_bytes());
    g.note(|| format!("pairs {}", clip(&compact_text(&RV::Obj(pairs.clone())))));
    g.nontrivial = n > 1;
    g.label("maps");
    g.label_if(last.len() < n, "duplicate-keys");
    // collecting
    let o: Object = ms.clone().into_iter().collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting pairs: {}", e))?;
    let low = g.upto(n as u64) as usize;
    let high = *g.pick(&[None, Some(n), Some(n + 7), Some(usize::MAX), Some(usize::MAX / 2)]);
    let o: Object = Hinted { inner: ms.iter().map(|(k, v)| (k, v.clone())), low, high }.collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting pairs with a size hint of {} to {:?}: {}", low, high, e))?;
    // keys of other types, some of which read alike
    let al = || ms.iter().enumerate().map(|(i, (k, v))| (Alias(i as u32, k.clone()), v.clone()));
    let o: Object = al().collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting pairs with keys that read alike: {}", e))?;
    let b: BTreeMap<Alias, JsonValue> = al().collect();
    let v: JsonValue = b.into();
    check(&v, &RV::Obj(last.clone())).map_err(|e| format!("a B-tree map whose keys read alike: {}", e))?;
    let h: HashMap<Alias, JsonValue> = al().collect();
    let mut want = Vec::new();
    for (k, _) in &h {
        obj_set(&mut want, &k.1, pairs[k.0 as usize].1.clone());
    }
    let v: JsonValue = h.into();
    check(&v, &RV::Obj(want)).map_err(|e| format!("a hash map whose keys read alike: {}", e))?;
    let o: Object = ms.iter().map(|(k, v)| (std::borrow::Cow::Borrowed(&k[..]), v.clone())).collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting pairs with Cow keys: {}", e))?;
    let o: Object = ms.iter().map(|(k, v)| (k.clone().into_boxed_str(), Some(v.clone()))).collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting pairs with boxed keys: {}", e))?;
    let o: Object = ms.iter().filter(|_| true).map(|(k, v)| (&k[..], v.clone())).collect();
    check_object(&o, &last, true).map_err(|e| format!("collecting filtered pairs: {}", e))?;
    let v: JsonValue = o.into();
    check(&v, &RV::Obj(last.clone())).map_err(|e| format!("Object into JsonValue: {}", e))?;
    // B-tree maps: in key order
    let b: BTreeMap<String, JsonValue> = ms.iter().cloned().collect();
    let mut sorted = last.clone();
    sorted.sort_by(|x, y| x.0.cmp(&y.0));
    let v: JsonValue = b.into();
    check(&v, &RV::Obj(sorted.clone())).map_err(|e| format!("a B-tree map: {}", e))?;
    let b: BTreeMap<&str, JsonValue> = ms.iter().map(|(k, v)| (&k[..], v.clone())).collect();
    let v: JsonValue = b.into();
    check(&v, &RV::Obj(sorted)).map_err(|e| format!("a B-tree map: {}", e))?;
    // hash maps: any order, each once
    let h: HashMap<String, JsonValue> = ms.iter().cloned().collect();
    let v: JsonValue = h.into();
    as_set(&v, &last).map_err(|e| format!("a hash map: {}", e))?;
    let h: HashMap<&str, JsonValue> = ms.iter().map(|(k, v)| (&k[..], v.clone())).collect();
    let v: JsonValue = h.into();
    as_set(&v, &last).map_err(|e| format!("a hash map: {}", e))
}

fn as_set(v: &JsonValue, p: &[(String, RV)]) -> R {
    ensure!(v.is_object() && v.len() == p.len(), "{} members of type {} instead of {}", v.len(), describe(v), p.len());
    let mut seen = std::collections::HashSet::new();
    for (k, x) in v.entries() {
        ensure!(seen.insert(k.to_string()), "key {:?} appears twice", k);
        match obj_get(p, k) {
            Some(m) => check(x, m).map_err(|e| format!("[{:?}]: {}", k, e))?,
            None => fail!("key {:?} came from nowhere", k),
        }
    }
    for (k, m) in p {
        check(&v[&k[..]], m).map_err(|e| format!("lookup of {:?}: {}", k, e))?;
    }
    Ok(())
}

fn strings(g: &mut G) -> R {
    let s = string(g, 3000);
    g.print_bytes(s.as_bytes());
    g.note(|| format!("string {:?}", clip(&s)));
    g.nontrivial = !s.is_empty();
    g.label("strings");
    g.label_if(s.len() > json::short::MAX_LEN, "long");
    let m = RV::Str(s.clone());
    let forms: Vec<(&str, JsonValue)> = vec![
        ("&str", JsonValue::from(&s[..])),
        ("String", JsonValue::from(s.clone())),
        ("Option<&str>", JsonValue::from(Some(&s[..]))),
        ("Option<String>", JsonValue::from(Some(s.clone()))),
        ("json::from", json::from(&s[..])),
        ("Vec<&str>", JsonValue::from(vec![&s[..]])[0].clone()),
        ("slice of String", JsonValue::from(&[s.clone()][..])[0].clone()),
    ];
    for (how, v) in &forms {
        check(v, &m).map_err(|e| format!("{}: {}", how, e))?;
        ensure!(v.as_str() == Some(&s[..]), "as_str after {}: {:?}", how, v.as_str().map(clip));
    }
    if s.len() <= json::short::MAX_LEN {
        let x = unsafe { Short::from_slice(&s) };
        ensure!(x.as_str() == s && &*x == &s[..] && String::from(x) == s && x.to_string() == s, "Short of {:?} holds {:?}", s, x.as_str());
        ensure!(format!("{:?}", x) == format!("{:?}", s), "Debug of Short {:?}", x);
    }
    ensure!(json::stringify(&s[..]) == escape(&s), "stringify(&str) gives {}", clip(&json::stringify(&s[..])));
    ensure!(json::stringify(s.clone()) == escape(&s), "stringify(String) gives {}", clip(&json::stringify(s.clone())));
    Ok(())
}

pub fn c21(g: &mut G) -> R {
    let which = g.below(34);
    match which {
        0 => every_way::<i8>(g),
        1 => every_way::<i16>(g),
        2 => every_way::<i32>(g),
        3 => every_way::<i64>(g),
        4 => every_way::<u8>(g),
        5 => every_way::<u16>(g),
        6 => every_way::<u32>(g),
        7 => every_way::<u64>(g),
        8 => every_way::<isize>(g),
        9 => every_way::<usize>(g),
        10 => every_way::<f64>(g),
        11 => every_way::<f32>(g),
        12 => every_way::<bool>(g),
        13 => every_way::<String>(g),
        14 => every_way::<&'static str>(g),
        15 => every_way::<Number>(g),
        16 => every_way::<JsonValue>(g),
        17 => every_way::<Object>(g),
        18 => every_way::<Option<i32>>(g),
        19 => every_way::<Option<Option<String>>>(g),
        20 => every_way::<Vec<u8>>(g),
        21 => every_way::<Vec<String>>(g),
        22 => every_way::<Vec<Option<f64>>>(g),
        23 => every_way::<Vec<Vec<i64>>>(g),
        24 => every_way::<Option<Vec<bool>>>(g),
        25 => every_way::<Vec<JsonValue>>(g),
        26 => every_way::<BTreeMap<String, i32>>(g),
        27 => every_way::<BTreeMap<String, Vec<Option<String>>>>(g),
        28 => every_way::<Vec<BTreeMap<String, u64>>>(g),
        29 => every_way::<BTreeMap<String, BTreeMap<String, JsonValue>>>(g),
        30 => every_way::<Vec<Object>>(g),
        31 | 32 => maps(g),
        _ => strings(g),
    }
}

// ------------------------------------------------------------------ C26

fn predicates(v: &JsonValue, m: &RV) -> R {
    let p = [v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object()];
    let names = ["null", "boolean", "number", "string", "array", "object"];
    for (i, n) in names.iter().enumerate() {
        ensure!(p[i] == (m.kind() == *n), "is_{} is {} for {}", n, p[i], clip(&v.dump()));
    }
    let d = || clip(&v.dump());
    // strings
    match m {
        RV::Str(s) => ensure!(v.as_str() == Some(&s[..]), "as_str is {:?} for {:?}", v.as_str(), clip(s)),
        _ => ensure!(v.as_str().is_none(), "as_str is {:?} for {}", v.as_str(), d()),
    }
    // booleans
    match m {
        RV::Bool(b) => ensure!(v.as_bool() == Some(*b), "as_bool is {:?} for {}", v.as_bool(), b),
        _ => ensure!(v.as_bool().is_none(), "as_bool is {:?} for {}", v.as_bool(), d()),
    }
    // numbers
    match m {
        RV::Num(n) => {
            let x = match v.as_number() {
                Some(x) => x,
                None => fail!("as_number is None for {}", d()),
            };
            let got = Num::of(&x);
            ensure!(got.same(n) && got.nan == n.nan, "as_number is {:?} for {}", x, d());
            ensure!(x.is_nan() == n.nan, "is_nan is {} for {}", x.is_nan(), d());
            let (f, h) = (v.as_f64(), v.as_f32());
            match (f, h) {
                (Some(f), Some(h)) => {
                    ensure!(f.to_bits() == f64::from(x).to_bits() || f.is_nan(), "as_f64 differs from the number for {}", d());
                    ensure!(f.is_nan() == n.nan && h.is_nan() == n.nan, "as_f64 is {:?} and as_f32 {:?} for {}", f, h, d());
                    ensure!(h.to_bits() == f32::from(x).to_bits() || h.is_nan(), "as_f32 differs from the number for {}", d());
                }
                _ => fail!("as_f64 is {:?} and as_f32 {:?} for {}", f, h, d()),
            }
            // an integer with exponent zero in range must be given
            let int = if n.nan { None } else { n.dec().int() };
            macro_rules! acc {
                ($($f:ident $t:ty),*) => { $( {
                    let got = v.$f();
                    match got {
                        Some(y) => ensure!(int == Some(y as i128), "{} is Some({}) for {}", stringify!($f), y, d()),
                        None => {
                            let must = n.e == 0 && !n.nan && !(n.m == 0 && n.neg) && int.map_or(false, |i| <$t>::try_from(i).is_ok());
                            ensure!(!must, "{} is None for {}", stringify!($f), d());
                        }
                    }
                } )* }
            }
            acc!(as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_usize usize, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_isize isize);
        }
        _ => {
            ensure!(v.as_number().is_none() && v.as_f64().is_none() && v.as_f32().is_none(), "a number accessor gives something for {}", d());
            ensure!(v.as_u8().is_none() && v.as_u16().is_none() && v.as_u32().is_none() && v.as_u64().is_none() && v.as_usize().is_none(),
                "an unsigned accessor gives something for {}", d());
            ensure!(v.as_i8().is_none() && v.as_i16().is_none() && v.as_i32().is_none() && v.as_i64().is_none() && v.as_isize().is_none(),
                "a signed accessor gives something for {}", d());
            ensure!(v.as_fixed_point_u64(2).is_none() && v.as_fixed_point_i64(2).is_none(), "a fixed point accessor gives something for {}", d());
        }
    }
    let empty = match m {
        RV::Null => true,
        RV::Bool(b) => !b,
        RV::Num(n) => n.nan || n.m == 0,
        RV::Str(s) => s.is_empty(),
        RV::Arr(a) => a.is_empty(),
        RV::Obj(o) => o.is_empty(),
        RV::Lit(_) => return Ok(()),
    };
    if !matches!(m, RV::Num(n) if n.nan) {
        ensure!(v.is_empty() == empty, "is_empty is {} for {}", !empty, d());
    }
    let len = match m {
        RV::Arr(a) => a.len(),
        RV::Obj(o) => o.len(),
        _ => 0,
    };
    ensure!(v.len() == len, "len is {} for {}", v.len(), d());
    Ok(())
}

pub fn c26(g: &mut G) -> R {
    let m = match g.weighted(&[33, 30, 33, 4]) {
        0 => value(g, &PLAIN),
        1 => RV::Str(string(g, 200)),
        2 => leaf(g, &PLAIN),
        _ => {
            // far more than any limit on what is inline, looked at or kept
            let n = (1usize << g.range(8, 16)) + g.below(3) - 1;
            match g.below(3) {
                0 => {
                    let s = string(g, 40);
                    let mut t = s.repeat(n / s.len().max(1) * (s.len() > 0) as usize);
                    while t.len() < n {
                        t.push('x');
                    }
                    RV::Str(t)
                }
                1 => {
                    let x = [leaf(g, &PLAIN), leaf(g, &PLAIN)];
                    RV::Arr((0..n.min(5000)).map(|i| x[i & 1].clone()).collect())
                }
                _ => {
                    let x = leaf(g, &PLAIN);
                    RV::Obj((0..n.min(2000)).map(|i| (i.to_string(), x.clone())).collect())
                }
            }
        }
    };
    let mut v = build(g, &m);
    g.print_bytes(compact_text(&m).as_bytes());
    g.label(describe(&v));
    let mut how = "built";
    // the ways to obtain a value
    match g.weighted(&[35, 20, 15, 15, 15]) {
        0 => {}
        1 if !m.has_nan() && m.depth() <= 500 => {
            how = "parsed";
            v = match json::parse(&v.dump()) {
                Ok(v) => v,
                Err(e) => fail!("{} does not parse: {:?}", clip(&v.dump()), e),
            };
        }
        2 => {
            how = "cloned";
            v = v.clone();
        }
        3 => {
            how = "stored in an object";
            let mut o = JsonValue::new_object();
            o["key"] = v;
            v = o.remove("key");
        }
        4 => {
            how = "stored in an array";
            let mut a = JsonValue::new_array();
            let _ = a.push(1);
            let _ = a.push(v);
            v = a.array_remove(1);
        }
        _ => {}
    }
    g.note(|| format!("{} {} ({})", how, clip(&v.dump()), describe(&v)));
    g.label(how);
    g.nontrivial = !matches!(m, RV::Null);
    predicates(&v, &m).map_err(|e| format!("{} value: {}", how, e))?;
    check(&v, &m)?;
    // take
    let mut a = v.clone();
    let t = a.take();
    ensure!(a.is_null(), "take leaves {} behind", clip(&a.dump()));
    check(&t, &m).map_err(|e| format!("take: {}", e))?;
    // take_string
    let mut a = v.clone();
    let t = a.take_string();
    match &m {
        RV::Str(s) => {
            ensure!(t.as_deref() == Some(&s[..]), "take_string gives {:?} for {:?}", t, clip(s));
            ensure!(a.is_null(), "take_string leaves {} behind", clip(&a.dump()));
        }
        _ => {
            ensure!(t.is_none(), "take_string gives {:?} for {}", t, clip(&v.dump()));
            check(&a, &m).map_err(|e| format!("take_string on another type changed the value: {}", e))?;
        }
    }
    // clear
    let mut a = v.clone();
    a.clear();
    let cleared = match &m {
        RV::Str(_) => RV::Str(String::new()),
        RV::Arr(_) => RV::Arr(vec![]),
        RV::Obj(_) => RV::Obj(vec![]),
        _ => RV::Null,
    };
    check(&a, &cleared).map_err(|e| format!("clear of {}: {}", clip(&v.dump()), e))?;
    predicates(&a, &cleared).map_err(|e| format!("after clear of {}: {}", clip(&v.dump()), e))?;
    // and it is usable afterwards
    match &m {
        RV::Arr(_) => {
            a.push(5).map_err(|e| e.to_string())?;
            check(&a, &RV::Arr(vec![RV::Num(Num::int(5))])).map_err(|e| format!("push after clear: {}", e))?;
        }
        RV::Obj(o) => {
            for (k, _) in o.iter().take(5) {
                ensure!(!a.has_key(k) && a[&k[..]].is_null(), "clear left key {:?}", k);
            }
            let mut p = vec![];
            for (k, x) in o.iter().take(5) {
                a.insert(k, build(g, x)).map_err(|e| e.to_string())?;
                p.push((k.clone(), x.clone()));
            }
            check(&a, &RV::Obj(p)).map_err(|e| format!("insert after clear: {}", e))?;
        }
        _ => {}
    }
    predicates(&v, &m).map_err(|e| format!("afterwards: {}", e))
}
