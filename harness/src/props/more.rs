//! C32 what allocates and what moves, C33 panics in the caller's code,
//! C34 calls from inside the caller's code.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Write as FmtWrite};
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

use json::codegen::Generator;
use json::object::Object;
use json::JsonValue;

use super::containers::{apply, gen_op, Op};
use super::extra::display_text;
use super::text::clip;
use crate::alloc;
use crate::engine::{G, R};
use crate::gen::*;
use crate::model::*;
use crate::{ensure, fail};

// ------------------------------------------------------------------ C32

/// Number of blocks asked for (or grown) while `f` runs
fn blocks<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = alloc::COUNT.load(Relaxed);
    let r = f();
    let b = alloc::COUNT.load(Relaxed);
    (r, b - a)
}

fn free(what: &str, n: u64) -> R {
    ensure!(n == 0, "{} asks for {} blocks of memory", what, n);
    Ok(())
}

/// At most 30 bytes, different for different i
fn small_key(style: u64, i: usize) -> String {
    let mut k = match style % 4 {
        0 => format!("{}", i),
        1 => format!("k{:x}", (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15)),
        2 => format!("{}é", i),
        _ => format!("{:0>30}", i),
    };
    if style % 4 == 2 {
        while k.len() < 29 {
            k.push('ß');
        }
    }
    k
}

/// A value whose making needs no memory
fn plain(i: usize) -> JsonValue {
    match i % 4 {
        0 => JsonValue::Null,
        1 => JsonValue::from(i),
        2 => JsonValue::from(i % 3 == 0),
        _ => JsonValue::from("short"),
    }
}

fn short_text(g: &mut G) -> String {
    let mut s = string(g, 30);
    while s.len() > 30 {
        s.pop();
    }
    s
}

/// Where the parts of a container lie
fn place(v: &JsonValue) -> usize {
    match v {
        JsonValue::Array(a) => a.as_ptr() as usize,
        JsonValue::Object(o) => o.iter().next().map_or(0, |x| x.1 as *const JsonValue as usize),
        JsonValue::String(s) => s.as_ptr() as usize,
        _ => 0,
    }
}

pub fn c32(g: &mut G) -> R {
    let what = g.weighted(&[10, 25, 25, 25, 20, 15]);
    let names = ["empty objects", "short strings", "with_capacity", "clear", "take", "take_string"];
    g.label(names[what]);
    g.nontrivial = true;
    match what {
        0 => {
            let k = key(g);
            let how = g.upto(5);
            g.note(|| format!("an empty object, way {}, key {:?}", how, clip(&k)));
            g.print_bytes(k.as_bytes());
            g.print_u64(how);
            let (r, n) = blocks(|| {
                let mut o = match how {
                    0 => JsonValue::new_object(),
                    1 => json::object! {},
                    2 => JsonValue::Object(Object::new()),
                    3 => JsonValue::from(Object::new()),
                    4 => json::from(Object::new()),
                    _ => Object::new().into(),
                };
                let a = (o.len(), o.is_empty(), o.has_key(&k), o.entries().count(), o[&k[..]].is_null());
                o.clear();
                let b = (o.remove(&k).is_null(), o.entries_mut().count());
                (a, b, o.len())
            });
            ensure!(r == ((0, true, false, 0, true), (true, 0), 0), "an empty object shows {:?}", r);
            free("an empty object into which nothing was inserted", n)
        }
        1 => {
            let s = short_text(g);
            let t = short_text(g);
            g.note(|| format!("the strings {:?} and {:?}", s, t));
            g.print_bytes(s.as_bytes());
            g.print_bytes(t.as_bytes());
            let same = s == t;
            let (r, n) = blocks(|| {
                let a = JsonValue::from(&s[..]);
                let b = json::from(&s[..]);
                let c: JsonValue = Some(&s[..]).into();
                let mut d = a.clone();
                let mut r = a == b && b == c && c == d && a == &s[..] && &s[..] == a && *s == d;
                r &= (a == &t[..]) == same && (&t[..] == b) == same;
                r &= a.as_str() == Some(&s[..]) && d.as_str() == Some(&s[..]);
                let e = d.take();
                r &= d.is_null() && e.as_str() == Some(&s[..]) && e.is_string();
                d = JsonValue::from(&t[..]);
                d.clone_from(&e);
                r && d == e
            });
            ensure!(r, "the string {:?} does not compare as it should", s);
            free("making, copying, comparing and dropping a string of at most 30 bytes", n)
        }
        2 => {
            let n = match g.upto(9) {
                0 => 0,
                1 => g.int(3000) as usize,
                _ => g.upto(60) as usize,
            };
            let style = g.upto(u64::MAX);
            let order = g.upto(u64::MAX);
            let macros = n <= 3 && g.flip();
            g.note(|| format!("room for {} entries, keys like {:?}, order {:x}", n, small_key(style, 5), order));
            g.print_u64(n as u64);
            g.print_u64(style);
            g.print_u64(order);
            let keys = shuffled(n, style, order);
            let items: Vec<JsonValue> = (0..n).map(plain).collect();
            let mut o = if macros { Object::with_capacity(3) } else { Object::with_capacity(n) };
            let mut turn = 0;
            for round in 0..2 {
                let (_, b) = blocks(|| {
                    for (k, x) in keys.iter().zip(&items) {
                        o.insert(k, x.clone());
                        if order >> (turn % 64) & 1 == 1 {
                            // the same key again takes no more room
                            o.insert(k, x.clone());
                        }
                        turn += 1;
                    }
                });
                ensure!(o.len() == n, "inserted {} keys, has {}", n, o.len());
                if b != 0 {
                    fail!("inserting {} entries with short keys into an object made with_capacity({}){} asks for {} blocks of memory", n, n, if round == 1 { " and cleared" } else { "" }, b);
                }
                o.clear();
            }
            Ok(())
        }
        3 => {
            let large = if g.prob(150) { g.int(3000) as usize } else { 0 };
            let m = match container(g, &PLAIN) {
                _ if large > 0 => RV::Obj((0..large).map(|i| (small_key(large as u64, i), RV::Num(Num::int(i as i128)))).collect()),
                RV::Arr(a) => {
                    let mut o = Vec::new();
                    for (i, x) in a.into_iter().enumerate() {
                        o.push((format!("{}", i), x));
                    }
                    RV::Obj(o)
                }
                m => m,
            };
            let style = g.upto(u64::MAX);
            let ops: Vec<Op> = (0..g.upto(5)).map(|_| gen_op(g)).collect();
            let direct = g.flip();
            g.note(|| format!("{} after {} operations, cleared {} times", clip(&compact_text(&m)), ops.len(), 3));
            g.print_bytes(compact_text(&m).as_bytes());
            g.print_u64(style);
            let mut st = style;
            let mut v = build_styled(&m, &mut st);
            let mut m = m;
            for op in &ops {
                apply(&mut v, &mut m, op)?;
            }
            if !v.is_object() {
                g.nontrivial = false;
                return Ok(());
            }
            let mut room = v.len();
            let keys = shuffled(room + 3, style >> 8, style | 1);
            for round in 0..3 {
                match &mut v {
                    JsonValue::Object(o) if direct => o.clear(),
                    v => v.clear(),
                }
                ensure!(v.len() == 0 && v.is_empty(), "not empty after clear");
                // fewer, then all
                let n = if round == 0 { room / 2 } else { room };
                let (_, b) = blocks(|| {
                    if let JsonValue::Object(o) = &mut v {
                        for (i, k) in keys[..n].iter().enumerate() {
                            o.insert(k, plain(i));
                        }
                    }
                });
                if b != 0 {
                    fail!("an object that held {} entries, then cleared, asks for {} blocks of memory for {} entries with short keys", room, b, n);
                }
                if round == 1 {
                    let _ = v.insert(&keys[room], 1);
                    let _ = v.insert(&keys[room + 1], 1);
                    ensure!(v.len() == room + 2, "has {} entries instead of {}", v.len(), room + 2);
                    room += 2;
                }
            }
            Ok(())
        }
        4 => {
            let m = value(g, &PLAIN);
            let mut v = build(g, &m);
            let slot = g.upto(3);
            g.note(|| format!("take of {} from place {}", clip(&compact_text(&m)), slot));
            g.print_bytes(compact_text(&m).as_bytes());
            g.print_u64(slot);
            let at = place(&v);
            let long = "a key of more than thirty-two bytes, a long one";
            let mut holder = match slot {
                0 => JsonValue::Null,
                1 => json::array![1, JsonValue::Null, 2],
                2 => json::object! { "k" => JsonValue::Null, "other" => 2 },
                _ => json::object! { "k" => 1, long => JsonValue::Null },
            };
            let before = holder.clone();
            let (t, n) = if slot == 0 {
                blocks(|| v.take())
            } else {
                let p = match slot {
                    1 => &mut holder[1],
                    2 => &mut holder["k"],
                    _ => &mut holder[long],
                };
                *p = v.take();
                blocks(|| p.take())
            };
            ensure!(v.is_null() && holder == before, "take leaves {} in place", clip(&holder.dump()));
            free("take", n)?;
            ensure!(place(&t) == at, "take gives a copy, not the value itself");
            check(&t, &m).map_err(|e| format!("after take: {}", e))
        }
        _ => {
            let s = string(g, 400);
            let spare = g.upto(40) as usize;
            let slot = g.upto(2);
            g.note(|| format!("take_string of {:?} with {} spare bytes, place {}", clip(&s), spare, slot));
            g.print_bytes(s.as_bytes());
            g.print_u64(spare as u64 * 3 + slot);
            let mut x = String::with_capacity(s.len() + spare);
            x.push_str(&s);
            let (ptr, cap) = (x.as_ptr() as usize, x.capacity());
            let mut v = match slot {
                0 => JsonValue::String(x),
                1 => JsonValue::Array(vec![JsonValue::String(x)]),
                _ => {
                    let mut o = Object::new();
                    o.insert("k", JsonValue::String(x));
                    JsonValue::Object(o)
                }
            };
            let p = match slot {
                0 => &mut v,
                1 => &mut v[0],
                _ => &mut v["k"],
            };
            let (t, n) = blocks(|| p.take_string());
            ensure!(p.is_null(), "take_string leaves {} in place", describe(p));
            free("take_string of a heap allocated String", n)?;
            match t {
                Some(t) => {
                    ensure!(t == s, "take_string gives {:?} instead of {:?}", clip(&t), clip(&s));
                    ensure!(t.as_ptr() as usize == ptr && t.capacity() == cap, "take_string gives another allocation than the value held");
                    Ok(())
                }
                None => fail!("take_string of a string gives nothing"),
            }
        }
    }
}

fn shuffled(n: usize, style: u64, order: u64) -> Vec<String> {
    let mut ids: Vec<usize> = (0..n).collect();
    if order != 0 {
        let mut r = crate::engine::Rng::new(order);
        for i in (1..n).rev() {
            ids.swap(i, r.upto(i as u64) as usize);
        }
    }
    ids.into_iter().map(|i| small_key(style, i)).collect()
}

// ------------------------------------------- the caller's code, as hooks

const NEVER: usize = usize::MAX;

/// What all the hooks of one call share
pub struct Hook {
    hits: Cell<usize>,
    /// The hit that panics
    at: usize,
    tasks: Vec<Task>,
    runs: Cell<usize>,
    err: RefCell<Option<String>>,
    /// Items made and not yet dropped
    live: Cell<i64>,
    /// What a writer or sink received
    out: RefCell<Vec<u8>>,
    /// Bytes a writer takes at once
    cap: usize,
    outer: RefCell<Option<(*const JsonValue, RV)>>,
}

/// For tasks that are not inside any call
pub fn hookless() -> Rc<Hook> {
    Hook::new(NEVER, usize::MAX, Vec::new())
}

impl Hook {
    fn new(at: usize, cap: usize, tasks: Vec<Task>) -> Rc<Hook> {
        Rc::new(Hook {
            hits: Cell::new(0),
            at,
            tasks,
            runs: Cell::new(0),
            err: RefCell::new(None),
            live: Cell::new(0),
            out: RefCell::new(Vec::new()),
            cap,
            outer: RefCell::new(None),
        })
    }
    fn hit(&self) {
        let n = self.hits.get();
        self.hits.set(n + 1);
        if n == self.at {
            resume_unwind(Box::new(7u8));
        }
        if self.tasks.is_empty() || self.err.borrow().is_some() || (n > 12 && n % 13 != 0) || n > 400 {
            return;
        }
        let i = self.runs.get();
        self.runs.set(i + 1);
        let r = self.tasks[i % self.tasks.len()].run(self);
        if let Err(e) = r {
            *self.err.borrow_mut() = Some(format!("in callback {}: {}", n, e));
        }
    }
    /// Items may use the library when they are dropped, also while a panic
    /// unwinds
    fn dropping(&self) {
        if !self.tasks.is_empty() {
            self.hit();
        } else if std::thread::panicking() && self.err.borrow().is_none() {
            if let Err(e) = small_use() {
                *self.err.borrow_mut() = Some(e);
            }
        }
    }
    fn put(&self, b: &[u8]) -> usize {
        self.hit();
        let n = b.len().min(self.cap);
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        n
    }
}

struct HWriter<'a>(&'a Hook);

impl Write for HWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(self.0.put(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.hit();
        Ok(())
    }
}

struct HFmt<'a>(&'a Hook);

impl fmt::Write for HFmt<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = self.0.put(b);
            b = &b[n..];
        }
        Ok(())
    }
}

struct HGen<'a>(HWriter<'a>);

impl<'a> Generator for HGen<'a> {
    type T = HWriter<'a>;
    fn get_writer(&mut self) -> &mut HWriter<'a> {
        (self.0).0.hit();
        &mut self.0
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        (self.0).0.hit();
        self.0.write_all(&[min])
    }
    fn new_line(&mut self) -> io::Result<()> {
        (self.0).0.hit();
        Ok(())
    }
    fn indent(&mut self) {
        (self.0).0.hit();
    }
    fn dedent(&mut self) {
        (self.0).0.hit();
    }
}

/// A value that becomes a JsonValue
struct HVal(Rc<Hook>, Rc<RV>);

impl HVal {
    fn new(h: &Rc<Hook>, m: &Rc<RV>) -> HVal {
        h.live.set(h.live.get() + 1);
        HVal(h.clone(), m.clone())
    }
}

impl Drop for HVal {
    fn drop(&mut self) {
        self.0.live.set(self.0.live.get() - 1);
        self.0.dropping();
    }
}

impl Clone for HVal {
    fn clone(&self) -> HVal {
        self.0.hit();
        HVal::new(&self.0, &self.1)
    }
}

impl From<HVal> for JsonValue {
    fn from(x: HVal) -> JsonValue {
        x.0.hit();
        let v = build_styled(&x.1, &mut 0);
        x.0.hit();
        v
    }
}

/// A key
struct HKey(Rc<Hook>, Rc<String>);

impl HKey {
    fn new(h: &Rc<Hook>, k: &Rc<String>) -> HKey {
        h.live.set(h.live.get() + 1);
        HKey(h.clone(), k.clone())
    }
}

impl Drop for HKey {
    fn drop(&mut self) {
        self.0.live.set(self.0.live.get() - 1);
        self.0.dropping();
    }
}

impl AsRef<str> for HKey {
    fn as_ref(&self) -> &str {
        self.0.hit();
        &self.1
    }
}

impl PartialEq for HKey {
    fn eq(&self, o: &HKey) -> bool {
        self.1 == o.1
    }
}
impl Eq for HKey {}
impl PartialOrd for HKey {
    fn partial_cmp(&self, o: &HKey) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HKey {
    fn cmp(&self, o: &HKey) -> Ordering {
        self.1.cmp(&o.1)
    }
}
impl Hash for HKey {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.1.hash(s)
    }
}

/// What `contains` compares with
struct HEq(Rc<Hook>, Rc<RV>);

impl PartialEq<JsonValue> for HEq {
    fn eq(&self, v: &JsonValue) -> bool {
        self.0.hit();
        let r = check_fast(v, &self.1).is_ok();
        self.0.hit();
        r
    }
}

struct HIter {
    hook: Rc<Hook>,
    items: std::vec::IntoIter<(HKey, HVal)>,
    exact: bool,
}

impl Iterator for HIter {
    type Item = (HKey, HVal);
    fn next(&mut self) -> Option<(HKey, HVal)> {
        self.hook.hit();
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.exact { self.items.size_hint() } else { (0, None) }
    }
}

const ACTS: [&str; 20] = [
    "write", "write_pretty", "Display", "Debug", "write_json of a generator", "collect into an object", "a vector", "a slice", "a BTreeMap", "a HashMap",
    "an Option", "push", "insert", "contains", "array!", "object!", "json::from", "stringify", "nested containers", "stringify_pretty",
];

/// One call that takes the caller's code
#[derive(Clone)]
pub struct Plan {
    act: usize,
    style: u64,
    indent: u16,
    cap: usize,
    items: Vec<(Rc<String>, Rc<RV>)>,
    needle: Rc<RV>,
    key: String,
}

enum Out {
    Done(bool),
    Text(String),
    Val(JsonValue),
    /// Members in no particular order
    Loose(JsonValue),
    Bool(bool),
}

fn gen_plan(g: &mut G, m: &RV) -> Plan {
    let act = g.weighted(&[10, 7, 6, 5, 8, 12, 7, 7, 7, 6, 4, 8, 8, 10, 6, 6, 4, 4, 6, 4]);
    let n = g.size(12);
    let mut fuel = 12;
    let items = (0..n).map(|_| (Rc::new(key(g)), Rc::new(tree(g, &PLAIN, 2, &mut fuel)))).collect();
    let needle = match m {
        RV::Arr(a) if !a.is_empty() && g.flip() => a[g.below(a.len())].clone(),
        _ => leaf(g, &PLAIN),
    };
    let key = match m {
        RV::Obj(o) if !o.is_empty() && g.flip() => o[g.below(o.len())].0.clone(),
        _ => key(g),
    };
    Plan {
        act,
        style: g.upto(u64::MAX),
        indent: g.upto(4) as u16,
        cap: if g.prob(300) { 1 + g.upto(20) as usize } else { usize::MAX },
        items,
        needle: Rc::new(needle),
        key,
    }
}

fn describe_plan(p: &Plan, m: &RV) -> String {
    let items: Vec<String> = p.items.iter().map(|(k, x)| format!("{:?}: {}", clip(k), clip(&compact_text(x)))).collect();
    format!("{} (style {:x}, indent {}, {} bytes at once) with items {{{}}}, needle {}, key {:?}; the value {}",
        ACTS[p.act], p.style, p.indent, p.cap, clip(&items.join(", ")), clip(&compact_text(&p.needle)), clip(&p.key), clip(&compact_text(m)))
}

fn perform(p: &Plan, v: &mut JsonValue, h: &Rc<Hook>) -> Out {
    let val = |i: usize| match p.items.get(i) {
        Some(x) => HVal::new(h, &x.1),
        None => HVal::new(h, &p.needle),
    };
    let vals = || -> Vec<HVal> { p.items.iter().map(|x| HVal::new(h, &x.1)).collect() };
    let pairs = || -> Vec<(HKey, HVal)> { p.items.iter().map(|x| (HKey::new(h, &x.0), HVal::new(h, &x.1))).collect() };
    match p.act {
        0 => Out::Done(v.write(&mut HWriter(h)).is_ok()),
        1 => Out::Done(v.write_pretty(&mut HWriter(h), p.indent).is_ok()),
        2 if p.style & 3 == 3 => Out::Done(write!(HFmt(h), "{:#}", v).is_ok()),
        2 => Out::Done(write!(HFmt(h), "{}", v).is_ok()),
        3 => Out::Done(write!(HFmt(h), "{:?}", v).is_ok()),
        4 => Out::Done(match v {
            JsonValue::Object(o) if p.style & 1 == 1 => HGen(HWriter(h)).write_object(o),
            v => HGen(HWriter(h)).write_json(v),
        }.is_ok()),
        5 => Out::Val(JsonValue::Object(HIter { hook: h.clone(), items: pairs().into_iter(), exact: p.style & 1 == 1 }.collect())),
        6 => Out::Val(vals().into()),
        7 => {
            let items = vals();
            Out::Val(JsonValue::from(&items[..]))
        }
        8 => Out::Val(pairs().into_iter().collect::<BTreeMap<HKey, HVal>>().into()),
        9 => Out::Loose(pairs().into_iter().collect::<HashMap<HKey, HVal>>().into()),
        10 => Out::Val(if p.style & 1 == 1 { None } else { Some(val(0)) }.into()),
        11 => Out::Done(v.push(HVal::new(h, &p.needle)).is_ok()),
        12 => Out::Done(v.insert(&p.key, HVal::new(h, &p.needle)).is_ok()),
        13 => Out::Bool(v.contains(HEq(h.clone(), p.needle.clone()))),
        14 => Out::Val(json::array![val(0), [val(1), null], val(2), { "k": val(3) }]),
        15 => Out::Val(if p.style & 1 == 1 {
            json::object! { "a" => val(0), "a key of more than thirty-two bytes, a long one" => val(1), "c" => val(2), "a" => val(3) }
        } else {
            json::object! { a: val(0), "a key of more than thirty-two bytes, a long one": [val(1)], "c": val(2), "a": val(3) }
        }),
        16 => Out::Val(json::from(val(0))),
        17 => Out::Text(json::stringify(vals())),
        18 => {
            let mut all = BTreeMap::new();
            all.insert("options", vals().into_iter().map(Some).collect::<Vec<_>>());
            all.insert("vectors", vec![None, Some(val(0))]);
            Out::Val(vec![Some(all), None].into())
        }
        _ => Out::Text(json::stringify_pretty(vals(), p.indent)),
    }
}

/// What `perform` gives, what the writer receives, and the value afterwards
struct Want {
    out: Out2,
    text: Option<String>,
    after: RV,
}

enum Out2 {
    Done(bool),
    Text(String),
    Val(RV),
    Bool(bool),
}

fn expected(p: &Plan, v: &JsonValue, m: &RV) -> Want {
    let item = |i: usize| p.items.get(i).map_or((*p.needle).clone(), |x| (*x.1).clone());
    let arr = || RV::Arr(p.items.iter().map(|x| (*x.1).clone()).collect());
    let long = "a key of more than thirty-two bytes, a long one";
    let mut after = m.clone();
    let mut text = None;
    let out = match p.act {
        0 | 4 => {
            text = Some(compact_text(m));
            Out2::Done(true)
        }
        1 => {
            text = Some(pretty_text(m, p.indent as usize));
            Out2::Done(true)
        }
        2 => {
            text = Some(if p.style & 3 == 3 { pretty_text(m, 4) } else { display_text(m) });
            Out2::Done(true)
        }
        3 => {
            // the text is the library's own; that it does not depend on the
            // sink is what is judged
            text = Some(format!("{:?}", v));
            Out2::Done(true)
        }
        5 => {
            let mut o = Vec::new();
            for (k, x) in &p.items {
                obj_set(&mut o, k, (**x).clone());
            }
            Out2::Val(RV::Obj(o))
        }
        6 | 7 => Out2::Val(arr()),
        8 | 9 => {
            let b: BTreeMap<&String, RV> = p.items.iter().map(|(k, x)| (&**k, (**x).clone())).collect();
            Out2::Val(RV::Obj(b.into_iter().map(|(k, x)| (k.clone(), x)).collect()))
        }
        10 => Out2::Val(if p.style & 1 == 1 { RV::Null } else { item(0) }),
        11 => match &mut after {
            RV::Arr(a) => {
                a.push((*p.needle).clone());
                Out2::Done(true)
            }
            _ => Out2::Done(false),
        },
        12 => match &mut after {
            RV::Obj(o) => {
                obj_set(o, &p.key, (*p.needle).clone());
                Out2::Done(true)
            }
            _ => Out2::Done(false),
        },
        13 => Out2::Bool(match (m, v) {
            (RV::Arr(_), JsonValue::Array(a)) => a.iter().any(|x| check_fast(x, &p.needle).is_ok()),
            _ => false,
        }),
        14 => Out2::Val(RV::Arr(vec![item(0), RV::Arr(vec![item(1), RV::Null]), item(2), RV::Obj(vec![("k".into(), item(3))])])),
        15 => {
            let x = if p.style & 1 == 1 { item(1) } else { RV::Arr(vec![item(1)]) };
            Out2::Val(RV::Obj(vec![("a".into(), item(3)), (long.into(), x), ("c".into(), item(2))]))
        }
        16 => Out2::Val(item(0)),
        17 => Out2::Text(compact_text(&arr())),
        18 => Out2::Val(RV::Arr(vec![
            RV::Obj(vec![("options".into(), arr()), ("vectors".into(), RV::Arr(vec![RV::Null, item(0)]))]),
            RV::Null,
        ])),
        _ => Out2::Text(pretty_text(&arr(), p.indent as usize)),
    };
    Want { out, text, after }
}

fn judge(p: &Plan, got: Out, want: &Want, h: &Hook) -> R {
    let name = ACTS[p.act];
    match (got, &want.out) {
        (Out::Done(a), Out2::Done(b)) => ensure!(a == *b, "{} {}", name, if a { "succeeds" } else { "fails" }),
        (Out::Bool(a), Out2::Bool(b)) => ensure!(a == *b, "{} gives {}", name, a),
        (Out::Text(a), Out2::Text(b)) => ensure!(a == *b, "{} gives {:?} instead of {:?}", name, clip(&a), clip(b)),
        (Out::Val(v), Out2::Val(m)) => check(&v, m).map_err(|e| format!("{}: {}", name, e))?,
        (Out::Loose(v), Out2::Val(m)) => {
            let (pairs, o) = match (m, &v) {
                (RV::Obj(pairs), JsonValue::Object(o)) => (pairs, o),
                _ => fail!("{} gives {}", name, describe(&v)),
            };
            let mut order = Vec::new();
            for (k, _) in o.iter() {
                match obj_get(pairs, k) {
                    Some(x) => order.push((k.to_string(), x.clone())),
                    None => fail!("{} gives the strange key {:?}", name, k),
                }
            }
            ensure!(order.len() == pairs.len(), "{} gives {} members instead of {}", name, order.len(), pairs.len());
            check_object(o, &order, true).map_err(|e| format!("{}: {}", name, e))?;
        }
        _ => fail!("harness: {} was judged by another rule", name),
    }
    if let Some(t) = &want.text {
        let out = h.out.borrow();
        ensure!(&out[..] == t.as_bytes(), "{} delivers {:?} instead of {:?}", name, clip(&String::from_utf8_lossy(&out)), clip(t));
    }
    ensure!(h.live.get() == 0, "{}: {} of the items it was given were {}", name, h.live.get().abs(), if h.live.get() > 0 { "never dropped" } else { "dropped twice" });
    Ok(())
}

/// A value suited to the call, mostly
fn subject(g: &mut G) -> (RV, u64) {
    let m = match g.weighted(&[40, 40, 20]) {
        0 => match container(g, &PLAIN) {
            RV::Obj(o) => RV::Arr(o.into_iter().map(|x| x.1).collect()),
            m => m,
        },
        1 => container(g, &PLAIN),
        _ => leaf(g, &PLAIN),
    };
    (m, g.upto(u64::MAX))
}

// ------------------------------------------------------------------ C33

/// A little of everything
fn small_use() -> R {
    let t = "{\"a\":[1.5,\"x\\n\"],\"a key of more than thirty-two bytes, a long one\":null}";
    match json::parse(t) {
        Ok(mut v) => {
            ensure!(v.dump() == t && v.to_string() == t, "while unwinding, dump gives {:?} instead of {:?}", v.dump(), t);
            v["a"][0] = v["a"].clone();
            let w = "{\n  \"a\": [\n    [\n      1.5,\n      \"x\\n\"\n    ],\n    \"x\\n\"\n  ],\n  \"a key of more than thirty-two bytes, a long one\": null\n}";
            ensure!(v.pretty(2) == w, "while unwinding, pretty gives {:?}", v.pretty(2));
        }
        Err(e) => fail!("while unwinding, parsing gives {:?}", e),
    }
    ensure!(json::parse("[1,}").is_err(), "while unwinding, a broken text is accepted");
    Ok(())
}

/// Ordinary use, after something went wrong
fn still_works(v: &JsonValue, m: &RV, text: &str) -> R {
    let t = v.dump();
    ensure!(t == text, "dump gives {:?} instead of {:?}", clip(&t), clip(text));
    let t = v.pretty(2);
    ensure!(t == pretty_text(m, 2), "pretty gives {:?}", clip(&t));
    let mut out = Vec::new();
    ensure!(v.write(&mut out).is_ok() && out == text.as_bytes(), "write gives {:?} instead of {:?}", clip(&String::from_utf8_lossy(&out)), clip(text));
    match json::parse(text) {
        Ok(x) => check(&x, &m.nan_to_null()).map_err(|e| format!("parsing its dump: {}", e))?,
        Err(e) => fail!("parsing its dump gives {:?}", e),
    }
    let c = v.clone();
    check(&c, m).map_err(|e| format!("its clone: {}", e))?;
    let mut o = json::object! { a: [1, 2, { "b": "x" }] };
    o["a"][2]["b"] = c;
    check_fast(&o["a"][2]["b"], m).map_err(|e| format!("a copy inside another value: {}", e))
}

pub fn c33(g: &mut G) -> R {
    let (m, style) = subject(g);
    let p = gen_plan(g, &m);
    let pick = g.upto(u64::MAX);
    g.label(ACTS[p.act]);
    g.note(|| format!("panics during {}", describe_plan(&p, &m)));
    g.print_bytes(compact_text(&m).as_bytes());
    g.print_u64(p.style ^ p.act as u64);
    g.print_u64(style);
    let mut points = 0;
    let r = alloc::paranoid(|| {
        let mut st = style;
        let mut v = build_styled(&m, &mut st);
        let want = expected(&p, &v, &m);
        let text = compact_text(&m);
        let name = ACTS[p.act];
        let h = Hook::new(NEVER, p.cap, Vec::new());
        let mut w = v.clone();
        let out = perform(&p, &mut w, &h);
        judge(&p, out, &want, &h)?;
        check(&w, &want.after).map_err(|e| format!("after {}: {}", name, e))?;
        drop(w);
        let hits = h.hits.get();
        points = hits;
        drop(h);
        let all = hits <= 24;
        for i in 0..hits.min(24) {
            let at = match i {
                i if all => i,
                0 => 0,
                1 => hits - 1,
                i => (pick.rotate_left(i as u32 * 5) % hits as u64) as usize,
            };
            let when = || format!("{} whose callback {} of {} panics", name, at + 1, hits);
            let h = Hook::new(at, p.cap, Vec::new());
            match catch_unwind(AssertUnwindSafe(|| perform(&p, &mut v, &h))) {
                Ok(_) if h.hits.get() > at => fail!("{}: the panic does not reach the caller", when()),
                Ok(_) => fail!("{}: only {} callbacks the second time", when(), h.hits.get()),
                Err(e) => match e.downcast::<u8>() {
                    Ok(x) => ensure!(*x == 7, "{}: another panic arrives", when()),
                    Err(e) => {
                        let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                        fail!("{}: the library panics itself: {:?}", when(), t)
                    }
                },
            }
            if let Some(e) = h.err.borrow_mut().take() {
                fail!("{}: {}", when(), e);
            }
            if p.act <= 4 {
                ensure!(h.hits.get() == at + 1, "{}: {} callbacks more while unwinding", when(), h.hits.get() - at - 1);
            }
            if let Some(t) = &want.text {
                let out = h.out.borrow();
                ensure!(t.as_bytes().starts_with(&out), "{}: it had received {:?}, not the beginning of {:?}", when(), clip(&String::from_utf8_lossy(&out)), clip(t));
            }
            ensure!(h.live.get() == 0, "{}: {} of the items given were {}", when(), h.live.get().abs(), if h.live.get() > 0 { "never dropped" } else { "dropped twice" });
            check(&v, &m).map_err(|e| format!("{}, then the value: {}", when(), e))?;
            if i < 2 {
                still_works(&v, &m, &text).map_err(|e| format!("{}, then: {}", when(), e))?;
            }
        }
        // and then without a panic
        let h = Hook::new(NEVER, p.cap, Vec::new());
        let out = perform(&p, &mut v, &h);
        judge(&p, out, &want, &h).map_err(|e| format!("after {} panics: {}", hits.min(24), e))?;
        check(&v, &want.after).map_err(|e| format!("after {} panics, then {}: {}", hits.min(24), name, e))?;
        still_works(&v, &want.after, &compact_text(&want.after)).map_err(|e| format!("after {} panics, then {}: {}", hits.min(24), name, e))
    });
    g.nontrivial = points > 1;
    r
}

// ------------------------------------------------------------------ C34

/// What a callback does with the library
#[derive(Clone)]
pub enum Task {
    Parse(String, RV),
    Refuse(String),
    Print(Rc<JsonValue>, RV, u16),
    /// The very value the outer call works on
    Outer,
    Change(RV, u64, Vec<Op>),
    Number(Num),
    Float(f64),
    /// The caller's code, called by the library, called by the caller's code
    Nest(Box<Plan>, RV, u64, Vec<Task>),
}

impl Task {
    /// The same task, sharing nothing with this one
    pub fn again(&self, g: &mut G) -> Task {
        match self {
            Task::Print(_, m, n) => Task::Print(Rc::new(build(g, m)), m.clone(), *n),
            Task::Nest(p, m, style, tasks) => {
                let mut p = p.clone();
                p.needle = Rc::new((*p.needle).clone());
                for (k, x) in p.items.iter_mut() {
                    *k = Rc::new((**k).clone());
                    *x = Rc::new((**x).clone());
                }
                Task::Nest(p, m.clone(), *style, tasks.iter().map(|t| t.again(g)).collect())
            }
            t => t.clone(),
        }
    }
    pub fn run(&self, h: &Hook) -> R {
        match self {
            Task::Parse(t, m) => match json::parse(t) {
                Ok(v) => check(&v, m).map_err(|e| format!("parsing {:?}: {}", clip(t), e)),
                Err(e) => fail!("parsing {:?} gives {:?}", clip(t), e),
            },
            Task::Refuse(t) => {
                ensure!(json::parse(t).is_err(), "parsing {:?} succeeds", clip(t));
                Ok(())
            }
            Task::Print(v, m, n) => printed(v, m, *n),
            Task::Outer => match &*h.outer.borrow() {
                Some((v, m)) => {
                    let v = unsafe { &**v };
                    check_fast(v, m).map_err(|e| format!("the outer value: {}", e))?;
                    printed(v, m, 1).map_err(|e| format!("the outer value: {}", e))
                }
                None => Ok(()),
            },
            Task::Change(m, style, ops) => {
                let (mut m, mut st) = (m.clone(), *style);
                let mut v = build_styled(&m, &mut st);
                let keep = v.clone();
                let was = m.clone();
                for op in ops {
                    apply(&mut v, &mut m, op)?;
                }
                check(&v, &m).map_err(|e| format!("changing a value: {}", e))?;
                check(&keep, &was).map_err(|e| format!("the clone of a changed value: {}", e))
            }
            Task::Number(n) => {
                let x = number(n);
                let t = x.to_string();
                let w = if n.nan { "nan".into() } else { num_text(n) };
                ensure!(t == w, "a number prints {:?} instead of {:?}", t, w);
                Ok(())
            }
            Task::Float(x) => {
                let v = JsonValue::from(*x);
                let t = v.dump();
                let y = if x.is_finite() { json::parse(&t).ok().and_then(|v| v.as_f64()).map(f64::to_bits) } else { None };
                if x.is_finite() {
                    ensure!(y == Some(x.to_bits()), "the float {:e} prints {:?} and comes back as {:?}", x, t, y.map(f64::from_bits));
                } else {
                    ensure!(t == "null", "{} prints {:?}", x, t);
                }
                Ok(())
            }
            Task::Nest(p, m, style, tasks) => {
                let mut st = *style;
                let mut v = build_styled(m, &mut st);
                nested(p, &mut v, m, tasks.clone()).map(drop)
            }
        }
    }
}

fn printed(v: &JsonValue, m: &RV, n: u16) -> R {
    let (t, w) = (v.dump(), compact_text(m));
    ensure!(t == w, "dump gives {:?} instead of {:?}", clip(&t), clip(&w));
    let (t, w) = (v.pretty(n), pretty_text(m, n as usize));
    ensure!(t == w, "pretty({}) gives {:?} instead of {:?}", n, clip(&t), clip(&w));
    let (t, w) = (v.to_string(), display_text(m));
    ensure!(t == w, "Display gives {:?} instead of {:?}", clip(&t), clip(&w));
    let mut o = Vec::new();
    ensure!(v.write(&mut o).is_ok() && o == compact_text(m).as_bytes(), "write gives {:?}", clip(&String::from_utf8_lossy(&o)));
    Ok(())
}

/// Performs the call with hooks that run the tasks; how many did
fn nested(p: &Plan, v: &mut JsonValue, m: &RV, tasks: Vec<Task>) -> Result<usize, String> {
    let want = expected(p, v, m);
    let h = Hook::new(NEVER, p.cap, tasks);
    if p.act <= 4 || p.act == 13 {
        *h.outer.borrow_mut() = Some((v, m.clone()));
    }
    let out = perform(p, v, &h);
    h.outer.borrow_mut().take();
    if let Some(e) = h.err.borrow_mut().take() {
        fail!("{}, {}", ACTS[p.act], e);
    }
    judge(p, out, &want, &h)?;
    check(v, &want.after).map_err(|e| format!("after {}: {}", ACTS[p.act], e))?;
    Ok(h.runs.get())
}

/// With `outer`, the task may be to use the value of the call it is made from
pub fn gen_task(g: &mut G, depth: usize, outer: bool) -> Task {
    let mut fuel = 10;
    match g.weighted(&[20, 10, 20, if outer { 25 } else { 0 }, 12, 8, if depth > 0 { 15 } else { 0 }, 6]) {
        0 => {
            let (t, m) = document(g, false);
            Task::Parse(t, m)
        }
        1 => {
            let (t, _) = document(g, false);
            Task::Refuse(format!("{}{}", t, g.pick(&["]", "}", " x", ",", "\u{0}", "[1"])))
        }
        2 => {
            let m = tree(g, &PLAIN, 3, &mut fuel);
            let v = build(g, &m);
            Task::Print(Rc::new(v), m, g.upto(4) as u16)
        }
        3 if outer => Task::Outer,
        4 => {
            let m = tree(g, &PLAIN, 2, &mut fuel);
            let n = g.upto(4);
            Task::Change(m, g.upto(u64::MAX), (0..n).map(|_| gen_op(g)).collect())
        }
        6 if depth > 0 => {
            let m = tree(g, &PLAIN, 2, &mut fuel);
            let p = gen_plan(g, &m);
            let tasks = (0..1 + g.upto(1)).map(|_| gen_task(g, depth - 1, true)).collect();
            Task::Nest(Box::new(p), m, g.upto(u64::MAX), tasks)
        }
        5 => Task::Number(api_num(g)),
        _ => Task::Float(float64(g)),
    }
}

pub fn task_name(t: &Task) -> String {
    match t {
        Task::Parse(t, _) => format!("parse {:?}", clip(t)),
        Task::Refuse(t) => format!("refuse {:?}", clip(t)),
        Task::Print(_, m, _) => format!("print {}", clip(&compact_text(m))),
        Task::Outer => "print the outer value".into(),
        Task::Change(m, _, o) => format!("change {} {} times", clip(&compact_text(m)), o.len()),
        Task::Number(n) => format!("print {}", num_text(n)),
        Task::Float(x) => format!("print {:e}", x),
        Task::Nest(p, m, _, t) => format!("{} of {} [{}]", ACTS[p.act], clip(&compact_text(m)), t.iter().map(task_name).collect::<Vec<_>>().join("; ")),
    }
}

pub fn c34(g: &mut G) -> R {
    let (m, style) = subject(g);
    let p = gen_plan(g, &m);
    let tasks: Vec<Task> = (0..1 + g.upto(2)).map(|_| gen_task(g, 1, true)).collect();
    g.label(ACTS[p.act]);
    for t in &tasks {
        g.label(match t {
            Task::Parse(..) => "parse inside",
            Task::Refuse(..) => "refusal inside",
            Task::Print(..) => "print inside",
            Task::Outer => "outer value inside",
            Task::Change(..) => "change inside",
            Task::Number(..) | Task::Float(..) => "number inside",
            Task::Nest(..) => "two levels",
        });
    }
    g.note(|| format!("{}, and inside: {}", describe_plan(&p, &m), tasks.iter().map(task_name).collect::<Vec<_>>().join("; ")));
    g.print_bytes(compact_text(&m).as_bytes());
    g.print_u64(p.style ^ p.act as u64);
    g.print_u64(style);
    let mut st = style;
    let mut v = build_styled(&m, &mut st);
    let runs = nested(&p, &mut v, &m, tasks)?;
    g.nontrivial = runs > 0;
    Ok(())
}
