//! C15, C16, C18, C24, C25: containers under histories of operations.

use super::text::clip;
use super::{sweep, Sweep};
use crate::engine::{G, R, SMALL};
use crate::gen::*;
use crate::model::*;
use json::iterators::{Entries, EntriesMut};
use json::object::Object;
use json::{Error, JsonValue};
use std::sync::atomic::Ordering::Relaxed;

// ------------------------------------------------------------------ C15

/// Keys for one history: few enough to meet again, of every length, and in
/// groups with equal hashes
fn key_pool(g: &mut G) -> Vec<String> {
    let n = 1 + g.size(24);
    let mut pool: Vec<String> = Vec::new();
    while pool.len() < n {
        if g.prob(120) {
            let grp = colliding(g.below(12));
            let take = 1 + g.below(grp.len());
            pool.extend(grp.into_iter().take(take));
        } else {
            pool.push(key(g));
        }
    }
    pool
}

fn small(g: &mut G) -> RV {
    match g.weighted(&[70, 20, 10]) {
        0 => RV::Num(Num::int(g.upto(99) as i128)),
        1 => leaf(g, &PLAIN),
        _ => {
            let mut fuel = 5;
            tree(g, &PLAIN, 2, &mut fuel)
        }
    }
}

fn agree(o: &Object, m: &[(String, RV)], absent: &[String]) -> R {
    check_object(o, m, true)?;
    for k in absent {
        if obj_get(m, k).is_none() {
            ensure!(o.get(k).is_none(), "lookup of the absent key {:?} finds {}", k, o.get(k).map(|x| x.dump()).unwrap_or_default());
            ensure!(o[&k[..]].is_null(), "indexing with the absent key {:?} is not null", k);
        }
    }
    let mut n = 0;
    for ((k, _), w) in o.iter().rev().zip(m.iter().rev()) {
        ensure!(k == w.0, "reverse iteration gives {:?} instead of {:?}", k, w.0);
        n += 1;
    }
    ensure!(n == m.len() && o.iter().len() == n, "iterator length is {} instead of {}", o.iter().len(), m.len());
    Ok(())
}

fn same_by_print(o: &Object, m: &[(String, RV)]) -> R {
    let want = compact_text(&RV::Obj(m.to_vec()));
    let got = o.dump();
    ensure!(got == want, "prints {} instead of {}", clip(&got), clip(&want));
    Ok(())
}

fn equal_to_rebuilt(g: &mut G, o: &Object, m: &[(String, RV)]) -> R {
    let mut p = m.to_vec();
    if g.flip() {
        p.reverse();
    } else {
        for i in (1..p.len()).rev() {
            let j = g.upto(i as u64) as usize;
            p.swap(i, j);
        }
    }
    let mut st = g.upto(u64::MAX);
    let q = build_object(&p, &mut st);
    ensure!(*o == q && q == *o, "{} differs from the same members in another order, {}", clip(&o.dump()), clip(&q.dump()));
    if let Some((k, v)) = p.first() {
        let mut r = q.clone();
        r.insert(k, if rv_eq(v, &RV::Null) { JsonValue::from(1) } else { JsonValue::Null });
        ensure!(*o != r && r != *o, "equal to an object whose member {:?} differs", k);
        let mut r = q.clone();
        r.remove(k);
        ensure!(*o != r && r != *o, "equal to an object without member {:?}", k);
        r.insert(&format!("{}~other", k), build_styled(v, &mut 0));
        ensure!(*o != r && r != *o, "equal to an object with another key than {:?}", k);
    }
    Ok(())
}

/// One operation on both sides
fn step15(g: &mut G, o: &mut Object, m: &mut Vec<(String, RV)>, pool: &[String], spare: &mut Option<(Object, Vec<(String, RV)>)>) -> R {
    // favour keys that are present for half of the operations
    let k = if !m.is_empty() && g.flip() { m[g.below(m.len())].0.clone() } else { g.pick(pool).clone() };
    let q = || clip(&k);
    match g.weighted(&[32, 10, 18, 6, 8, 6, 5, 2, 4, 4, 3, 2]) {
        0 => {
            let v = small(g);
            g.note(|| format!("insert {:?} = {}", q(), clip(&compact_text(&v))));
            let x = build(g, &v);
            g.label_if(obj_get(m, &k).is_some(), "overwrite");
            o.insert(&k, x);
            obj_set(m, &k, v);
        }
        1 => {
            g.note(|| format!("get {:?}", q()));
            match (o.get(&k), obj_get(m, &k)) {
                (Some(x), Some(v)) => check(x, v).map_err(|e| format!("get {:?}: {}", q(), e))?,
                (None, None) => {}
                (x, v) => fail!("get {:?} is {:?} instead of {:?}", q(), x.map(|x| x.dump()), v),
            }
        }
        2 => {
            g.note(|| format!("remove {:?}", q()));
            let got = o.remove(&k);
            let want = m.iter().position(|x| x.0 == k).map(|i| m.remove(i).1);
            g.label_if(want.is_some(), "remove");
            match (got, want) {
                (Some(x), Some(v)) => check(&x, &v).map_err(|e| format!("remove {:?} returned another value: {}", q(), e))?,
                (None, None) => {}
                (x, v) => fail!("remove {:?} returned {:?} instead of {:?}", q(), x.map(|x| x.dump()), v),
            }
        }
        3 => {
            let v = small(g);
            g.note(|| format!("get_mut {:?} = {}", q(), clip(&compact_text(&v))));
            let y = build(g, &v);
            match (o.get_mut(&k), obj_get(m, &k).is_some()) {
                (Some(x), true) => {
                    *x = y;
                    obj_set(m, &k, v);
                }
                (None, false) => {}
                (x, v) => fail!("get_mut {:?} is {:?} though presence is {}", q(), x.map(|x| x.dump()), v),
            }
        }
        4 => {
            let v = small(g);
            g.note(|| format!("[{:?}] = {}", q(), clip(&compact_text(&v))));
            let x = build(g, &v);
            match g.below(3) {
                0 => o[&k[..]] = x,
                1 => o[k.clone()] = x,
                _ => o[&k] = x,
            }
            obj_set(m, &k, v);
        }
        5 => {
            g.note(|| format!("read [{:?}]", q()));
            let x = match g.below(3) {
                0 => &o[&k[..]],
                1 => &o[k.clone()],
                _ => &o[&k],
            };
            check(x, obj_get(m, &k).unwrap_or(&RV::Null)).map_err(|e| format!("[{:?}]: {}", q(), e))?;
        }
        6 => {
            g.note(|| "iter_mut: add to every other member".into());
            for (i, ((kk, x), w)) in o.iter_mut().zip(m.iter_mut()).enumerate() {
                ensure!(kk == w.0, "iter_mut gives {:?} instead of {:?}", kk, w.0);
                if i % 2 == 0 {
                    *x = JsonValue::from(1000 + i);
                    w.1 = RV::Num(Num::int(1000 + i as i128));
                }
            }
        }
        7 => {
            g.note(|| "clear".into());
            g.label("clear");
            o.clear();
            m.clear();
        }
        8 => {
            g.note(|| "clone, go on with the clone".into());
            g.label("clone");
            let c = if g.prob(400) {
                // over an object that has entries of its own
                let mut c = Object::with_capacity(g.size(12));
                let n = g.size(12);
                for i in 0..n {
                    c.insert(pool.get(i).map(|x| &x[..]).unwrap_or("a key of its own, which is longer than others"), JsonValue::from("old"));
                }
                c.clone_from(o);
                c
            } else {
                o.clone()
            };
            let old = std::mem::replace(o, c);
            if g.flip() {
                *spare = Some((old, m.clone()));
            }
        }
        9 => {
            if let Some(s) = spare.take() {
                g.note(|| "swap with the kept copy".into());
                let now = (std::mem::replace(o, s.0), std::mem::replace(m, s.1));
                *spare = Some(now);
            }
        }
        10 if g.prob(400) => {
            g.note(|| "override the last".into());
            #[allow(deprecated)]
            o.override_last(JsonValue::from("overridden"));
            if let Some(x) = m.last_mut() {
                x.1 = RV::Str("overridden".into());
            }
        }
        10 => {
            g.note(|| "rebuild by collecting".into());
            let c: Object = o.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            *o = c;
        }
        _ => {
            let n = g.size(40);
            g.note(|| format!("insert {} fresh keys", n));
            for i in 0..n {
                let k = format!("fresh{}", i);
                o.insert(&k, JsonValue::from(i));
                obj_set(m, &k, RV::Num(Num::int(i as i128)));
            }
        }
    }
    Ok(())
}

const SIX: [&str; 6] = ["a", "xCSAA_pJL1A", "B3GlLJuLJkI", "", "a key of more than thirty-two bytes, kept on the heap", "q"];

pub fn c15(g: &mut G) -> R {
    match g.weighted(&[80, 8, 0, 0, 12, 0]) {
        0 => {
            let pool = key_pool(g);
            let mut st = g.upto(u64::MAX);
            let n0 = g.size(8);
            let mut m: Vec<(String, RV)> = Vec::new();
            for _ in 0..n0 {
                let k = g.pick(&pool).clone();
                let v = small(g);
                obj_set(&mut m, &k, v);
            }
            let mut o = build_object(&m, &mut st);
            g.note(|| format!("start with {}", clip(&compact_text(&RV::Obj(m.clone())))));
            let n = g.size(150);
            let mut spare = None;
            for i in 0..n {
                step15(g, &mut o, &mut m, &pool, &mut spare)?;
                if m.len() < 12 || i % 8 == 0 {
                    agree(&o, &m, &pool).map_err(|e| format!("after operation {}: {}", i, e))?;
                }
            }
            g.nontrivial = n > 2;
            agree(&o, &m, &pool)?;
            same_by_print(&o, &m)?;
            equal_to_rebuilt(g, &o, &m)?;
            if let Some((o, m)) = &spare {
                agree(o, m, &pool).map_err(|e| format!("the copy kept aside: {}", e))?;
            }
            Ok(())
        }
        1 => {
            // many keys
            let n = if SMALL.load(Relaxed) { g.range(10, 80) } else { g.range(100, 3000) } as usize;
            let style = g.below(4);
            let name = |i: usize| match style {
                0 => format!("{}", i),
                1 => format!("{:08}", 99999999 - i),
                2 => format!("a long prefix that goes beyond the inline buffer {}", i),
                _ => format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 3),
            };
            g.label("many-keys");
            g.nontrivial = true;
            g.note(|| format!("{} keys like {:?}", n, name(7)));
            let mut o = Object::new();
            let mut m: Vec<(String, RV)> = Vec::new();
            let mut at = std::collections::HashMap::new();
            for i in 0..n {
                let k = name(i);
                o.insert(&k, JsonValue::from(i));
                let v = RV::Num(Num::int(i as i128));
                match at.get(&k) {
                    Some(&j) => {
                        let j: usize = j;
                        m[j].1 = v;
                    }
                    None => {
                        at.insert(k.clone(), m.len());
                        m.push((k, v));
                    }
                }
            }
            check_object(&o, &m, true)?;
            // every member through the writing lookup, then written
            let d = 1 + g.below(5);
            for (j, (k, v)) in m.iter_mut().enumerate() {
                match o.get_mut(k) {
                    Some(x) => {
                        check(x, v).map_err(|e| format!("get_mut {:?}: {}", k, e))?;
                        if j % d == 0 {
                            *x = JsonValue::from(7000 + j);
                            *v = RV::Num(Num::int(7000 + j as i128));
                        }
                    }
                    None => fail!("get_mut of the present key {:?} finds nothing", k),
                }
            }
            check_object(&o, &m, true)?;
            // other operations on an object of this size
            let pool: Vec<String> = (0..12).map(|_| { let i = g.below(2 * n); name(i) }).collect();
            let mut spare = None;
            for i in 0..g.size(30) {
                step15(g, &mut o, &mut m, &pool, &mut spare)?;
                if i % 8 == 0 {
                    agree(&o, &m, &pool).map_err(|e| format!("after operation {}: {}", i, e))?;
                }
            }
            agree(&o, &m, &pool)?;
            if let Some((o, m)) = &spare {
                agree(o, m, &pool).map_err(|e| format!("the copy kept aside: {}", e))?;
            }
            if m.is_empty() {
                return Ok(());
            }
            // removals at a few places
            let r = 1 + g.below(4);
            for _ in 0..r.min(m.len()) {
                let i = g.below(m.len());
                let (k, v) = m.remove(i);
                match o.remove(&k) {
                    Some(x) => check(&x, &v)?,
                    None => fail!("remove of the present key {:?} finds nothing", k),
                }
                ensure!(o.get(&k).is_none(), "key {:?} is still found after its removal", k);
            }
            check_object(&o, &m, true)?;
            let c = o.clone();
            drop(o);
            check_object(&c, &m, true).map_err(|e| format!("clone: {}", e))?;
            same_by_print(&c, &m)
        }
        2 => {
            // enumerated: histories of up to 6 operations on three keys, two of
            // them with equal hashes
            let mut i = g.upto(8u64.pow(6) - 1);
            let keys = ["xCSAA_pJL1A", "B3GlLJuLJkI", "m"];
            let mut o = Object::new();
            let mut m = Vec::new();
            g.label("enumerated-histories");
            g.nontrivial = true;
            let all: Vec<String> = keys.iter().map(|x| x.to_string()).collect();
            for t in 0..6 {
                let op = (i % 8) as usize;
                i /= 8;
                match op {
                    0..=2 => {
                        g.note(|| format!("insert {:?}", keys[op]));
                        o.insert(keys[op], JsonValue::from(t));
                        obj_set(&mut m, keys[op], RV::Num(Num::int(t as i128)));
                    }
                    3..=5 => {
                        g.note(|| format!("remove {:?}", keys[op - 3]));
                        let got = o.remove(keys[op - 3]).is_some();
                        let at = m.iter().position(|x: &(String, RV)| x.0 == keys[op - 3]);
                        ensure!(got == at.is_some(), "remove {:?} returned a value: {}", keys[op - 3], got);
                        if let Some(at) = at {
                            m.remove(at);
                        }
                    }
                    6 => {
                        g.note(|| "clone".into());
                        let c = o.clone();
                        o = c;
                    }
                    _ => {
                        g.note(|| "clear".into());
                        o.clear();
                        m.clear();
                    }
                }
                agree(&o, &m, &all)?;
            }
            same_by_print(&o, &m)
        }
        3 => {
            // enumerated: every insertion order of six keys, every removal
            let mut i = g.upto(720 * 7 - 1) as usize;
            let gone = i % 7;
            i /= 7;
            let mut left: Vec<&str> = SIX.to_vec();
            let mut order = Vec::new();
            for n in (1..=6).rev() {
                order.push(left.remove(i % n));
                i /= n;
            }
            g.label("enumerated-orders");
            g.nontrivial = true;
            g.note(|| format!("insert {:?}, remove number {}", order, gone));
            let mut o = if gone % 2 == 0 { Object::new() } else { Object::with_capacity(3) };
            let mut m = Vec::new();
            for (j, k) in order.iter().enumerate() {
                o.insert(k, JsonValue::from(j));
                m.push((k.to_string(), RV::Num(Num::int(j as i128))));
            }
            let all: Vec<String> = SIX.iter().map(|x| x.to_string()).collect();
            agree(&o, &m, &all)?;
            if gone < 6 {
                let (k, v) = m.remove(gone);
                match o.remove(&k) {
                    Some(x) => check(&x, &v)?,
                    None => fail!("remove of the present key {:?} finds nothing", k),
                }
                agree(&o, &m, &all)?;
                o.insert(&k, JsonValue::from("again"));
                m.push((k, RV::Str("again".into())));
                agree(&o, &m, &all)?;
            }
            same_by_print(&o, &m)
        }
        5 => {
            // indexes of two bytes and more
            let i = g.below(HUGE.len());
            let n = if SMALL.load(Relaxed) { 30 + i } else { HUGE[i] };
            g.label("huge");
            g.nontrivial = true;
            g.note(|| format!("{} keys", n));
            let name = |i: usize| format!("k{:x}", i);
            let mut o = if i % 2 == 0 {
                let mut o = Object::new();
                for i in 0..n {
                    o.insert(&name(i), JsonValue::from(i));
                }
                o
            } else {
                let mut t = String::from("{");
                for i in 0..n {
                    t.push_str(if i > 0 { ",\"" } else { "\"" });
                    t.push_str(&name(i));
                    t.push_str("\":");
                    t.push_str(&i.to_string());
                }
                t.push('}');
                match json::parse(&t) {
                    Ok(JsonValue::Object(o)) => o,
                    x => fail!("an object of {} members parses as {:?}", n, x.map(|x| describe(&x))),
                }
            };
            let all = |o: &mut Object, gone: Option<usize>| -> R {
                let left = n - gone.is_some() as usize;
                ensure!(o.len() == left, "an object of {} members has length {}", left, o.len());
                for i in 0..n {
                    let k = name(i);
                    let want = if Some(i) == gone { None } else { Some(i) };
                    let (a, b) = (o.get(&k).and_then(|x| x.as_usize()), o.get_mut(&k).and_then(|x| x.as_usize()));
                    ensure!(a == want && b == want, "among {} members, {:?} is {:?} by get and {:?} by get_mut instead of {:?}", n, k, a, b, want);
                }
                let mut i = 0;
                for (k, v) in o.iter() {
                    if Some(i) == gone {
                        i += 1;
                    }
                    ensure!(k == name(i) && *v == i, "among {} members, number {} is {:?}: {}", n, i, k, v);
                    i += 1;
                }
                Ok(())
            };
            all(&mut o, None)?;
            let c = o.clone();
            let j = g.below(n);
            let x = o.remove(&name(j));
            ensure!(x == Some(JsonValue::from(j)), "remove among {} members gives {:?}", n, x);
            all(&mut o, Some(j))?;
            drop(o);
            let mut c = c;
            all(&mut c, None).map_err(|e| format!("clone: {}", e))
        }
        _ => {
            // by way of JsonValue and of parsing
            let pool = key_pool(g);
            let mut v = JsonValue::new_object();
            let mut m: Vec<(String, RV)> = Vec::new();
            let n = g.size(60);
            g.label("through-values");
            g.nontrivial = n > 2;
            for _ in 0..n {
                let k = g.pick(&pool).clone();
                match g.weighted(&[40, 25, 20, 15]) {
                    0 => {
                        let x = small(g);
                        g.note(|| format!("insert {:?} {}", clip(&k), clip(&compact_text(&x))));
                        let y = build(g, &x);
                        ensure!(v.insert(&k, y).is_ok(), "insert on an object fails");
                        obj_set(&mut m, &k, x);
                    }
                    1 => {
                        g.note(|| format!("remove {:?}", clip(&k)));
                        let got = v.remove(&k);
                        let want = m.iter().position(|x| x.0 == k).map_or(RV::Null, |i| m.remove(i).1);
                        check(&got, &want).map_err(|e| format!("remove {:?}: {}", clip(&k), e))?;
                    }
                    2 => {
                        ensure!(v.has_key(&k) == obj_get(&m, &k).is_some(), "has_key({:?}) is {}", clip(&k), v.has_key(&k));
                    }
                    _ => {
                        if !m.iter().any(|x| x.1.has_nan() || matches!(x.1, RV::Lit(_))) {
                            g.note(|| "print and parse".into());
                            v = match json::parse(&v.dump()) {
                                Ok(v) => v,
                                Err(e) => fail!("{} does not parse: {:?}", clip(&v.dump()), e),
                            };
                        }
                    }
                }
                check(&v, &RV::Obj(m.clone()))?;
            }
            match &v {
                JsonValue::Object(o) => agree(o, &m, &pool),
                _ => fail!("no longer an object"),
            }
        }
    }
}

const HUGE: [usize; 6] = [256, 257, 32769, 65536, 65537, 100_000];

pub fn c15_sweeps(quick: bool) -> Vec<Sweep> {
    let all = 8u64.pow(6);
    let huge = HUGE.len() as u64;
    if quick {
        vec![Sweep { prefix: vec![2], lo: 0, hi: all, step: 3 }, sweep(&[3], 0, 720 * 7), sweep(&[5], 0, huge)]
    } else {
        vec![sweep(&[2], 0, all), sweep(&[3], 0, 720 * 7), sweep(&[5], 0, huge)]
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug)]
pub enum Act {
    Push(RV),
    Pop,
    ArrayRemove(usize),
    Insert(String, RV),
    Remove(String),
    SetKey(String, RV),
    SetIdx(usize, RV),
    Take,
    TakeString,
    Clear,
    Contains(RV),
    Look(String, usize),
    Replace(RV),
    EachMember(u8),
}

/// Plain data, so that it can be drawn ahead and applied anywhere
#[derive(Clone, Debug)]
pub struct Op {
    pub path: Vec<u32>,
    pub act: Act,
    pub way: u64,
    /// Use an existing key or item instead of the given one
    pub existing: Option<u32>,
}

/// Numbers from here on count from the end
const FROM_END: u32 = 1000;

/// The place that a number means among `n`
fn place(i: u32, n: usize) -> usize {
    if i >= FROM_END {
        n - 1 - (i - FROM_END) as usize % n
    } else {
        i as usize % n
    }
}

pub fn gen_op(g: &mut G) -> Op {
    let depth = g.weighted(&[35, 30, 20, 10, 5]);
    let path = (0..depth).map(|_| g.upto(63) as u32).collect();
    let existing = if g.prob(600) {
        Some(match g.weighted(&[80, 10, 10]) {
            0 => g.upto(63) as u32,
            1 => g.upto(999) as u32,
            _ => FROM_END + g.upto(3) as u32,
        })
    } else {
        None
    };
    let act = match g.weighted(&[16, 8, 7, 14, 10, 10, 8, 4, 4, 2, 6, 6, 3, 2]) {
        0 => Act::Push(small(g)),
        1 => Act::Pop,
        2 => Act::ArrayRemove(g.size(20)),
        3 => Act::Insert(key(g), small(g)),
        4 => Act::Remove(key(g)),
        5 => Act::SetKey(key(g), small(g)),
        6 => Act::SetIdx(g.size(20), small(g)),
        7 => Act::Take,
        8 => Act::TakeString,
        9 => Act::Clear,
        10 => Act::Contains(small(g)),
        11 => Act::Look(key(g), g.size(20)),
        12 => Act::Replace(small(g)),
        _ => Act::EachMember(g.upto(9) as u8),
    };
    Op { path, act, way: g.upto(u64::MAX), existing }
}

fn nth_mut(v: &mut JsonValue, i: usize, k: &str, way: u64) -> Option<*mut JsonValue> {
    // Every way of reaching a member; the raw pointer ends the borrow between
    // the alternatives.
    let arr = v.is_array();
    Some(if arr {
        match way % 3 {
            0 => &mut v[i],
            1 => v.members_mut().nth(i)?,
            _ => match v {
                JsonValue::Array(a) => a.get_mut(i)?,
                _ => return None,
            },
        }
    } else {
        match way % 5 {
            0 => &mut v[k],
            1 => &mut v[k.to_string()],
            2 => v.entries_mut().nth(i)?.1,
            3 => v.entries_mut().find(|x| x.0 == k)?.1,
            _ => match v {
                JsonValue::Object(o) => o.get_mut(k)?,
                _ => return None,
            },
        }
    })
}

fn wrong_type(r: Result<(), Error>) -> bool {
    matches!(r, Err(Error::WrongType(_)))
}

/// Applies `op` to the value and to the model
pub fn apply(v: &mut JsonValue, m: &mut RV, op: &Op) -> R {
    let mut v: &mut JsonValue = v;
    let mut m: &mut RV = m;
    let mut way = op.way;
    for &p in &op.path {
        let here: *mut RV = m;
        let next: (_, *mut RV) = match unsafe { &mut *here } {
            RV::Arr(a) if !a.is_empty() => {
                let i = p as usize % a.len();
                (nth_mut(v, i, "", way), &mut a[i])
            }
            RV::Obj(o) if !o.is_empty() => {
                let i = p as usize % o.len();
                let k = o[i].0.clone();
                (nth_mut(v, i, &k, way), &mut o[i].1)
            }
            _ => break,
        };
        v = match next.0 {
            Some(x) => unsafe { &mut *x },
            None => fail!("cannot reach an existing member"),
        };
        m = unsafe { &mut *next.1 };
        way = way.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) >> 3;
    }
    let before = m.clone();
    let show = |what: &str| format!("{} on {}", what, clip(&compact_text(&before)));
    let mut st = way;
    let pick_key = |m: &RV, k: &String| -> String {
        match (m, op.existing) {
            (RV::Obj(o), Some(i)) if !o.is_empty() => o[place(i, o.len())].0.clone(),
            _ => k.clone(),
        }
    };
    let pick_idx = |m: &RV, i: usize| -> usize {
        match (m, op.existing) {
            (RV::Arr(a), Some(j)) if !a.is_empty() => place(j, a.len()),
            _ => i,
        }
    };
    match &op.act {
        Act::Push(x) => {
            let r = v.push(build_styled(x, &mut st));
            match m {
                RV::Arr(a) => {
                    ensure!(r.is_ok(), "{} fails: {:?}", show("push"), r);
                    a.push(x.clone());
                }
                _ => ensure!(wrong_type(r), "{} does not report the wrong type", show("push")),
            }
        }
        Act::Pop => {
            let got = v.pop();
            let want = match m {
                RV::Arr(a) => a.pop().unwrap_or(RV::Null),
                _ => RV::Null,
            };
            check(&got, &want).map_err(|e| format!("{}: {}", show("pop"), e))?;
        }
        Act::ArrayRemove(i) => {
            let i = pick_idx(m, *i);
            let got = v.array_remove(i);
            let want = match m {
                RV::Arr(a) if i < a.len() => a.remove(i),
                _ => RV::Null,
            };
            check(&got, &want).map_err(|e| format!("{}: {}", show("array_remove"), e))?;
        }
        Act::Insert(k, x) => {
            let k = pick_key(m, k);
            let r = v.insert(&k, build_styled(x, &mut st));
            match m {
                RV::Obj(o) => {
                    ensure!(r.is_ok(), "{} fails: {:?}", show("insert"), r);
                    obj_set(o, &k, x.clone());
                }
                _ => ensure!(wrong_type(r), "{} does not report the wrong type", show("insert")),
            }
        }
        Act::Remove(k) => {
            let k = pick_key(m, k);
            let got = v.remove(&k);
            let want = match m {
                RV::Obj(o) => match o.iter().position(|x| x.0 == k) {
                    Some(i) => o.remove(i).1,
                    None => RV::Null,
                },
                _ => RV::Null,
            };
            check(&got, &want).map_err(|e| format!("{}: {}", show("remove"), e))?;
        }
        Act::SetKey(k, x) => {
            let k = pick_key(m, k);
            let y = build_styled(x, &mut st);
            match way % 3 {
                0 => v[&k[..]] = y,
                1 => v[k.clone()] = y,
                _ => v[&k] = y,
            }
            match m {
                RV::Obj(o) => obj_set(o, &k, x.clone()),
                m => *m = RV::Obj(vec![(k, x.clone())]),
            }
        }
        Act::SetIdx(i, x) => {
            let i = pick_idx(m, *i);
            // on other types than arrays only index 0 is specified
            let i = if matches!(m, RV::Arr(_)) { i } else { 0 };
            v[i] = build_styled(x, &mut st);
            match m {
                RV::Arr(a) if i < a.len() => a[i] = x.clone(),
                RV::Arr(a) => a.push(x.clone()),
                m => *m = RV::Arr(vec![x.clone()]),
            }
        }
        Act::Take => {
            let got = v.take();
            check(&got, &before).map_err(|e| format!("{}: {}", show("take"), e))?;
            *m = RV::Null;
        }
        Act::TakeString => {
            let got = v.take_string();
            match m {
                RV::Str(s) => {
                    ensure!(got.as_ref() == Some(&*s), "{} gives {:?}", show("take_string"), got);
                    *m = RV::Null;
                }
                _ => ensure!(got.is_none(), "{} gives {:?}", show("take_string"), got),
            }
        }
        Act::Clear => {
            v.clear();
            match m {
                RV::Str(s) => s.clear(),
                RV::Arr(a) => a.clear(),
                RV::Obj(o) => o.clear(),
                m => *m = RV::Null,
            }
        }
        Act::Contains(x) => {
            let x = match (&*m, op.existing) {
                (RV::Arr(a), Some(i)) if !a.is_empty() => a[place(i, a.len())].clone(),
                _ => x.clone(),
            };
            let want = match &*m {
                RV::Arr(a) => a.iter().any(|y| rv_eq(&x, y)),
                _ => false,
            };
            let got = match &x {
                RV::Str(s) if way % 2 == 0 => v.contains(&s[..]),
                RV::Str(s) => v.contains(s.clone()),
                RV::Bool(b) => v.contains(*b),
                RV::Num(n) if way % 2 == 0 => v.contains(number(n)),
                RV::Obj(o) if way % 2 == 0 => v.contains(build_object(o, &mut st)),
                x => v.contains(build_styled(x, &mut st)),
            };
            ensure!(got == want, "{} is {} for {}", show("contains"), got, clip(&compact_text(&x)));
        }
        Act::Look(k, i) => {
            let k = pick_key(m, k);
            let i = pick_idx(m, *i);
            let (mk, mi, len) = match &*m {
                RV::Obj(o) => (obj_get(o, &k), None, o.len()),
                RV::Arr(a) => (None, a.get(i), a.len()),
                _ => (None, None, 0),
            };
            ensure!(v.has_key(&k) == mk.is_some(), "{} is {} for {:?}", show("has_key"), v.has_key(&k), clip(&k));
            ensure!(v.len() == len, "{} is {}", show("len"), v.len());
            check(&v[&k[..]], mk.unwrap_or(&RV::Null)).map_err(|e| format!("{}: {}", show("indexing by key"), e))?;
            check(&v[i], mi.unwrap_or(&RV::Null)).map_err(|e| format!("{}: {}", show("indexing by number"), e))?;
            let empty = match &*m {
                RV::Null => true,
                RV::Bool(b) => !b,
                RV::Num(n) => n.nan || n.m == 0,
                RV::Str(s) => s.is_empty(),
                RV::Arr(a) => a.is_empty(),
                RV::Obj(o) => o.is_empty(),
                RV::Lit(_) => v.is_empty(),
            };
            if !matches!(m, RV::Num(n) if n.nan) {
                ensure!(v.is_empty() == empty, "{} is {}", show("is_empty"), v.is_empty());
            }
        }
        Act::Replace(x) => {
            *v = build_styled(x, &mut st);
            *m = x.clone();
        }
        Act::EachMember(n) => {
            for (i, x) in v.members_mut().enumerate() {
                if i % 2 == 0 {
                    *x = JsonValue::from(*n);
                }
            }
            for (i, (_, x)) in v.entries_mut().enumerate() {
                if i % 2 == 1 {
                    *x = JsonValue::from(*n);
                }
            }
            match m {
                RV::Arr(a) => a.iter_mut().step_by(2).for_each(|x| *x = RV::Num(Num::int(*n as i128))),
                RV::Obj(o) => o.iter_mut().skip(1).step_by(2).for_each(|x| x.1 = RV::Num(Num::int(*n as i128))),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn show_op(op: &Op) -> String {
    let mut s = format!("at {:?}: {:?}", op.path, op.act);
    if op.existing.is_some() {
        s.push_str(" (existing member)");
    }
    s
}

/// More members than the other generators give, most of them alike
fn many(g: &mut G) -> RV {
    let n = match g.below(4) {
        0 => 9 + g.below(56),
        1 => *g.pick(&[16usize, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ => 9 + g.below(300),
    };
    let some = [small(g), small(g), RV::Null, RV::Num(Num::int(0)), RV::Str(String::new()), RV::Bool(false)];
    let most = g.below(some.len());
    let style = g.below(4);
    let odd = match g.below(3) {
        0 => 0,
        1 => n - 1,
        _ => g.below(n),
    };
    let other = g.below(some.len());
    let seed = g.upto(u64::MAX);
    let item = |i: usize| match style {
        0 if i == odd => some[other].clone(),
        0 => RV::Num(Num::int(i as i128 + 1)),
        1 if i == odd => some[other].clone(),
        1 => some[most].clone(),
        2 => some[(seed >> (i % 60)) as usize & 1].clone(),
        _ => some[i % some.len()].clone(),
    };
    if g.prob(700) {
        RV::Arr((0..n).map(item).collect())
    } else {
        RV::Obj((0..n).map(|i| (if i == odd { String::new() } else { format!("member{}", i) }, item(i))).collect())
    }
}

pub fn c16(g: &mut G) -> R {
    let mut m = match g.weighted(&[72, 13, 15]) {
        0 => container(g, &PLAIN),
        1 => many(g),
        _ => leaf(g, &PLAIN),
    };
    let large = m.nodes() > 300;
    let mut v = build(g, &m);
    g.note(|| format!("start with {}", clip(&compact_text(&m))));
    let n = 1 + g.size(80);
    for i in 0..n {
        let op = gen_op(g);
        g.note(|| show_op(&op));
        g.label(match &op.act {
            Act::Push(_) => "push",
            Act::Pop => "pop",
            Act::ArrayRemove(_) => "array_remove",
            Act::Insert(..) => "insert",
            Act::Remove(_) => "remove",
            Act::SetKey(..) => "set-key",
            Act::SetIdx(..) => "set-index",
            Act::Take => "take",
            Act::TakeString => "take_string",
            Act::Clear => "clear",
            Act::Contains(_) => "contains",
            Act::Look(..) => "look",
            Act::Replace(_) => "replace",
            Act::EachMember(_) => "members_mut",
        });
        apply(&mut v, &mut m, &op).map_err(|e| format!("operation {}: {}", i, e))?;
        check(&v, &m).map_err(|e| format!("after operation {} ({}): {}", i, clip(&show_op(&op)), e))?;
        if m.nodes() > if large { 1000 } else { 400 } {
            break;
        }
    }
    g.nontrivial = n > 1;
    let text = compact_text(&m);
    ensure!(v.dump() == text, "prints {} instead of {}", clip(&v.dump()), clip(&text));
    Ok(())
}

// ------------------------------------------------------------------ C18

/// Something to clone over
fn other_object(g: &mut G) -> Object {
    let mut o = Object::with_capacity(g.size(10));
    let n = g.size(10);
    for i in 0..n {
        let k = if i % 3 == 2 { format!("an old key of more than thirty-two bytes {}", i) } else { format!("o{}", i) };
        o.insert(&k, if i % 2 == 0 { JsonValue::from("an old text of more than thirty bytes, on the heap") } else { JsonValue::from(i) });
    }
    o
}

pub fn c18(g: &mut G) -> R {
    let m = match g.weighted(&[60, 30, 10]) {
        0 => container(g, &PLAIN),
        1 => value(g, &PLAIN),
        _ => RV::Str(string(g, 100)),
    };
    let mut v = build(g, &m);
    // the original may have a history
    let mut m = m;
    let h = g.size(12);
    for _ in 0..h {
        let op = gen_op(g);
        apply(&mut v, &mut m, &op)?;
    }
    g.note(|| format!("original {}", clip(&compact_text(&m))));
    g.print_bytes(compact_text(&m).as_bytes());
    let mut c = match (&v, g.weighted(&[60, 15, 15, 10])) {
        (JsonValue::Object(o), 1) => {
            if g.flip() {
                JsonValue::Object(o.clone())
            } else {
                let mut p = other_object(g);
                p.clone_from(o);
                JsonValue::Object(p)
            }
        }
        (JsonValue::Array(a), 1) => {
            if g.flip() {
                JsonValue::Array(a.to_vec())
            } else {
                let mut p = vec![JsonValue::from("x"), JsonValue::Object(other_object(g)), JsonValue::new_array()];
                p.clone_from(a);
                JsonValue::Array(p)
            }
        }
        (v, 2) => {
            let mut c = match g.below(4) {
                0 => JsonValue::new_array(),
                1 => JsonValue::Object(other_object(g)),
                2 => JsonValue::from("a text of more than thirty bytes, on the heap"),
                _ => JsonValue::Array(vec![JsonValue::Object(other_object(g)); 3]),
            };
            c.clone_from(v);
            c
        }
        (v, 3) => {
            let keep = vec![v.clone(); 3];
            keep[1].clone()
        }
        (v, _) => v.clone(),
    };
    let text = compact_text(&m);
    ensure!(c.dump() == text, "the clone prints {} instead of {}", clip(&c.dump()), clip(&text));
    ensure!(c.pretty(3) == v.pretty(3), "the clone pretty prints as {}", clip(&c.pretty(3)));
    ensure!(c == v && v == c, "the clone does not equal the original {}", clip(&text));
    check(&c, &m).map_err(|e| format!("clone: {}", e))?;
    // work on one, watch the other
    let on_clone = g.flip();
    let keep = m.clone();
    let (worked, still) = if on_clone { (&mut c, &v) } else { (&mut v, &c) };
    let n = 1 + g.size(20);
    for _ in 0..n {
        let op = gen_op(g);
        g.note(|| format!("on the {}: {}", if on_clone { "clone" } else { "original" }, show_op(&op)));
        apply(worked, &mut m, &op)?;
        check(still, &keep).map_err(|e| format!("{} on the one changed the other: {}", clip(&show_op(&op)), e))?;
        check(worked, &m)?;
    }
    g.nontrivial = keep.nodes() > 1;
    g.label(if on_clone { "clone-worked" } else { "original-worked" });
    ensure!(still.dump() == text, "the untouched one prints {} instead of {}", clip(&still.dump()), clip(&text));
    // drop the worked one and reuse its memory
    let rest = if on_clone {
        drop(c);
        v
    } else {
        drop(v);
        c
    };
    let mut junk = Vec::new();
    for i in 0..8 {
        let mut o = Object::new();
        for j in 0..6 {
            o.insert(&format!("junk key that is longer than thirty-two bytes {} {}", i, j), JsonValue::from("JUNKJUNKJUNKJUNKJUNKJUNKJUNKJUNKJUNK"));
            o.insert(&format!("j{}", j), JsonValue::new_array());
        }
        junk.push(JsonValue::Object(o));
        junk.push(JsonValue::from("X".repeat(20 + i * 13)));
    }
    check(&rest, &keep).map_err(|e| format!("after dropping the other: {}", e))?;
    ensure!(rest.dump() == text, "after dropping the other it prints {} instead of {}", clip(&rest.dump()), clip(&text));
    drop(junk);
    Ok(())
}

// ------------------------------------------------------------------ C24

/// Takes some entries from both ends, and the rest in one of the ways an
/// iterator offers; gives what that way told, in order
fn finish<I, F>(mut it: I, way: usize, front: usize, back: usize, a: usize, conv: F) -> Vec<usize>
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> usize,
{
    let mut o = Vec::new();
    let none = usize::MAX - 1;
    for _ in 0..front {
        o.push(it.next().map_or(none, &conv));
    }
    for _ in 0..back {
        o.push(it.next_back().map_or(none, &conv));
    }
    o.push(it.len());
    match way {
        0 => o = it.fold(o, |mut o, x| {
            o.push(conv(x));
            o
        }),
        1 => o = it.rfold(o, |mut o, x| {
            o.push(conv(x));
            o
        }),
        2 => it.for_each(|x| o.push(conv(x))),
        3 => it.rev().for_each(|x| o.push(conv(x))),
        4 => o.push(it.count()),
        5 => o.push(it.rev().count()),
        6 => o.push(it.last().map_or(none, &conv)),
        7 => o.push(it.rev().last().map_or(none, &conv)),
        8 => o.extend(it.map(conv)),
        9 => o.extend(it.rev().map(conv)),
        10 => {
            let p = it.position(|x| conv(x) == a);
            o.push(p.unwrap_or(none));
            o.extend(it.map(conv));
        }
        11 => {
            let p = it.rposition(|x| conv(x) == a);
            o.push(p.unwrap_or(none));
            o.extend(it.map(conv));
        }
        12 => {
            let p = it.find_map(|x| Some(conv(x)).filter(|&x| x == a));
            o.push(p.unwrap_or(none));
            o.extend(it.map(conv));
        }
        13 => {
            let p = it.rfind(|_| false).map(&conv);
            o.push(p.unwrap_or(none));
            o.push(it.len());
        }
        14 => {
            let p = it.any(|x| conv(x) == a);
            o.push(p as usize);
            o.extend(it.rev().map(conv));
        }
        15 => {
            let p = it.all(|x| conv(x) != a);
            o.push(p as usize);
            o.extend(it.map(conv));
        }
        16 => o.extend(it.step_by(1 + a % 4).map(conv)),
        17 => {
            let p = it.try_fold(0, |n, x| if conv(x) == a { Err(n) } else { Ok(n + 1) });
            o.push(p.unwrap_or_else(|n| n + 1000));
            o.extend(it.rev().map(conv));
        }
        18 => {
            let p = it.try_rfold(0, |n, x| if conv(x) == a { Err(n) } else { Ok(n + 1) });
            o.push(p.unwrap_or_else(|n| n + 1000));
            o.extend(it.map(conv));
        }
        19 => o.push(it.max_by_key(|_| 7).map_or(none, &conv)),
        20 => o.push(it.min_by_key(|_| 7).map_or(none, &conv)),
        21 => {
            let (p, q): (Vec<usize>, Vec<usize>) = it.map(conv).partition(|x| x % 3 == 0);
            o.extend(p);
            o.extend(q);
        }
        22 => o.extend(it.reduce(|_, x| x).map(conv)),
        23 => o.extend(it.skip_while(|_| false).skip(a % 9).map(conv)),
        24 => {
            o.push(it.nth(a).map_or(none, &conv));
            o.push(it.len());
            o.push(it.nth_back(a % 3).map_or(none, &conv));
            o.extend(it.map(conv));
        }
        25 => {
            o.push(it.nth_back(a).map_or(none, &conv));
            o.push(it.len());
            o.push(it.nth(a % 3).map_or(none, &conv));
            o.extend(it.map(conv));
        }
        26 => {
            for x in it.by_ref().take(a % 9) {
                o.push(conv(x));
            }
            o.push(it.len());
            o.extend(it.rev().take(a % 7).map(conv));
        }
        27 => {
            let v: Vec<(usize, usize)> = it.enumerate().map(|(i, x)| (i, conv(x))).rev().collect();
            o.extend(v.into_iter().flat_map(|x| vec![x.0, x.1]));
        }
        28 => {
            let (lo, hi) = it.size_hint();
            o.push(lo);
            o.push(hi.unwrap_or(none));
            let v: Vec<I::Item> = it.collect();
            o.push(v.len());
            o.extend(v.into_iter().map(conv));
        }
        _ => {
            o.extend(it.zip(0..a % 100).rev().map(|(x, i)| conv(x) * 100 + i));
        }
    }
    o
}

pub fn c24(g: &mut G) -> R {
    let n = g.size(70);
    let arr = g.flip();
    let script = g.upto(u64::MAX);
    let mode = g.weighted(&[50, 15, 10, 25]);
    // front, back, nth, and nth_back calls by script
    let call = |i: usize| -> u64 {
        match mode {
            0 => (script >> (i % 61)) & 1,
            1 => 0,
            2 => 1,
            _ => (script >> (2 * (i % 30))) & 3,
        }
    };
    g.label(if arr { "array" } else { "object" });
    g.nontrivial = n > 1;
    g.note(|| format!("{} of {} entries, taken by script {:x} mode {}", if arr { "array" } else { "object" }, n, script, mode));
    g.print_u64(n as u64 * 2 + arr as u64);
    g.print_u64(script);
    g.print_u64(mode as u64);
    let key_style = g.below(3);
    let name = |i: usize| match key_style {
        0 => format!("k{}", i),
        1 => format!("a key of more than thirty-two bytes: {}", i),
        _ => format!("{}{}", "ab".repeat(i % 20), i),
    };
    let mut v = if arr { JsonValue::new_array() } else { JsonValue::new_object() };
    for i in 0..n {
        if arr {
            let _ = v.push(i);
        } else {
            let _ = v.insert(&name(i), i);
        }
    }
    // another history for the same contents
    if g.prob(300) && n > 0 && !arr {
        v.insert("extra", 1).map_err(|e| e.to_string())?;
        v.remove("extra");
    }
    let mut seen = vec![0u32; n];
    macro_rules! drive {
        ($it:expr, $what:expr, $index:expr) => {{
            let mut it = $it;
            let (mut lo, mut hi) = (0usize, n);
            let mut i = 0;
            loop {
                ensure!(it.len() == hi - lo, "{}: len is {} with {} left", $what, it.len(), hi - lo);
                ensure!(it.size_hint() == (hi - lo, Some(hi - lo)), "{}: size_hint is {:?} with {} left", $what, it.size_hint(), hi - lo);
                let c = call(i);
                i += 1;
                let skip = if c > 1 { (script >> (i % 50)) as usize % 3 } else { 0 };
                let (got, want) = match c & 1 {
                    0 => {
                        let w = if lo + skip < hi { Some(lo + skip) } else { None };
                        lo = (lo + skip + 1).min(hi);
                        (if skip > 0 { it.nth(skip) } else { it.next() }, w)
                    }
                    _ => {
                        let w = if hi >= lo + skip + 1 { Some(hi - skip - 1) } else { None };
                        hi = if hi >= lo + skip + 1 { hi - skip - 1 } else { lo };
                        (if skip > 0 { it.nth_back(skip) } else { it.next_back() }, w)
                    }
                };
                let got: Option<usize> = match got {
                    Some(x) => match $index(x) {
                        Ok(i) => Some(i),
                        Err(e) => fail!("{}: {}", $what, e),
                    },
                    None => None,
                };
                ensure!(got == want, "{} of {} entries: call {} gives {:?} instead of {:?}", $what, n, i, got, want);
                match got {
                    Some(x) => seen[x] += 1,
                    None => {
                        if lo >= hi {
                            ensure!(it.next().is_none() && it.next_back().is_none(), "{}: yields again after its end", $what);
                            ensure!(it.len() == 0, "{}: len is {} after its end", $what, it.len());
                            break;
                        }
                    }
                }
            }
        }};
    }
    let idx = |x: &JsonValue| -> Result<usize, String> { x.as_usize().ok_or_else(|| format!("an item is {}", x)) };
    let kidx = |k: &str, x: &JsonValue| -> Result<usize, String> {
        let i = idx(x)?;
        ensure!(k == name(i), "key {:?} comes with the value of {:?}", k, name(i));
        Ok(i)
    };
    // other adaptors over the same iterators
    let (from, to) = ((script % 7) as usize, (script / 7 % 9) as usize);
    let want: Vec<usize> = (0..n).skip(from).take(to).rev().collect();
    macro_rules! adapt {
        ($it:expr, $what:expr, $val:expr) => {{
            let got: Vec<usize> = $it.skip(from).take(to).rev().map($val).collect();
            ensure!(got == want, "{} of {} entries, skip {} take {} backwards: {:?}", $what, n, from, to, got);
            ensure!($it.peekable().len() == n && $it.skip(from).len() == n.saturating_sub(from), "{}: the length seen through adaptors is wrong", $what);
        }};
    }
    // the other ways to go through
    for _ in 0..3 {
        let (way, front, back) = (g.below(30), g.below(4), g.below(4));
        let a = if g.flip() { g.below(n + 1) } else { g.int(u64::MAX) as usize };
        let want = finish((0..n).collect::<Vec<_>>().into_iter(), way, front, back, a, |x| x);
        let at = |x: &JsonValue| x.as_usize().unwrap_or(usize::MAX);
        let all: Vec<(&str, Vec<usize>)> = if arr {
            vec![("members", finish(v.members(), way, front, back, a, at)), ("members_mut", finish(v.members_mut(), way, front, back, a, |x| at(x)))]
        } else {
            let mut r = vec![
                ("entries", finish(v.entries(), way, front, back, a, |x| at(x.1))),
                ("entries_mut", finish(v.entries_mut(), way, front, back, a, |x| at(x.1))),
                ("names of entries", finish(v.entries(), way, front, back, a, |x| (0..n).find(|&i| name(i) == x.0).unwrap_or(usize::MAX))),
            ];
            if let JsonValue::Object(o) = &mut v {
                r.push(("Object::iter", finish(o.iter(), way, front, back, a, |x| at(x.1))));
                r.push(("Object::iter_mut", finish(o.iter_mut(), way, front, back, a, |x| at(x.1))));
            }
            r
        };
        for (what, got) in all {
            ensure!(got == want, "{} of {} entries, {} from the front and {} from the back, then way {} with {}: {:?} instead of {:?}", what, n, front, back, way, a, got, want);
        }
        g.print_u64(way as u64);
    }
    if arr {
        adapt!(v.members(), "members", |x| x.as_usize().unwrap_or(usize::MAX));
        adapt!(v.members_mut(), "members_mut", |x| x.as_usize().unwrap_or(usize::MAX));
        drive!(v.members(), "members", |x: &JsonValue| idx(x));
        let fwd: Vec<usize> = v.members().map(|x| x.as_usize().unwrap_or(usize::MAX)).collect();
        ensure!(fwd == (0..n).collect::<Vec<_>>(), "members gives {:?}", fwd);
        let back: Vec<usize> = v.members().rev().map(|x| x.as_usize().unwrap_or(usize::MAX)).collect();
        ensure!(back == (0..n).rev().collect::<Vec<_>>(), "members backwards gives {:?}", back);
        ensure!(v.members().count() == n && v.members().last().map(|x| x == &JsonValue::from(n - 1)).unwrap_or(n == 0), "members: count or last is wrong");
        ensure!(v.entries().next().is_none() && v.entries().len() == 0, "entries of an array is not empty");
        ensure!(v.entries_mut().next().is_none() && v.entries_mut().next_back().is_none(), "entries_mut of an array is not empty");
        drive!(v.members_mut(), "members_mut", |x: &mut JsonValue| {
            let i = idx(x)?;
            *x = JsonValue::from(format!("seen {}", i));
            Ok::<usize, String>(i)
        });
    } else {
        adapt!(v.entries(), "entries", |x| x.1.as_usize().unwrap_or(usize::MAX));
        adapt!(v.entries_mut(), "entries_mut", |x| x.1.as_usize().unwrap_or(usize::MAX));
        drive!(v.entries(), "entries", |(k, x): (&str, &JsonValue)| kidx(k, x));
        let fwd: Vec<String> = v.entries().map(|x| x.0.to_string()).collect();
        ensure!(fwd == (0..n).map(name).collect::<Vec<_>>(), "entries gives {:?}", fwd);
        let back: Vec<String> = v.entries().rev().map(|x| x.0.to_string()).collect();
        ensure!(back == (0..n).rev().map(name).collect::<Vec<_>>(), "entries backwards gives {:?}", back);
        ensure!(v.entries().count() == n && v.entries().last().map(|x| x.0 == name(n - 1)).unwrap_or(n == 0), "entries: count or last is wrong");
        ensure!(v.members().next().is_none() && v.members().len() == 0, "members of an object is not empty");
        ensure!(v.members_mut().next().is_none(), "members_mut of an object is not empty");
        match &v {
            JsonValue::Object(o) => drive!(o.iter(), "Object::iter", |(k, x): (&str, &JsonValue)| kidx(k, x)),
            _ => fail!("no object"),
        }
        drive!(v.entries_mut(), "entries_mut", |(k, x): (&str, &mut JsonValue)| {
            let i = kidx(k, x)?;
            *x = JsonValue::from(format!("seen {}", i));
            Ok::<usize, String>(i)
        });
    }
    // written through exactly the visited ones
    let passes = if arr { 2 } else { 3 };
    for i in 0..n {
        let x = if arr { &v[i] } else { &v[&name(i)[..]] };
        let visited = seen[i] == passes;
        ensure!(seen[i] == passes || seen[i] == 0, "entry {} was visited {} times in {} passes", i, seen[i], passes);
        ensure!(seen[i] == passes || mode == 3, "entry {} was never visited", i);
        let want = if visited { RV::Str(format!("seen {}", i)) } else { RV::Num(Num::int(i as i128)) };
        check(x, &want).map_err(|e| format!("entry {} after the mutable pass: {}", i, e))?;
    }
    ensure!(v.len() == n, "iterating changed the length to {}", v.len());
    if !arr {
        match &mut v {
            JsonValue::Object(o) => {
                let mut c = 0;
                for (k, x) in o.iter_mut().rev() {
                    c += 1;
                    ensure!(k == name(n - c), "iter_mut backwards gives {:?}", k);
                    *x = JsonValue::Null;
                }
                ensure!(c == n && o.iter().all(|x| x.1.is_null()), "iter_mut visited {} of {}", c, n);
            }
            _ => fail!("no object"),
        }
    }
    // other types
    let m = leaf(g, &PLAIN);
    let mut x = build(g, &m);
    ensure!(x.members().next().is_none() && x.members().len() == 0 && x.entries().next().is_none() && x.entries().len() == 0, "{} has members or entries", clip(&x.dump()));
    ensure!(x.members_mut().next().is_none() && x.entries_mut().next().is_none(), "{} has members or entries to change", clip(&x.dump()));
    check(&x, &m)?;
    let (mut e, mut f) = (Entries::empty(), EntriesMut::empty());
    ensure!(e.len() == 0 && e.next().is_none() && e.next_back().is_none() && f.len() == 0 && f.next().is_none() && f.next_back().is_none(), "an empty iterator yields");
    Ok(())
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn gen_path(g: &mut G, m: &RV) -> Vec<Step> {
    let n = g.weighted(&[5, 30, 30, 20, 10, 5]);
    let mut at = Some(m);
    let mut p = Vec::new();
    for _ in 0..n {
        let follow = g.prob(700);
        let s = match (at, follow) {
            (Some(RV::Obj(o)), true) if !o.is_empty() => Step::Key(o[g.below(o.len())].0.clone()),
            (Some(RV::Arr(a)), true) if !a.is_empty() => Step::Idx(g.below(a.len())),
            _ => {
                if g.flip() {
                    Step::Key(key(g))
                } else {
                    Step::Idx(match g.weighted(&[70, 20, 10]) {
                        0 => g.upto(4) as usize,
                        1 => g.size(40),
                        _ => g.int(u64::MAX) as usize,
                    })
                }
            }
        };
        at = at.and_then(|m| child(m, &s));
        p.push(s);
    }
    p
}

fn child<'a>(m: &'a RV, s: &Step) -> Option<&'a RV> {
    match (m, s) {
        (RV::Obj(o), Step::Key(k)) => obj_get(o, k),
        (RV::Arr(a), Step::Idx(i)) => a.get(*i),
        _ => None,
    }
}

fn read<'a>(v: &'a JsonValue, p: &[Step], mut way: u64) -> &'a JsonValue {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => match way % 3 {
                0 => &v[&k[..]],
                1 => &v[k.clone()],
                _ => &v[k],
            },
            Step::Idx(i) => &v[*i],
        };
        way = way.rotate_right(5);
    }
    v
}

fn reach<'a>(v: &'a mut JsonValue, p: &[Step], mut way: u64) -> &'a mut JsonValue {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => match way % 3 {
                0 => &mut v[&k[..]],
                1 => &mut v[k.clone()],
                _ => &mut v[k],
            },
            Step::Idx(i) => &mut v[*i],
        };
        way = way.rotate_right(5);
    }
    v
}

/// What assigning does, for keys anywhere and numbers on arrays (on other
/// types: only 0)
fn reach_model<'a>(m: &'a mut RV, p: &[Step]) -> &'a mut RV {
    let mut m = m;
    for s in p {
        m = match s {
            Step::Key(k) => {
                if !matches!(m, RV::Obj(_)) {
                    *m = RV::Obj(vec![]);
                }
                match m {
                    RV::Obj(o) => {
                        let i = match o.iter().position(|x| x.0 == *k) {
                            Some(i) => i,
                            None => {
                                o.push((k.clone(), RV::Null));
                                o.len() - 1
                            }
                        };
                        &mut o[i].1
                    }
                    _ => unreachable!(),
                }
            }
            Step::Idx(i) => {
                if !matches!(m, RV::Arr(_)) {
                    *m = RV::Arr(vec![]);
                }
                match m {
                    RV::Arr(a) => {
                        let i = if *i < a.len() {
                            *i
                        } else {
                            a.push(RV::Null);
                            a.len() - 1
                        };
                        &mut a[i]
                    }
                    _ => unreachable!(),
                }
            }
        };
    }
    m
}

fn path_text(p: &[Step]) -> String {
    p.iter().map(|s| match s {
        Step::Key(k) => format!("[{:?}]", clip(k)),
        Step::Idx(i) => format!("[{}]", i),
    }).collect()
}

pub fn c25(g: &mut G) -> R {
    let mut m = if g.prob(800) { container(g, &PLAIN) } else { leaf(g, &PLAIN) };
    let mut v = build(g, &m);
    g.note(|| format!("start with {}", clip(&compact_text(&m))));
    let n = 1 + g.size(24);
    g.nontrivial = n > 1 || m.nodes() > 1;
    for _ in 0..n {
        let mut p = gen_path(g, &m);
        let way = g.upto(u64::MAX);
        if g.prob(550) {
            g.note(|| format!("read {}", path_text(&p)));
            let text = v.dump();
            let mut at = Some(&m);
            for s in &p {
                at = at.and_then(|m| child(m, s));
            }
            g.label(if at.is_some() { "read-existing" } else { "read-missing" });
            check(read(&v, &p, way), at.unwrap_or(&RV::Null)).map_err(|e| format!("reading {}: {}", path_text(&p), e))?;
            ensure!(v.dump() == text, "reading {} changed the value to {}", path_text(&p), clip(&v.dump()));
            check(&v, &m).map_err(|e| format!("reading {} changed the value: {}", path_text(&p), e))?;
        } else {
            // A number beyond 0 on something that is no array is not specified
            // in detail: try it on a copy, where it must not panic and must
            // leave the value at a new last item of a new array.
            let mut at = Some(&m);
            let mut odd = false;
            for s in &p {
                if let Step::Idx(i) = s {
                    if *i > 0 && !matches!(at, Some(RV::Arr(_))) {
                        odd = true;
                    }
                }
                at = at.and_then(|m| child(m, s));
            }
            let x = small(g);
            let y = build(g, &x);
            if odd {
                g.label("write-odd");
                g.note(|| format!("on a copy, write {} = {}", path_text(&p), clip(&compact_text(&x))));
                let mut c = v.clone();
                *reach(&mut c, &p, way) = y;
                if let Some(last) = p.last() {
                    if let (Step::Idx(_), [rest @ .., _]) = (last, &p[..]) {
                        if rest.iter().all(|s| matches!(s, Step::Key(_))) {
                            let host = read(&c, rest, way);
                            ensure!(host.is_array() && host.len() >= 1, "writing {} leaves {} there", path_text(&p), clip(&host.dump()));
                            check(&host[host.len() - 1], &x).map_err(|e| format!("writing {}: {}", path_text(&p), e))?;
                        }
                    }
                }
                check(&v, &m)?;
                for s in &mut p {
                    if let Step::Idx(i) = s {
                        *i = 0;
                    }
                }
                continue;
            }
            g.note(|| format!("write {} = {}", path_text(&p), clip(&compact_text(&x))));
            g.label(if at.is_some() { "write-existing" } else { "write-new" });
            *reach(&mut v, &p, way) = y;
            *reach_model(&mut m, &p) = x.clone();
            check(&v, &m).map_err(|e| format!("after writing {} = {}: {}", path_text(&p), clip(&compact_text(&x)), e))?;
            if p.iter().all(|s| matches!(s, Step::Key(_))) {
                check(read(&v, &p, way), &x).map_err(|e| format!("reading back {}: {}", path_text(&p), e))?;
            }
            if m.nodes() > 300 {
                break;
            }
        }
    }
    Ok(())
}
