//! C09 to C14: numbers.

use super::text::clip;
use super::{sweep, Sweep};
use crate::engine::{G, R, SMALL};
use crate::gen::*;
use crate::model::*;
use json::number::{Number, NAN};
use json::JsonValue;
use std::convert::TryFrom;
use std::sync::atomic::Ordering::Relaxed;

// ------------------------------------------------------------------ C09

fn read_literal(t: &str) -> Result<Number, String> {
    let l = match parse_lit(t.as_bytes()) {
        Some(l) => l,
        None => fail!("harness: {:?} is not a literal", t),
    };
    let contexts = [("", ""), ("[", "]"), ("{\"a\":", "}"), (" ", "\n"), ("[0,", " ,1]")];
    let mut first: Option<Number> = None;
    for (a, b) in contexts {
        let text = format!("{}{}{}", a, t, b);
        let v = match json::parse(&text) {
            Ok(v) => v,
            Err(e) => {
                if l.int.len() > 32767 && e == json::Error::ExceededDepthLimit {
                    continue;
                }
                fail!("the number {} was refused with {:?} in {}", clip(t), e, clip(&text))
            }
        };
        let n = match &v {
            JsonValue::Number(n) => *n,
            JsonValue::Array(a) if a.len() == 1 => num_of(&a[0])?,
            JsonValue::Array(a) if a.len() == 3 => num_of(&a[1])?,
            JsonValue::Object(_) => num_of(&v["a"])?,
            _ => fail!("{} parsed to {}", clip(&text), clip(&v.dump())),
        };
        lit_ok(&l, &n).map_err(|e| format!("{}: {}", clip(&text), e))?;
        if let Some(f) = first {
            ensure!(number_dec(&f) == number_dec(&n), "{} is read differently in {}: {:?} and {:?}", clip(t), clip(&text), f, n);
        }
        first = Some(n);
    }
    first.ok_or_else(|| "refused".into())
}

fn num_of(v: &JsonValue) -> Result<Number, String> {
    match v {
        JsonValue::Number(n) => Ok(*n),
        v => Err(format!("a number literal was read as {}", describe(v))),
    }
}

pub fn c09(g: &mut G) -> R {
    match g.weighted(&[75, 20, 5]) {
        0 => {
            let t = literal(g, true);
            g.print_bytes(t.as_bytes());
            g.note(|| format!("literal {}", t));
            let l = parse_lit(t.as_bytes()).ok_or("harness: literal")?;
            g.nontrivial = t.len() > 2;
            g.label_if(l.mantissa().is_none(), "digits-beyond-u64");
            g.label_if(l.has_frac, "fraction");
            g.label_if(l.has_exp, "exponent");
            g.label_if(l.scale() < -32768 || l.scale() > 32767, "exponent-beyond-i16");
            g.label_if(t.len() > 1000, "very-long");
            if let Err(e) = read_literal(&t) {
                if !(e == "refused" && l.int.len() > 32767) {
                    return Err(e);
                }
            }
            Ok(())
        }
        1 => {
            // one value in several spellings
            let n = Num { nan: false, neg: g.prob(300), m: mantissa(g), e: exponent(g) };
            let digits = n.m.to_string();
            g.nontrivial = true;
            g.label("spellings");
            g.print_u64(n.m);
            g.print_u64(n.e as u64);
            let mut seen: Vec<(String, Number)> = Vec::new();
            for _ in 0..4 {
                // move the point by k places
                let k = g.upto(25) as i64 - 5;
                let zeros = g.below(4);
                let mut t = String::from(if n.neg { "-" } else { "" });
                let mut scale = n.e as i64;
                if k <= 0 {
                    t.push_str(&digits);
                } else if (k as usize) < digits.len() {
                    t.push_str(&digits[..digits.len() - k as usize]);
                    t.push('.');
                    t.push_str(&digits[digits.len() - k as usize..]);
                    t.push_str(&"0".repeat(zeros));
                    scale += k;
                } else {
                    t.push_str("0.");
                    t.push_str(&"0".repeat(k as usize - digits.len()));
                    t.push_str(&digits);
                    t.push_str(&"0".repeat(zeros));
                    scale += k;
                }
                if scale != 0 || g.flip() {
                    t.push_str(*g.pick(&["e", "E"]));
                    if scale >= 0 && g.flip() {
                        t.push('+');
                    }
                    if scale < 0 {
                        t.push('-');
                    }
                    t.push_str(&"0".repeat(g.below(3)));
                    t.push_str(&scale.abs().to_string());
                }
                let l = parse_lit(t.as_bytes()).ok_or("harness: spelling")?;
                let r = read_literal(&t)?;
                if l.mantissa().is_some() && l.scale() >= -32768 && l.scale() <= 32767 {
                    seen.push((t, r));
                }
            }
            g.note(|| format!("spellings {:?}", seen));
            for w in seen.windows(2) {
                ensure!(w[0].1 == w[1].1, "{} and {} denote one value but are read as {:?} and {:?}", w[0].0, w[1].0, w[0].1, w[1].1);
            }
            Ok(())
        }
        _ => {
            // zeros in every form
            let mut t = String::from(if g.flip() { "-0" } else { "0" });
            if g.flip() {
                t.push('.');
                let n = 1 + g.size(40000);
                t.push_str(&"0".repeat(n));
            }
            if g.flip() {
                t.push_str(*g.pick(&["e", "E-", "e+"]));
                t.push_str(&g.int(1 << 40).to_string());
            }
            g.print_bytes(t.as_bytes());
            g.note(|| format!("zero {}", t));
            g.nontrivial = t.len() > 1;
            g.label("zero");
            let n = read_literal(&t)?;
            ensure!(n.is_zero() && n == 0, "{} was read as {:?}", clip(&t), n);
            ensure!(n.is_sign_positive() != t.starts_with('-'), "{} lost its sign: {:?}", clip(&t), n);
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C10

fn check_print(n: &Num) -> R {
    let x = number(n);
    ensure!(x.as_parts() == (!n.neg, n.m, n.e), "parts {:?} are read back as {:?}", n, x.as_parts());
    let t = JsonValue::Number(x).dump();
    let l = match parse_lit(t.as_bytes()) {
        Some(l) => l,
        None => fail!("{:?} prints as {:?}, which is not a JSON number", n, clip(&t)),
    };
    let d = l.dec();
    ensure!(d.same(&n.dec()), "{:?} prints as {}, which is {}", n, clip(&t), short_text(&d));
    ensure!(l.neg == n.neg, "{:?} prints as {} with another sign", n, clip(&t));
    let shown = x.to_string();
    ensure!(shown == t, "{:?} displays as {} but dumps as {}", n, clip(&shown), clip(&t));
    let v = match json::parse(&t) {
        Ok(v) => v,
        Err(e) => fail!("{:?} prints as {}, refused with {:?}", n, clip(&t), e),
    };
    let y = num_of(&v)?;
    ensure!(number_dec(&y).same(&n.dec()), "{:?} prints as {}, which parses to {:?}", n, clip(&t), y);
    ensure!(y == x && x == y, "{:?} prints as {}, which parses to an unequal {:?}", n, clip(&t), y);
    ensure!(y.is_sign_positive() == x.is_sign_positive(), "{:?} loses its sign when printed as {} and parsed", n, clip(&t));
    let (p, m, e) = x.as_parts();
    let z = Number::from_parts(p, m, e);
    ensure!(number_dec(&z).same(&n.dec()) && !z.is_nan() && z == x && z.is_sign_positive() == p,
        "from_parts of {:?} gives {:?}", n, z);
    let m = -x;
    ensure!(m.as_parts() == (n.neg, n.m, n.e), "the negation of {:?} is {:?}", x, m);
    Ok(())
}

fn sweep_mantissa(k: u64) -> u64 {
    // for every digit count: a power of ten, all nines, mixed, with zeros inside
    let d = (k / 6) as u32; // 0..20 digits - 1
    let p = 10u64.pow(d);
    match k % 6 {
        0 => p,
        1 => {
            if d == 19 { u64::MAX } else { p * 10 - 1 }
        }
        2 => 1234567890123456789u64 / 10u64.pow(18 - d.min(18)).max(1),
        3 => p + 1,
        4 => p.wrapping_mul(if d == 19 { 1 } else { 7 }),
        _ => 9080706050403020109u64 / 10u64.pow(18 - d.min(18)).max(1),
    }
}

pub fn c10(g: &mut G) -> R {
    match g.weighted(&[85, 10, 5]) {
        0 => {
            let mut n = num(g);
            n.nan = false;
            g.print_u64(n.m);
            g.print_u64((n.e as u64).wrapping_mul(2).wrapping_add(n.neg as u64));
            g.note(|| format!("{:?}", n));
            g.nontrivial = n.m > 9 || n.e != 0;
            g.label(match n.e {
                0 => "integer",
                -17..=-1 => "short-fraction",
                -400..=-18 => "small",
                1..=400 => "large",
                _ => "extreme",
            });
            check_print(&n)
        }
        1 => {
            // every exponent with a cycle of mantissas
            let i = g.upto(65536 * 120 - 1);
            let n = Num { nan: false, neg: i % 7 == 0, m: sweep_mantissa((i / 65536) % 120), e: (i % 65536) as u16 as i16 };
            g.note(|| format!("{:?}", n));
            g.nontrivial = true;
            g.label("enumerated");
            check_print(&n)
        }
        _ => {
            // NaN, and numbers inside documents
            let n = num(g);
            let v = JsonValue::Array(vec![JsonValue::Number(number(&n)), JsonValue::Number(NAN), JsonValue::Number(-number(&n))]);
            let t = v.dump();
            g.print_bytes(t.as_bytes());
            g.note(|| format!("{:?} in {}", n, t));
            g.nontrivial = true;
            g.label("in-document");
            let inner = match t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) {
                Some(x) => x,
                None => fail!("{} is not an array", clip(&t)),
            };
            let parts: Vec<&str> = inner.split(',').collect();
            ensure!(parts.len() == 3 && parts[1] == "null", "{:?}, NaN and its negation print as {}", n, clip(&t));
            if n.nan {
                ensure!(parts[0] == "null" && parts[2] == "null", "NaN prints as {}", clip(&t));
                return Ok(());
            }
            for (i, neg) in [(0, n.neg), (2, !n.neg)] {
                match parse_lit(parts[i].as_bytes()) {
                    Some(l) => {
                        let mut d = n.dec();
                        d.neg = neg;
                        ensure!(l.neg == neg && l.dec().same(&d), "{:?} prints as {}", n, clip(parts[i]));
                    }
                    None => fail!("{:?} prints as {}, which is not a JSON number", n, clip(parts[i])),
                }
            }
            Ok(())
        }
    }
}

pub fn c10_sweeps(quick: bool) -> Vec<Sweep> {
    if quick {
        let mut v = Vec::new();
        for k in 0..120u64 {
            // exponents near zero for every mantissa, the rest in strides
            v.push(sweep(&[1], k * 65536, k * 65536 + 60));
            v.push(sweep(&[1], k * 65536 + 65536 - 60, (k + 1) * 65536));
            v.push(Sweep { prefix: vec![1], lo: k * 65536 + k * 7, hi: (k + 1) * 65536, step: 311 });
        }
        for k in [0u64, 2, 55, 115, 119] {
            v.push(sweep(&[1], k * 65536, (k + 1) * 65536));
        }
        v
    } else {
        vec![sweep(&[1], 0, 65536 * 120)]
    }
}

// ------------------------------------------------------------------ C11

fn check_f64(f: f64) -> R {
    let n = Number::from(f);
    if !f.is_finite() {
        ensure!(n.is_nan(), "{:?} converts to {:?}", f, n);
        ensure!(JsonValue::from(f).dump() == "null", "{:?} prints as {}", f, JsonValue::from(f).dump());
        return Ok(());
    }
    ensure!(!n.is_nan(), "{:?} (bits {:x}) converts to NaN", f, f.to_bits());
    let b = f64::from(n);
    ensure!(b.to_bits() == f.to_bits(), "{:?} (bits {:x}) becomes {:?} and comes back as {:?} (bits {:x})", f, f.to_bits(), n, b, b.to_bits());
    let v = JsonValue::from(f);
    ensure!(v.as_f64().map(f64::to_bits) == Some(f.to_bits()), "{:?} is returned by as_f64 as {:?}", f, v.as_f64());
    let t = v.dump();
    match json::parse(&t) {
        Ok(w) => {
            let b = w.as_f64();
            ensure!(b.map(f64::to_bits) == Some(f.to_bits()), "{:?} prints as {}, which reads as {:?}", f, t, b);
            ensure!(w == f && f == w, "{:?} prints as {}, which is not equal to it", f, t);
        }
        Err(e) => fail!("{:?} prints as {}, refused with {:?}", f, t, e),
    }
    // what is printed denotes a decimal whose nearest double is f
    match t.parse::<f64>() {
        Ok(x) => ensure!(x.to_bits() == f.to_bits(), "{:?} prints as {}, whose nearest double is {:?}", f, t, x),
        Err(_) => fail!("{:?} prints as {}", f, t),
    }
    Ok(())
}

fn check_f32(f: f32) -> R {
    let n = Number::from(f);
    if !f.is_finite() {
        ensure!(n.is_nan(), "{:?} converts to {:?}", f, n);
        ensure!(JsonValue::from(f).dump() == "null", "{:?}f32 prints as {}", f, JsonValue::from(f).dump());
        return Ok(());
    }
    let b = f32::from(n);
    ensure!(b.to_bits() == f.to_bits(), "{:?}f32 becomes {:?} and comes back as {:?}", f, n, b);
    let v = JsonValue::from(f);
    ensure!(v.as_f32().map(f32::to_bits) == Some(f.to_bits()), "{:?}f32 is returned by as_f32 as {:?}", f, v.as_f32());
    let t = v.dump();
    match json::parse(&t) {
        Ok(w) => {
            let b = w.as_f32();
            ensure!(b.map(f32::to_bits) == Some(f.to_bits()), "{:?}f32 prints as {}, which reads as {:?}", f, t, b);
            ensure!(w == f && f == w, "{:?}f32 prints as {}, which is not equal to it", f, t);
        }
        Err(e) => fail!("{:?}f32 prints as {}, refused with {:?}", f, t, e),
    }
    Ok(())
}

fn nearest64(n: &Num) -> f64 {
    let f: f64 = format!("{}e{}", n.m, n.e).parse().unwrap();
    if n.neg { -f } else { f }
}

fn nearest32(n: &Num) -> f32 {
    let f: f32 = format!("{}e{}", n.m, n.e).parse().unwrap();
    if n.neg { -f } else { f }
}

fn check_nearest(n: &Num) -> R {
    let x = number(n);
    let (a, b) = (f64::from(x), nearest64(n));
    ensure!(a.to_bits() == b.to_bits(), "{:?} converts to {:?} instead of the nearest double {:?}", n, a, b);
    let (a, b) = (f32::from(x), nearest32(n));
    ensure!(a.to_bits() == b.to_bits(), "{:?} converts to {:?} instead of the nearest float {:?}", n, a, b);
    let v = JsonValue::Number(x);
    ensure!(v.as_f64().map(f64::to_bits) == Some(nearest64(n).to_bits()), "as_f64 of {:?} is {:?}", n, v.as_f64());
    ensure!(v.as_f32().map(f32::to_bits) == Some(nearest32(n).to_bits()), "as_f32 of {:?} is {:?}", n, v.as_f32());
    Ok(())
}

/// The decimal expansion of the midpoint between two neighbouring floats,
/// cut to what a Number holds: (mantissa, exponent)
fn midpoint(mant: u64, exp2: i32) -> Option<(u64, i16)> {
    // value = (2*mant+1) * 2^(exp2-1), as decimal digits through big arithmetic
    let mut digits: Vec<u32> = vec![]; // little endian base 1e9
    let mut m = 2 * mant + 1;
    while m > 0 {
        digits.push((m % 1_000_000_000) as u32);
        m /= 1_000_000_000;
    }
    let e = exp2 - 1;
    let mut dec_exp = 0i32;
    let mul = |d: &mut Vec<u32>, k: u64| {
        let mut carry = 0u64;
        for x in d.iter_mut() {
            let t = *x as u64 * k + carry;
            *x = (t % 1_000_000_000) as u32;
            carry = t / 1_000_000_000;
        }
        while carry > 0 {
            d.push((carry % 1_000_000_000) as u32);
            carry /= 1_000_000_000;
        }
    };
    if e >= 0 {
        for _ in 0..e / 20 {
            mul(&mut digits, 1 << 20);
        }
        mul(&mut digits, 1 << (e % 20));
    } else {
        // 2^-k = 5^k / 10^k
        for _ in 0..(-e) / 10 {
            mul(&mut digits, 9765625);
        }
        mul(&mut digits, 5u64.pow(((-e) % 10) as u32));
        dec_exp = e;
    }
    let mut s = String::new();
    for (i, d) in digits.iter().rev().enumerate() {
        s.push_str(&if i == 0 { d.to_string() } else { format!("{:09}", d) });
    }
    let t = s.trim_start_matches('0');
    let keep = t.len().min(19);
    let m: u64 = t[..keep].parse().ok()?;
    Some((m, i16::try_from(dec_exp + (t.len() - keep) as i32).ok()?))
}

pub fn c11(g: &mut G) -> R {
    match g.weighted(&[40, 20, 15, 20, 3, 2]) {
        0 => {
            let f = float64(g);
            g.print_u64(f.to_bits());
            g.note(|| format!("{:?}", f));
            g.nontrivial = f != 0.0;
            g.label(if !f.is_finite() { "not-finite" } else if f.is_normal() { "normal" } else { "subnormal-or-zero" });
            check_f64(f)
        }
        1 => {
            let f = float32(g);
            g.print_u64(f.to_bits() as u64);
            g.note(|| format!("{:?}f32", f));
            g.nontrivial = f != 0.0;
            g.label("f32");
            check_f32(f)
        }
        2 => {
            let mut n = num(g);
            n.nan = false;
            g.print_u64(n.m);
            g.print_u64(n.e as u64);
            g.note(|| format!("{:?}", n));
            g.nontrivial = n.m != 0;
            g.label("parts");
            check_nearest(&n)
        }
        3 => {
            // on, just below and just above a rounding boundary
            let f32_too = g.flip();
            let (mant, exp2) = if f32_too {
                let e = g.range(1, 254) as i32;
                ((1 << 23) | g.int((1 << 23) - 1), e - 150)
            } else if g.flip() {
                let e = g.range(1, 2046) as i32;
                ((1 << 52) | g.int((1 << 52) - 1), e - 1075)
            } else {
                // where the midpoint is short
                let e = g.range(1023 - 10, 1023 + 70) as i32;
                ((1 << 52) | (g.int((1 << 12) - 1) << 40), e - 1075)
            };
            let d = g.upto(2) as i64 - 1;
            if let Some((m, e)) = midpoint(mant, exp2) {
                let n = Num { nan: false, neg: g.flip(), m: (m as i64 + d) as u64, e };
                g.print_u64(n.m);
                g.print_u64(n.e as u64);
                g.note(|| format!("near a midpoint {:?}", n));
                g.nontrivial = true;
                g.label("midpoint");
                check_nearest(&n)?;
            }
            Ok(())
        }
        4 => {
            // every binary exponent with edge mantissas
            let i = g.upto(2047 * 64 - 1);
            let (e, k) = (i / 64, i % 64);
            let m: u64 = match k {
                0 => 0,
                1 => 1,
                2 => (1 << 52) - 1,
                3 => (1 << 52) - 2,
                4..=55 => 1 << (k - 4),
                _ => (0x123456789abcdefu64.wrapping_mul(k)) & ((1 << 52) - 1),
            };
            g.nontrivial = true;
            g.label("every-exponent");
            let f = f64::from_bits((e << 52) | m);
            g.note(|| format!("{:?}", f));
            check_f64(f)?;
            check_f64(-f)
        }
        _ => {
            // a block of consecutive f32
            let i = g.upto((1 << 20) - 1);
            g.nontrivial = true;
            g.label("f32-blocks");
            g.note(|| format!("f32 bits {:x}..", i << 12));
            let step = if SMALL.load(Relaxed) { 601 } else if g.flip() { 1 } else { 127 };
            let mut k = 0u64;
            while k < 4096 {
                check_f32(f32::from_bits(((i << 12) | k) as u32))?;
                k += step;
            }
            Ok(())
        }
    }
}

pub fn c11_sweeps(quick: bool) -> Vec<Sweep> {
    if quick {
        vec![sweep(&[4], 0, 2047 * 64), Sweep { prefix: vec![5], lo: 3, hi: 1 << 20, step: 1021 }]
    } else {
        vec![sweep(&[4], 0, 2047 * 64), sweep(&[5], 0, 1 << 20)]
    }
}

// ------------------------------------------------------------------ C12

fn both_ways(a: &Num, b: &Num) -> R {
    let want = a.same(b);
    let (x, y) = (number(a), number(b));
    ensure!((x == y) == want, "{:?} == {:?} is {}", a, b, x == y);
    ensure!((y == x) == want, "{:?} == {:?} is {}", b, a, y == x);
    ensure!((x != y) != want, "{:?} != {:?} is {}", a, b, x != y);
    let (v, w) = (JsonValue::Number(x), JsonValue::Number(y));
    ensure!((v == w) == want && (w == v) == want, "as values, {:?} == {:?} is {} or {}", a, b, v == w, w == v);
    ensure!((v == y) == want && (y == v) == want && (&v == y) == want, "{:?} == {:?} differs between Number and JsonValue", a, b);
    Ok(())
}

macro_rules! against {
    ($n:expr, $x:expr, $i:expr, $t:ty) => {{
        if let Ok(i) = <$t>::try_from($i) {
            let want = !$n.nan && $n.dec().same(&Dec::from_int($i));
            let x = $x;
            let v = JsonValue::Number(x);
            ensure!((x == i) == want, "{:?} == {}{} is {}", $n, i, stringify!($t), x == i);
            ensure!((i == x) == want, "{}{} == {:?} is {}", i, stringify!($t), $n, i == x);
            ensure!((v == i) == want && (i == v) == want && (&v == i) == want,
                "as a value, {:?} == {}{} is {}, {} or {}", $n, i, stringify!($t), v == i, i == v, &v == i);
        }
    }};
}

pub fn c12(g: &mut G) -> R {
    match g.weighted(&[25, 25, 25, 25]) {
        0 => {
            let a = num(g);
            let b = num(g);
            g.note(|| format!("{:?} and {:?}", a, b));
            g.nontrivial = !a.nan && !b.nan;
            g.label("independent");
            g.label_if(a.nan || b.nan, "nan");
            both_ways(&a, &b)?;
            both_ways(&a, &a)
        }
        1 => {
            // the same value split differently, or nearly
            let a = num(g);
            let mut b = a;
            let k = g.upto(22);
            let up = g.flip();
            if !a.nan {
                for _ in 0..k {
                    if up {
                        match b.m.checked_mul(10) {
                            Some(m) if b.e > i16::MIN => {
                                b.m = m;
                                b.e -= 1;
                            }
                            _ => break,
                        }
                    } else if b.m % 10 == 0 && b.e < i16::MAX {
                        b.m /= 10;
                        b.e += 1;
                    }
                }
            }
            match g.weighted(&[50, 10, 10, 10, 10, 10]) {
                1 => b.m = b.m.wrapping_add(1),
                2 => b.m = b.m.wrapping_sub(1),
                3 => b.e = b.e.wrapping_add(1),
                4 => b.neg = !b.neg,
                5 => b.e = exponent(g),
                _ => g.label("same-value"),
            }
            g.note(|| format!("{:?} and {:?}", a, b));
            g.nontrivial = !a.nan;
            both_ways(&a, &b)
        }
        2 => {
            // integers of every type
            let i: i128 = match g.weighted(&[40, 30, 30]) {
                0 => mantissa(g) as i128,
                1 => -(mantissa(g).min(1 << 63) as i128),
                _ => {
                    let b = *g.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
                    let x = (1i128 << b) + g.upto(4) as i128 - 2;
                    if g.flip() { -x } else { x }
                }
            };
            let mut n = match g.weighted(&[50, 30, 20]) {
                0 => Num { nan: false, neg: i < 0, m: i.unsigned_abs() as u64, e: 0 },
                1 => {
                    // the same integer with another exponent, where possible
                    let mut n = Num { nan: false, neg: i < 0, m: i.unsigned_abs() as u64, e: 0 };
                    let k = g.upto(20);
                    for _ in 0..k {
                        if n.m % 10 == 0 && n.m != 0 {
                            n.m /= 10;
                            n.e += 1;
                        } else if let Some(m) = n.m.checked_mul(10) {
                            n.m = m;
                            n.e -= 1;
                        }
                    }
                    n
                }
                _ => num(g),
            };
            if g.prob(100) {
                n.m = n.m.wrapping_add(1);
            }
            if g.prob(100) {
                n.neg = !n.neg;
            }
            g.note(|| format!("{:?} and {}", n, i));
            g.nontrivial = i != 0;
            g.label("integer");
            let x = number(&n);
            against!(n, x, i, i8);
            against!(n, x, i, i16);
            against!(n, x, i, i32);
            against!(n, x, i, i64);
            against!(n, x, i, isize);
            against!(n, x, i, u8);
            against!(n, x, i, u16);
            against!(n, x, i, u32);
            against!(n, x, i, u64);
            against!(n, x, i, usize);
            // wrapped to the narrow types, so that they take part more often
            against!(n, x, i as i8 as i128, i8);
            against!(n, x, i as u8 as i128, u8);
            against!(n, x, i as i16 as i128, i16);
            against!(n, x, i as u16 as i128, u16);
            against!(n, x, i as i32 as i128, i32);
            against!(n, x, i as u32 as i128, u32);
            Ok(())
        }
        _ => {
            // floats
            let f = float64(g);
            let n = match g.weighted(&[40, 40, 20]) {
                0 => Num::of(&Number::from(f)),
                1 => {
                    // digits near the float's own
                    let mut n = Num::of(&Number::from(f));
                    if n.m < 1 << 57 {
                        n.m = n.m * 100 + g.upto(99);
                        n.e -= 2;
                    }
                    n
                }
                _ => num(g),
            };
            let f = if g.prob(200) { f64::from_bits(f.to_bits().wrapping_add(1)) } else { f };
            g.note(|| format!("{:?} and {:?}", n, f));
            if n.nan || f.is_nan() {
                return Ok(());
            }
            g.nontrivial = f != 0.0;
            g.label("float");
            let x = number(&n);
            let v = JsonValue::Number(x);
            let want = nearest64(&n) == f;
            ensure!((x == f) == want && (f == x) == want, "{:?} == {:?} is {} or {}", n, f, x == f, f == x);
            ensure!((v == f) == want && (f == v) == want && (&v == f) == want, "as a value, {:?} == {:?} is {} or {}", n, f, v == f, f == v);
            let h = f as f32;
            let want = nearest32(&n) == h;
            ensure!((x == h) == want && (h == x) == want, "{:?} == {:?}f32 is {} or {}", n, h, x == h, h == x);
            ensure!((v == h) == want && (h == v) == want && (&v == h) == want, "as a value, {:?} == {:?}f32 is {} or {}", n, h, v == h, h == v);
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C13

macro_rules! reads {
    ($v:expr, $n:expr, $want:expr, $must:expr, $( $t:ty, $acc:ident );*) => {$(
        let w: Option<$t> = $want.and_then(|i| <$t>::try_from(i).ok());
        let got = $v.$acc();
        match (w, got) {
            (Some(a), Some(b)) => ensure!(a == b, "{}() of {:?} is {}", stringify!($acc), $n, b),
            (None, Some(b)) => fail!("{}() of {:?} is {}", stringify!($acc), $n, b),
            (Some(_), None) => ensure!(!$must, "{}() of {:?} is None", stringify!($acc), $n),
            (None, None) => {}
        }
        let got = <$t>::try_from($n).ok();
        match (w, got) {
            (Some(a), Some(b)) => ensure!(a == b, "{:?} converts to {} {}", $n, stringify!($t), b),
            (None, Some(b)) => fail!("{:?} converts to {} {}", $n, stringify!($t), b),
            (Some(_), None) => ensure!(!$must, "{:?} does not convert to {}", $n, stringify!($t)),
            (None, None) => {}
        }
    )*};
}

/// Every integer accessor on a number whose value is `want` (None: no integer)
fn check_accessors(x: Number, want: Option<i128>, must: bool) -> R {
    let v = JsonValue::Number(x);
    reads!(v, x, want, must,
        i8, as_i8; i16, as_i16; i32, as_i32; i64, as_i64; isize, as_isize;
        u8, as_u8; u16, as_u16; u32, as_u32; u64, as_u64; usize, as_usize);
    Ok(())
}

macro_rules! integer {
    ($i:expr, $( $t:ty ),*) => {$(
        if let Ok(i) = <$t>::try_from($i) {
            let i: $t = i;
            let n = Number::from(i);
            ensure!(!n.is_nan() && number_dec(&n).int() == Some(i as i128), "{}{} becomes the number {:?}", i, stringify!($t), n);
            ensure!(n.is_sign_positive() == (i as i128 >= 0), "{}{} becomes the number {:?}", i, stringify!($t), n);
            let v = JsonValue::from(i);
            let t = v.dump();
            ensure!(t == i.to_string(), "{}{} prints as {}", i, stringify!($t), t);
            ensure!(v.to_string() == t && n.to_string() == t, "{}{} displays as {} and {}", i, stringify!($t), v, n);
            check_accessors(n, Some(i as i128), true)?;
            ensure!(v == i && i == v && n == i && i == n, "{}{} is not equal to its number {:?}", i, stringify!($t), n);
            match json::parse(&t) {
                Ok(w) => {
                    let m = num_of(&w)?;
                    check_accessors(m, Some(i as i128), true)?;
                    ensure!(w == v, "{} parses to an unequal {:?}", t, m);
                }
                Err(e) => fail!("{}{} prints as {}, refused with {:?}", i, stringify!($t), t, e),
            }
        }
    )*};
}

fn check_int(i: i128) -> R {
    integer!(i, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    Ok(())
}

pub fn c13(g: &mut G) -> R {
    match g.weighted(&[50, 35, 5, 10]) {
        0 => {
            let i: i128 = match g.weighted(&[30, 30, 40]) {
                0 => g.int(u64::MAX) as i128,
                1 => -(g.int(1 << 63) as i128),
                _ => {
                    let b = *g.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64]);
                    let x = (1i128 << b) + g.upto(6) as i128 - 3;
                    if g.flip() { -x } else { x }
                }
            };
            g.print_u64(i as u64);
            g.note(|| format!("{}", i));
            g.nontrivial = i != 0;
            g.label("integer");
            check_int(i)
        }
        1 => {
            // any number: never a different value
            let n = num(g);
            g.print_u64(n.m);
            g.print_u64(n.e as u64);
            g.note(|| format!("{:?}", n));
            g.nontrivial = true;
            let d = n.dec();
            let want = if n.nan { None } else { d.int() };
            g.label(if n.nan { "nan" } else if want.is_some() { "integral" } else { "no-integer" });
            // a number stored without exponent is an integer as any other
            let must = !n.nan && n.e == 0 && !(n.neg && n.m == 0);
            check_accessors(number(&n), want, must)?;
            if !n.nan {
                let t = JsonValue::Number(number(&n)).dump();
                if let Ok(v) = json::parse(&t) {
                    check_accessors(num_of(&v)?, want, must)?;
                }
            }
            Ok(())
        }
        2 => {
            // every 16 bit integer
            let i = g.upto(65535 + 32768) as i128 - 32768;
            g.note(|| format!("{}", i));
            g.nontrivial = true;
            g.label("enumerated");
            check_int(i)
        }
        _ => {
            // not a number
            let sh = Shape { nan: true, exact: false, max_str: 40, big: false };
            let mut m = match g.below(3) {
                0 => leaf(g, &sh),
                1 => container(g, &sh),
                _ => RV::Str(g.upto(300).to_string()),
            };
            if let RV::Num(_) = m {
                m = RV::Bool(true);
            }
            let v = build(g, &m);
            g.note(|| format!("{:?}", m));
            g.nontrivial = true;
            g.label("not-a-number");
            let all = [
                v.as_i8().is_some(), v.as_i16().is_some(), v.as_i32().is_some(), v.as_i64().is_some(), v.as_isize().is_some(),
                v.as_u8().is_some(), v.as_u16().is_some(), v.as_u32().is_some(), v.as_u64().is_some(), v.as_usize().is_some(),
                v.as_f32().is_some(), v.as_f64().is_some(), v.as_number().is_some(),
            ];
            ensure!(!all.contains(&true), "a {} is read as a number: {:?}", m.kind(), all);
            Ok(())
        }
    }
}

pub fn c13_sweeps(_quick: bool) -> Vec<Sweep> {
    vec![sweep(&[2], 0, 65536 + 32768)]
}

// ------------------------------------------------------------------ C14

/// number * 10^p truncated toward zero, as a magnitude, if it is below 2^65
fn shifted(n: &Num, p: u16) -> Option<u128> {
    let e = n.e as i32 + p as i32;
    let mut m = n.m as u128;
    if m == 0 {
        return Some(0);
    }
    if e >= 0 {
        for _ in 0..e {
            m *= 10;
            if m >> 65 != 0 {
                return None;
            }
        }
    } else {
        for _ in 0..-e {
            m /= 10;
            if m == 0 {
                break;
            }
        }
    }
    Some(m)
}

pub fn c14(g: &mut G) -> R {
    if g.prob(50) {
        let sh = Shape { nan: true, exact: false, max_str: 40, big: false };
        let m = if g.flip() { RV::Num(Num { nan: true, neg: false, m: 0, e: 0 }) } else { container(g, &sh) };
        let p = g.int(65535) as u16;
        let v = build(g, &m);
        g.note(|| format!("{:?} at {}", m, p));
        g.nontrivial = true;
        g.label("no-number");
        ensure!(v.as_fixed_point_u64(p).is_none(), "as_fixed_point_u64({}) of {} is {:?}", p, clip(&v.dump()), v.as_fixed_point_u64(p));
        ensure!(v.as_fixed_point_i64(p).is_none(), "as_fixed_point_i64({}) of {} is {:?}", p, clip(&v.dump()), v.as_fixed_point_i64(p));
        if let JsonValue::Number(n) = v {
            ensure!(n.as_fixed_point_u64(p).is_none() && n.as_fixed_point_i64(p).is_none(), "NaN has a fixed point");
            let n = -n;
            ensure!(n.as_fixed_point_u64(p).is_none() && n.as_fixed_point_i64(p).is_none(), "NaN has a fixed point");
        }
        return Ok(());
    }
    let n = match g.weighted(&[50, 30, 20]) {
        0 => Num { nan: false, neg: g.prob(300), m: mantissa(g), e: g.upto(50) as i16 - 30 },
        1 => {
            let mut n = Num::of(&Number::from(g.upto(10_000_000) as f64 / *g.pick(&[1.0, 10.0, 100.0, 1000.0, 7.0])));
            n.neg = g.flip();
            n
        }
        _ => {
            let mut n = num(g);
            n.nan = false;
            n
        }
    };
    let p = match g.weighted(&[40, 40, 20]) {
        0 => g.upto(25) as u16,
        1 => (-(n.e as i32) + g.upto(40) as i32 - 20).clamp(0, 65535) as u16,
        _ => g.int(65535) as u16,
    };
    g.note(|| format!("{:?} at {}", n, p));
    g.nontrivial = n.m != 0;
    let x = number(&n);
    let v = JsonValue::Number(x);
    let (u, i) = (x.as_fixed_point_u64(p), x.as_fixed_point_i64(p));
    ensure!(v.as_fixed_point_u64(p) == u && v.as_fixed_point_i64(p) == i, "fixed points of {:?} differ between Number and JsonValue", n);
    let mag = shifted(&n, p);
    if n.neg && n.m != 0 {
        g.label("negative");
        ensure!(u.is_none(), "as_fixed_point_u64({}) of {:?} is {:?}", p, n, u);
    }
    match mag {
        Some(m) if !n.neg && m <= u64::MAX as u128 => {
            g.label("fits");
            ensure!(u == Some(m as u64), "as_fixed_point_u64({}) of {:?} is {:?} instead of {}", p, n, u, m);
        }
        _ => g.label("does-not-fit"),
    }
    if let Some(m) = mag {
        let want = if n.neg { -(m as i128) } else { m as i128 };
        if let Ok(w) = i64::try_from(want) {
            ensure!(i == Some(w), "as_fixed_point_i64({}) of {:?} is {:?} instead of {}", p, n, i, w);
        }
    }
    // the same value, spelled and parsed
    let t = v.dump();
    if let Ok(w) = json::parse(&t) {
        if let Some(m) = mag {
            if !n.neg && m <= u64::MAX as u128 {
                ensure!(w.as_fixed_point_u64(p) == Some(m as u64), "as_fixed_point_u64({}) of the parsed {} is {:?} instead of {}", p, clip(&t), w.as_fixed_point_u64(p), m);
            }
            let want = if n.neg { -(m as i128) } else { m as i128 };
            if let Ok(x) = i64::try_from(want) {
                ensure!(w.as_fixed_point_i64(p) == Some(x), "as_fixed_point_i64({}) of the parsed {} is {:?} instead of {}", p, clip(&t), w.as_fixed_point_i64(p), x);
            }
        }
    }
    Ok(())
}
