//! Reference models, independent of the crate under test: exact decimals, a
//! value tree, a JSON parser over chars, printers.

use json::number::Number;
use json::JsonValue;

// ------------------------------------------------------------- decimals

/// Exact decimal: digits without leading or trailing zeros, times 10^exp.
/// Zero has no digits and exponent 0.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dec {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
}

impl Dec {
    pub fn new(neg: bool, digits: &[u8], mut exp: i64) -> Dec {
        let mut a = 0;
        while a < digits.len() && digits[a] == 0 {
            a += 1;
        }
        let mut b = digits.len();
        while b > a && digits[b - 1] == 0 {
            b -= 1;
            exp += 1;
        }
        if a == b {
            return Dec { neg, digits: Vec::new(), exp: 0 };
        }
        Dec { neg, digits: digits[a..b].to_vec(), exp }
    }
    pub fn parts(neg: bool, m: u64, e: i64) -> Dec {
        Dec::new(neg, &digits_of(m), e)
    }
    pub fn is_zero(&self) -> bool {
        self.digits.is_empty()
    }
    /// Same value, zero counting as unsigned
    pub fn same(&self, o: &Dec) -> bool {
        if self.is_zero() && o.is_zero() {
            return true;
        }
        self == o
    }
    /// Same magnitude within a relative 10^-18
    pub fn close(&self, o: &Dec) -> bool {
        if self.is_zero() || o.is_zero() {
            return self.is_zero() && o.is_zero();
        }
        // exponent of the leading digit
        let la = self.exp + self.digits.len() as i64;
        let lb = o.exp + o.digits.len() as i64;
        if (la - lb).abs() > 1 {
            return false;
        }
        let lead = la.max(lb);
        // the first 60 digits from the common leading position decide
        let get = |d: &Dec, l: i64| -> Vec<i32> {
            (0..60).map(|i| {
                let k = i - (lead - l);
                if k >= 0 && (k as usize) < d.digits.len() { d.digits[k as usize] as i32 } else { 0 }
            }).collect()
        };
        let (a, b) = (get(self, la), get(o, lb));
        let (big, small) = if a >= b { (&a, &b) } else { (&b, &a) };
        let mut diff = vec![0i32; 60];
        let mut borrow = 0;
        for i in (0..60).rev() {
            let mut d = big[i] - small[i] - borrow;
            borrow = 0;
            if d < 0 {
                d += 10;
                borrow = 1;
            }
            diff[i] = d;
        }
        // diff <= |a| * 1e-18: shift a right by 18
        let bound: Vec<i32> = std::iter::repeat(0).take(18).chain(a.iter().copied()).take(60).collect();
        diff <= bound
    }
    /// The value as an integer if it is one that fits
    pub fn int(&self) -> Option<i128> {
        if self.is_zero() {
            return Some(0);
        }
        if self.exp < 0 || self.digits.len() as i64 + self.exp > 38 {
            return None;
        }
        let mut v: i128 = 0;
        for &d in &self.digits {
            v = v * 10 + d as i128;
        }
        for _ in 0..self.exp {
            v = v.checked_mul(10)?;
        }
        Some(if self.neg { -v } else { v })
    }
    pub fn from_int(v: i128) -> Dec {
        let mut m = v.unsigned_abs();
        let mut d = Vec::new();
        while m > 0 {
            d.push((m % 10) as u8);
            m /= 10;
        }
        d.reverse();
        Dec::new(v < 0, &d, 0)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        if self.is_zero() {
            s.push('0');
            return s;
        }
        for &d in &self.digits {
            s.push((b'0' + d) as char);
        }
        if self.exp != 0 {
            s.push_str(&format!("e{}", self.exp));
        }
        s
    }
}

pub fn digits_of(mut m: u64) -> Vec<u8> {
    let mut d = Vec::new();
    while m > 0 {
        d.push((m % 10) as u8);
        m /= 10;
    }
    d.reverse();
    d
}

/// A number literal by the JSON grammar.
#[derive(Clone, Debug)]
pub struct Lit {
    pub neg: bool,
    pub int: Vec<u8>,
    pub frac: Vec<u8>,
    /// Explicit exponent, saturated far beyond anything that matters
    pub exp: i64,
    pub has_exp: bool,
    pub has_frac: bool,
}

impl Lit {
    pub fn dec(&self) -> Dec {
        let mut d = self.int.clone();
        d.extend_from_slice(&self.frac);
        Dec::new(self.neg, &d, self.exp - self.frac.len() as i64)
    }
    /// The digits as one integer, if it fits in 64 bits
    pub fn mantissa(&self) -> Option<u64> {
        let mut m = 0u64;
        for &d in self.int.iter().chain(&self.frac) {
            m = m.checked_mul(10)?.checked_add(d as u64)?;
        }
        Some(m)
    }
    pub fn scale(&self) -> i64 {
        self.exp - self.frac.len() as i64
    }
}

pub fn parse_lit(t: &[u8]) -> Option<Lit> {
    let mut i = 0;
    let neg = t.first() == Some(&b'-');
    if neg {
        i += 1;
    }
    let dig = |i: usize| i < t.len() && t[i].is_ascii_digit();
    if !dig(i) {
        return None;
    }
    let mut l = Lit { neg, int: vec![], frac: vec![], exp: 0, has_exp: false, has_frac: false };
    if t[i] == b'0' {
        l.int.push(0);
        i += 1;
    } else {
        while dig(i) {
            l.int.push(t[i] - b'0');
            i += 1;
        }
    }
    if i < t.len() && t[i] == b'.' {
        i += 1;
        l.has_frac = true;
        if !dig(i) {
            return None;
        }
        while dig(i) {
            l.frac.push(t[i] - b'0');
            i += 1;
        }
    }
    if i < t.len() && (t[i] == b'e' || t[i] == b'E') {
        i += 1;
        l.has_exp = true;
        let mut eneg = false;
        if i < t.len() && (t[i] == b'+' || t[i] == b'-') {
            eneg = t[i] == b'-';
            i += 1;
        }
        if !dig(i) {
            return None;
        }
        let mut e = 0i64;
        while dig(i) {
            e = (e * 10 + (t[i] - b'0') as i64).min(1 << 40);
            i += 1;
        }
        l.exp = if eneg { -e } else { e };
    }
    if i == t.len() { Some(l) } else { None }
}

pub fn number_dec(n: &Number) -> Dec {
    let (p, m, e) = n.as_parts();
    Dec::parts(!p, m, e as i64)
}

/// Property C09: does `n` stand for the literal as it must?
pub fn lit_ok(l: &Lit, n: &Number) -> Result<(), String> {
    ensure!(!n.is_nan(), "the literal was read as NaN");
    let (p, _, e) = n.as_parts();
    ensure!(p != l.neg, "the sign of the literal was not kept: {:?}", n);
    ensure!(n.is_sign_positive() != l.neg, "is_sign_positive disagrees with the literal: {:?}", n);
    let want = l.dec();
    let got = number_dec(n);
    let scale = l.scale();
    if let Some(m) = l.mantissa() {
        if scale >= i16::MIN as i64 && scale <= i16::MAX as i64 {
            ensure!(want.same(&got), "a literal of value {} was read as {}", want.text(), got.text());
            ensure!(n.is_zero() == (m == 0), "is_zero is wrong for {:?}", n);
            return Ok(());
        }
    }
    if want.is_zero() {
        ensure!(got.is_zero(), "a zero literal was read as {}", got.text());
        return Ok(());
    }
    ensure!(!got.is_zero(), "a literal of value {} was read as zero", want.text());
    // The number can hold about 18 to 20 digits; where do they put the exponent?
    if want.close(&got) {
        return Ok(());
    }
    // otherwise the exponent must not have fitted
    let lead = want.exp + want.digits.len() as i64;
    if e == i16::MAX && lead > i16::MAX as i64 {
        return Ok(());
    }
    if e == i16::MIN && lead - 20 < i16::MIN as i64 {
        return Ok(());
    }
    fail!("a literal of value {} was read as {}", short_text(&want), short_text(&got))
}

pub fn short_text(d: &Dec) -> String {
    let t = d.text();
    if t.len() > 120 {
        format!("{}...{} ({} digits)", &t[..50], &t[t.len() - 30..], d.digits.len())
    } else {
        t
    }
}

// ------------------------------------------------------------ value tree

#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub nan: bool,
    pub neg: bool,
    pub m: u64,
    pub e: i16,
}

impl Num {
    pub fn dec(&self) -> Dec {
        Dec::parts(self.neg, self.m, self.e as i64)
    }
    /// Value equality; zeros equal, NaN equals NaN
    pub fn same(&self, o: &Num) -> bool {
        if self.nan || o.nan {
            return self.nan && o.nan;
        }
        if self.m == 0 || o.m == 0 {
            return self.m == 0 && o.m == 0;
        }
        let norm = |n: &Num| {
            let (mut m, mut e) = (n.m, n.e as i32);
            while m % 10 == 0 {
                m /= 10;
                e += 1;
            }
            (n.neg, m, e)
        };
        norm(self) == norm(o)
    }
    pub fn of(n: &Number) -> Num {
        let (p, m, e) = n.as_parts();
        if n.is_nan() {
            Num { nan: true, neg: false, m: 0, e: 0 }
        } else {
            Num { nan: false, neg: !p, m, e }
        }
    }
    pub fn int(v: i128) -> Num {
        Num { nan: false, neg: v < 0, m: v.unsigned_abs() as u64, e: 0 }
    }
    pub fn is_zero(&self) -> bool {
        !self.nan && self.m == 0
    }
}

#[derive(Clone, Debug)]
pub enum RV {
    Null,
    Bool(bool),
    Num(Num),
    Lit(String),
    Str(String),
    Arr(Vec<RV>),
    Obj(Vec<(String, RV)>),
}

impl RV {
    pub fn kind(&self) -> &'static str {
        match self {
            RV::Null => "null",
            RV::Bool(_) => "boolean",
            RV::Num(_) | RV::Lit(_) => "number",
            RV::Str(_) => "string",
            RV::Arr(_) => "array",
            RV::Obj(_) => "object",
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            RV::Arr(a) => 1 + a.iter().map(|x| x.nodes()).sum::<usize>(),
            RV::Obj(o) => 1 + o.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn has_nan(&self) -> bool {
        match self {
            RV::Num(n) => n.nan,
            RV::Arr(a) => a.iter().any(|x| x.has_nan()),
            RV::Obj(o) => o.iter().any(|x| x.1.has_nan()),
            _ => false,
        }
    }
    /// NaN written as null
    pub fn nan_to_null(&self) -> RV {
        match self {
            RV::Num(n) if n.nan => RV::Null,
            RV::Arr(a) => RV::Arr(a.iter().map(|x| x.nan_to_null()).collect()),
            RV::Obj(o) => RV::Obj(o.iter().map(|x| (x.0.clone(), x.1.nan_to_null())).collect()),
            x => x.clone(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            RV::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            RV::Obj(o) => 1 + o.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub fn obj_set(o: &mut Vec<(String, RV)>, k: &str, v: RV) {
    match o.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 = v,
        None => o.push((k.to_string(), v)),
    }
}

pub fn obj_get<'a>(o: &'a [(String, RV)], k: &str) -> Option<&'a RV> {
    o.iter().find(|x| x.0 == k).map(|x| &x.1)
}

/// Property C17: structural equality
pub fn rv_eq(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Null, RV::Null) => true,
        (RV::Bool(a), RV::Bool(b)) => a == b,
        (RV::Num(a), RV::Num(b)) => a.same(b),
        (RV::Str(a), RV::Str(b)) => a == b,
        (RV::Arr(a), RV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| rv_eq(a, b)),
        (RV::Obj(a), RV::Obj(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| obj_get(b, k).map_or(false, |w| rv_eq(v, w)))
        }
        _ => false,
    }
}

/// Does the value hold exactly what the model says, by every way of looking?
pub fn check(v: &JsonValue, m: &RV) -> Result<(), String> {
    check_at(v, m, true)
}

/// As `check`, without looking every member up by key
pub fn check_fast(v: &JsonValue, m: &RV) -> Result<(), String> {
    check_at(v, m, false)
}

fn check_at(v: &JsonValue, m: &RV, lookup: bool) -> Result<(), String> {
    match (v, m) {
        (JsonValue::Null, RV::Null) => Ok(()),
        (JsonValue::Boolean(a), RV::Bool(b)) => {
            ensure!(a == b, "boolean is {} instead of {}", a, b);
            Ok(())
        }
        (JsonValue::Short(s), RV::Str(t)) => {
            ensure!(s.as_str() == t, "string is {:?} instead of {:?}", s.as_str(), t);
            Ok(())
        }
        (JsonValue::String(s), RV::Str(t)) => {
            ensure!(s == t, "string is {:?} instead of {:?}", s, t);
            Ok(())
        }
        (JsonValue::Number(n), RV::Num(x)) => {
            let got = Num::of(n);
            ensure!(got.same(x) && (x.nan || got.neg == x.neg), "number is {:?} instead of {:?}", n, x);
            Ok(())
        }
        (JsonValue::Number(n), RV::Lit(t)) => match parse_lit(t.as_bytes()) {
            Some(l) => lit_ok(&l, n),
            None => Err(format!("harness: bad literal {:?}", t)),
        },
        (JsonValue::Array(a), RV::Arr(b)) => {
            ensure!(a.len() == b.len(), "array has {} items instead of {}", a.len(), b.len());
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                check_at(x, y, lookup).map_err(|e| format!("[{}]: {}", i, e))?;
            }
            Ok(())
        }
        (JsonValue::Object(o), RV::Obj(p)) => check_object(o, p, lookup),
        _ => Err(format!("value is {} instead of {}", describe(v), m.kind())),
    }
}

pub fn check_object(o: &json::object::Object, p: &[(String, RV)], lookup: bool) -> Result<(), String> {
    ensure!(o.len() == p.len(), "object has {} members instead of {}", o.len(), p.len());
    ensure!(o.is_empty() == p.is_empty(), "is_empty is {} with {} members", o.is_empty(), p.len());
    let mut it = o.iter();
    for (i, (k, y)) in p.iter().enumerate() {
        match it.next() {
            None => fail!("iteration ends after {} of {} members", i, p.len()),
            Some((kk, x)) => {
                ensure!(kk == k, "member {} has key {:?} instead of {:?}", i, kk, k);
                check_at(x, y, lookup).map_err(|e| format!("[{:?}]: {}", k, e))?;
                if lookup {
                    match o.get(k) {
                        None => fail!("lookup of the present key {:?} finds nothing", k),
                        Some(z) => ensure!(std::ptr::eq(x, z), "lookup of {:?} finds another member", k),
                    }
                }
            }
        }
    }
    ensure!(it.next().is_none(), "iteration goes on after {} members", p.len());
    Ok(())
}

pub fn describe(v: &JsonValue) -> &'static str {
    match v {
        JsonValue::Null => "null",
        JsonValue::Short(_) => "short string",
        JsonValue::String(_) => "string",
        JsonValue::Number(_) => "number",
        JsonValue::Boolean(_) => "boolean",
        JsonValue::Object(_) => "object",
        JsonValue::Array(_) => "array",
    }
}

/// The model of an existing value (used for values that come from outside the
/// model, such as parsed numbers).
pub fn rv_of(v: &JsonValue) -> RV {
    match v {
        JsonValue::Null => RV::Null,
        JsonValue::Short(s) => RV::Str(s.as_str().to_string()),
        JsonValue::String(s) => RV::Str(s.clone()),
        JsonValue::Number(n) => RV::Num(Num::of(n)),
        JsonValue::Boolean(b) => RV::Bool(*b),
        JsonValue::Array(a) => RV::Arr(a.iter().map(rv_of).collect()),
        JsonValue::Object(o) => RV::Obj(o.iter().map(|(k, v)| (k.to_string(), rv_of(v))).collect()),
    }
}

// -------------------------------------------------------- reference parser

#[derive(Clone, Debug)]
pub enum Refusal {
    /// Index (in chars) of the first offending character
    Char(usize),
    /// The text is a proper prefix of acceptable documents
    End,
    /// Something is wrong with a surrogate escape around here; the exact
    /// error is not specified
    Surrogate,
    /// More than 512 non-empty containers are open
    Depth,
}

pub struct RefParse {
    pub result: Result<RV, Refusal>,
    /// Most containers that were open at once (counting one just opened)
    pub max_open: usize,
}

struct P<'a> {
    t: &'a [char],
    i: usize,
    max_open: usize,
}

pub const DEPTH: usize = 512;

fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\x0b' | '\x0c' | '\r' | ' ')
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }
    fn bad<T>(&self) -> Result<T, Refusal> {
        Err(if self.i >= self.t.len() { Refusal::End } else { Refusal::Char(self.i) })
    }
    fn ws(&mut self) {
        while self.peek().map_or(false, is_ws) {
            self.i += 1;
        }
    }
    fn word(&mut self, w: &str, v: RV) -> Result<RV, Refusal> {
        for c in w.chars() {
            if self.peek() != Some(c) {
                return self.bad();
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn number(&mut self) -> Result<RV, Refusal> {
        let start = self.i;
        let dig = |s: &Self| s.peek().map_or(false, |c| c.is_ascii_digit());
        if self.peek() == Some('-') {
            self.i += 1;
        }
        if !dig(self) {
            return self.bad();
        }
        if self.peek() == Some('0') {
            self.i += 1;
        } else {
            while dig(self) {
                self.i += 1;
            }
        }
        if self.peek() == Some('.') {
            self.i += 1;
            if !dig(self) {
                return self.bad();
            }
            while dig(self) {
                self.i += 1;
            }
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            if !dig(self) {
                return self.bad();
            }
            while dig(self) {
                self.i += 1;
            }
        }
        Ok(RV::Lit(self.t[start..self.i].iter().collect()))
    }
    fn hex4(&mut self) -> Result<u32, Refusal> {
        let mut v = 0;
        for _ in 0..4 {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => v = v * 16 + d,
                None => return self.bad(),
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, Refusal> {
        if self.peek() != Some('"') {
            return self.bad();
        }
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.peek() {
                None => return Err(Refusal::End),
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some(c) if (c as u32) < 0x20 => return self.bad(),
                Some('\\') => {
                    self.i += 1;
                    let c = match self.peek() {
                        None => return Err(Refusal::End),
                        Some(c) => c,
                    };
                    match c {
                        '"' | '\\' | '/' => s.push(c),
                        'b' => s.push('\x08'),
                        'f' => s.push('\x0c'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            self.i += 1;
                            let hi = self.hex4()?;
                            if (0xd800..0xe000).contains(&hi) {
                                // anything but a complete pair is refused
                                let ok = hi < 0xdc00 && self.peek() == Some('\\')
                                    && self.t.get(self.i + 1) == Some(&'u');
                                if !ok {
                                    return Err(Refusal::Surrogate);
                                }
                                self.i += 2;
                                let lo = self.hex4().map_err(|_| Refusal::Surrogate)?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return Err(Refusal::Surrogate);
                                }
                                s.push(char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)).unwrap());
                            } else {
                                s.push(char::from_u32(hi).unwrap());
                            }
                            continue;
                        }
                        _ => return self.bad(),
                    }
                    self.i += 1;
                }
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn document(&mut self) -> Result<RV, Refusal> {
        // explicit stack: (container, pending key)
        let mut stack: Vec<(RV, String)> = Vec::new();
        self.ws();
        'value: loop {
            let mut v = match self.peek() {
                None => return Err(Refusal::End),
                Some(c @ ('[' | '{')) => {
                    self.i += 1;
                    self.max_open = self.max_open.max(stack.len() + 1);
                    self.ws();
                    let (close, empty) = if c == '[' { (']', RV::Arr(vec![])) } else { ('}', RV::Obj(vec![])) };
                    if self.peek() == Some(close) {
                        self.i += 1;
                        empty
                    } else {
                        if stack.len() == DEPTH {
                            return Err(if self.peek().is_none() { Refusal::End } else { Refusal::Depth });
                        }
                        let mut key = String::new();
                        if c == '{' {
                            key = self.string()?;
                            self.ws();
                            if self.peek() != Some(':') {
                                return self.bad();
                            }
                            self.i += 1;
                            self.ws();
                        }
                        stack.push((empty, key));
                        continue 'value;
                    }
                }
                Some('"') => RV::Str(self.string()?),
                Some('t') => self.word("true", RV::Bool(true))?,
                Some('f') => self.word("false", RV::Bool(false))?,
                Some('n') => self.word("null", RV::Null)?,
                Some('-' | '0'..='9') => self.number()?,
                Some(_) => return self.bad(),
            };
            loop {
                self.ws();
                match stack.last_mut() {
                    None => {
                        if self.i < self.t.len() {
                            return self.bad();
                        }
                        return Ok(v);
                    }
                    Some((RV::Arr(a), _)) => {
                        a.push(v);
                        match self.peek() {
                            Some(',') => {
                                self.i += 1;
                                self.ws();
                                continue 'value;
                            }
                            Some(']') => self.i += 1,
                            _ => return self.bad(),
                        }
                    }
                    Some((RV::Obj(o), key)) => {
                        let k = std::mem::take(key);
                        obj_set(o, &k, v);
                        match self.peek() {
                            Some(',') => {
                                self.i += 1;
                                self.ws();
                                *key = {
                                    let k = self.string()?;
                                    self.ws();
                                    if self.peek() != Some(':') {
                                        return self.bad();
                                    }
                                    self.i += 1;
                                    self.ws();
                                    k
                                };
                                continue 'value;
                            }
                            Some('}') => self.i += 1,
                            _ => return self.bad(),
                        }
                    }
                    _ => unreachable!(),
                }
                v = stack.pop().unwrap().0;
            }
        }
    }
}

pub fn ref_parse(text: &str) -> RefParse {
    let t: Vec<char> = text.chars().collect();
    ref_parse_chars(&t)
}

pub fn ref_parse_chars(t: &[char]) -> RefParse {
    let mut p = P { t, i: 0, max_open: 0 };
    let result = p.document();
    RefParse { result, max_open: p.max_open }
}

/// Line and column (1-based, in characters) of the char at this index
pub fn position(t: &[char], at: usize) -> (usize, usize) {
    let line = 1 + t[..at].iter().filter(|&&c| c == '\n').count();
    let col = 1 + t[..at].iter().rev().take_while(|&&c| c != '\n').count();
    (line, col)
}

// -------------------------------------------------------------- printers

pub fn escape(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\x08' => o.push_str("\\b"),
            '\x0c' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The text a single number prints as; its form is C10's business
pub fn num_text(n: &Num) -> String {
    if n.nan {
        "null".into()
    } else {
        JsonValue::Number(number(n)).dump()
    }
}

pub fn number(n: &Num) -> Number {
    if n.nan {
        json::number::NAN
    } else {
        unsafe { Number::from_parts_unchecked(!n.neg, n.m, n.e) }
    }
}

pub fn compact(v: &RV, o: &mut String) {
    match v {
        RV::Null => o.push_str("null"),
        RV::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        RV::Num(n) => o.push_str(&num_text(n)),
        RV::Lit(t) => o.push_str(t),
        RV::Str(s) => o.push_str(&escape(s)),
        RV::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                compact(x, o);
            }
            o.push(']');
        }
        RV::Obj(a) => {
            o.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(&escape(k));
                o.push(':');
                compact(x, o);
            }
            o.push('}');
        }
    }
}

pub fn compact_text(v: &RV) -> String {
    let mut s = String::new();
    compact(v, &mut s);
    s
}

pub fn pretty(v: &RV, n: usize, level: usize, o: &mut String) {
    let nl = |l: usize, o: &mut String| {
        o.push('\n');
        for _ in 0..l * n {
            o.push(' ');
        }
    };
    match v {
        RV::Arr(a) if !a.is_empty() => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                nl(level + 1, o);
                pretty(x, n, level + 1, o);
            }
            nl(level, o);
            o.push(']');
        }
        RV::Obj(a) if !a.is_empty() => {
            o.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                nl(level + 1, o);
                o.push_str(&escape(k));
                o.push_str(": ");
                pretty(x, n, level + 1, o);
            }
            nl(level, o);
            o.push('}');
        }
        v => compact(v, o),
    }
}

pub fn pretty_text(v: &RV, n: usize) -> String {
    let mut s = String::new();
    pretty(v, n, 0, &mut s);
    s
}
