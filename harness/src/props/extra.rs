//! C27 custom generators, C28 formatting, C29 number signs, C30 deep values,
//! C31 cost of operations.

use std::collections::BTreeMap;
use std::fmt::{self, Write as FmtWrite};
use std::io::{self, Write};

use json::codegen::Generator;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::{Error, JsonValue};

use crate::cov;
use crate::engine::{G, R};
use crate::gen::*;
use crate::model::*;
use crate::props::memory::{measured, within, Cost, FREE};
use crate::props::text::clip;
use crate::{ensure, fail};

// ------------------------------------------------------------------ C27

struct Sink {
    out: Vec<u8>,
    ticks: usize,
    fail_at: usize,
    failed: bool,
    late: usize,
}

impl Sink {
    fn tick(&mut self) -> io::Result<()> {
        if self.failed {
            self.late += 1;
        }
        self.ticks += 1;
        if self.failed || self.ticks > self.fail_at {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "the hook refused"));
        }
        Ok(())
    }
    fn put(&mut self, b: &[u8]) -> io::Result<()> {
        self.tick()?;
        self.out.extend_from_slice(b);
        Ok(())
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.put(b)?;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Hooks {
    sink: Sink,
    level: i64,
    low: i64,
    width: usize,
    bits: u64,
}

impl Hooks {
    fn new(width: usize, bits: u64, fail_at: usize) -> Hooks {
        Hooks { sink: Sink { out: Vec::new(), ticks: 0, fail_at, failed: false, late: 0 }, level: 0, low: 0, width, bits }
    }
}

fn hex(s: &str) -> String {
    let mut o = String::from("<");
    for c in s.chars() {
        let _ = write!(o, "{:x}.", c as u32);
    }
    o.push('>');
    o
}

macro_rules! generator {
    ($name:ident { $($extra:item)* }) => {
        struct $name(Hooks);
        impl Generator for $name {
            type T = Sink;
            fn get_writer(&mut self) -> &mut Sink {
                &mut self.0.sink
            }
            fn write(&mut self, slice: &[u8]) -> io::Result<()> {
                self.0.sink.put(slice)
            }
            fn write_char(&mut self, ch: u8) -> io::Result<()> {
                self.0.sink.put(&[ch])
            }
            // the separator a member gets is this generator's choice
            fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
                self.0.bits = self.0.bits.rotate_left(1);
                if self.0.bits & 1 == 1 {
                    self.0.sink.put(slice)
                } else {
                    self.0.sink.put(&[min])
                }
            }
            fn new_line(&mut self) -> io::Result<()> {
                let n = self.0.level.max(0) as usize * self.0.width;
                let mut line = vec![b' '; n + 1];
                line[0] = b'\n';
                self.0.sink.put(&line)
            }
            fn indent(&mut self) {
                self.0.level += 1;
            }
            fn dedent(&mut self) {
                self.0.level -= 1;
                self.0.low = self.0.low.min(self.0.level);
            }
            $($extra)*
        }
    };
}

generator!(Plain {});
generator!(Coded {
    fn write_string(&mut self, s: &str) -> io::Result<()> {
        self.0.sink.put(hex(s).as_bytes())
    }
    fn write_number(&mut self, n: &Number) -> io::Result<()> {
        let n = Num::of(n);
        self.0.sink.put(num_code(&n).as_bytes())
    }
});
generator!(Own {
    fn write_json(&mut self, v: &JsonValue) -> io::Result<()> {
        match *v {
            JsonValue::Null => self.write(b"nil"),
            JsonValue::Boolean(b) => self.write(if b { b"yes" } else { b"no" }),
            JsonValue::Short(ref s) => self.write_string(s.as_str()),
            JsonValue::String(ref s) => self.write_string(s),
            JsonValue::Number(ref n) => self.write_number(n),
            JsonValue::Object(ref o) => self.write_object(o),
            JsonValue::Array(ref a) => {
                self.write_char(b'(')?;
                for x in a {
                    self.write_json(x)?;
                    self.write_char(b' ')?;
                }
                self.write_char(b')')
            }
        }
    }
});
generator!(Members {
    fn write_object(&mut self, o: &Object) -> io::Result<()> {
        self.write_char(b'|')?;
        for (k, v) in o.iter() {
            self.write_string(k)?;
            self.write_char(b'=')?;
            self.write_json(v)?;
        }
        self.write_char(b'|')
    }
});

fn num_code(n: &Num) -> String {
    if n.nan {
        "#nan".into()
    } else {
        format!("#{}{}^{}", if n.neg { '-' } else { '+' }, n.m, n.e)
    }
}

/// What a generator of the kind must have written
struct Render {
    kind: usize,
    width: usize,
    bits: u64,
    o: String,
}

impl Render {
    fn line(&mut self, level: usize) {
        self.o.push('\n');
        for _ in 0..level * self.width {
            self.o.push(' ');
        }
    }
    fn string(&mut self, s: &str) {
        let t = if self.kind == 1 { hex(s) } else { escape(s) };
        self.o.push_str(&t);
    }
    fn value(&mut self, m: &RV, level: usize) {
        match m {
            RV::Null => self.o.push_str(if self.kind == 2 { "nil" } else { "null" }),
            RV::Bool(b) => self.o.push_str(match (self.kind == 2, b) {
                (true, true) => "yes",
                (true, false) => "no",
                (false, true) => "true",
                (false, false) => "false",
            }),
            RV::Str(s) => self.string(s),
            RV::Num(n) => {
                let t = if self.kind == 1 { num_code(n) } else { num_text(n) };
                self.o.push_str(&t);
            }
            RV::Lit(t) => self.o.push_str(t),
            RV::Arr(a) if self.kind == 2 => {
                self.o.push('(');
                for x in a {
                    self.value(x, level);
                    self.o.push(' ');
                }
                self.o.push(')');
            }
            RV::Obj(o) if self.kind == 3 => {
                self.o.push('|');
                for (k, x) in o {
                    self.string(k);
                    self.o.push('=');
                    self.value(x, level);
                }
                self.o.push('|');
            }
            RV::Arr(a) => {
                self.o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.o.push(',');
                    }
                    self.line(level + 1);
                    self.value(x, level + 1);
                }
                if !a.is_empty() {
                    self.line(level);
                }
                self.o.push(']');
            }
            RV::Obj(a) => {
                self.o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        self.o.push(',');
                    }
                    self.line(level + 1);
                    self.string(k);
                    self.bits = self.bits.rotate_left(1);
                    self.o.push_str(if self.bits & 1 == 1 { ": " } else { ":" });
                    self.value(x, level + 1);
                }
                if !a.is_empty() {
                    self.line(level);
                }
                self.o.push('}');
            }
        }
    }
}

fn generate(kind: usize, h: Hooks, v: &JsonValue) -> (io::Result<()>, Hooks) {
    macro_rules! go {
        ($t:ident) => {{
            let mut x = $t(h);
            let r = match v {
                // either entry point
                JsonValue::Object(o) if x.0.bits & 4 == 4 => x.write_object(o),
                _ => x.write_json(v),
            };
            (r, x.0)
        }};
    }
    match kind {
        0 => go!(Plain),
        1 => go!(Coded),
        2 => go!(Own),
        _ => go!(Members),
    }
}

pub fn c27(g: &mut G) -> R {
    let m = value(g, &PLAIN);
    let kind = g.below(4);
    let width = g.below(4);
    let bits = g.upto(u64::MAX);
    let v = build(g, &m);
    g.print_bytes(compact_text(&m).as_bytes());
    g.print_u64(bits ^ kind as u64);
    g.nontrivial = m.nodes() > 1;
    let name = ["a generator with its own layout", "a generator with its own strings and numbers", "a generator with its own write_json", "a generator with its own write_object"][kind];
    g.label(["layout", "strings-numbers", "write_json", "write_object"][kind]);
    g.note(|| format!("{} (indent {}, separators {:x}) over {}", name, width, bits, clip(&compact_text(&m))));
    let mut r = Render { kind, width, bits, o: String::new() };
    r.value(&m, 0);
    let (res, h) = generate(kind, Hooks::new(width, bits, usize::MAX), &v);
    ensure!(res.is_ok(), "{} failed though no hook did: {:?}", name, res);
    ensure!(h.sink.out == r.o.as_bytes(), "{} received {:?} instead of {:?}", name, clip(&String::from_utf8_lossy(&h.sink.out)), clip(&r.o));
    ensure!(h.level == 0 && h.low >= 0, "{}: indent and dedent are not balanced (level {} at the end, {} at the lowest)", name, h.level, h.low);
    // a hook that fails
    let total = h.sink.ticks;
    for i in 0..3 {
        let at = match i {
            0 => g.upto(total as u64 - 1) as usize,
            1 => total - 1,
            _ => total / 2,
        };
        let (res, h) = generate(kind, Hooks::new(width, bits, at), &v);
        match res {
            Ok(()) => fail!("{} returned Ok though hook call {} of {} failed", name, at + 1, total),
            Err(e) => ensure!(e.kind() == io::ErrorKind::Other && e.to_string() == "the hook refused", "{} returned {:?} instead of the hook's error", name, e),
        }
        ensure!(h.sink.late == 0, "{} went on after hook call {} of {} failed", name, at + 1, total);
        ensure!(r.o.as_bytes().starts_with(&h.sink.out), "{} received {:?} before the failure, not the beginning of {:?}", name, clip(&String::from_utf8_lossy(&h.sink.out)), clip(&r.o));
    }
    check(&v, &m).map_err(|e| format!("the value changed by being generated: {}", e))
}

// ------------------------------------------------------------------ C28

/// Takes only so many bytes, then fails; a failed one takes nothing
struct Cut {
    got: String,
    room: usize,
    failed: bool,
}

impl fmt::Write for Cut {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed || s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// `f` writes `text`, or fails when the sink does
fn formats(g: &mut G, what: &str, text: &str, f: &dyn Fn(&mut Cut) -> fmt::Result) -> R {
    let mut c = Cut { got: String::new(), room: usize::MAX, failed: false };
    ensure!(f(&mut c).is_ok(), "{} failed into a sink that takes everything", what);
    ensure!(c.got == text, "{} gives {:?} instead of {:?}", what, clip(&c.got), clip(text));
    if text.is_empty() {
        return Ok(());
    }
    for room in [g.upto(text.len() as u64 - 1) as usize, text.len() - 1, 0] {
        let mut c = Cut { got: String::new(), room, failed: false };
        let r = f(&mut c);
        ensure!(r.is_err(), "{} reports success though the sink failed after {} of {} bytes", what, c.got.len(), text.len());
        ensure!(text.starts_with(&c.got), "{} wrote {:?} into a failing sink", what, clip(&c.got));
    }
    Ok(())
}

pub fn display_text(m: &RV) -> String {
    match m {
        RV::Str(s) => s.clone(),
        RV::Num(n) if n.nan => "nan".into(),
        m => compact_text(m),
    }
}

/// Every key and string, in order
fn strings_of(m: &RV, out: &mut Vec<String>) {
    match m {
        RV::Str(s) => out.push(format!("{:?}", s)),
        RV::Arr(a) => a.iter().for_each(|x| strings_of(x, out)),
        RV::Obj(o) => {
            for (k, x) in o {
                out.push(format!("{:?}", k));
                strings_of(x, out);
            }
        }
        _ => {}
    }
}

fn debug_shows(what: &str, text: &str, m: &RV) -> R {
    let mut all = Vec::new();
    strings_of(m, &mut all);
    let mut rest = text;
    for s in all {
        match rest.find(&s) {
            Some(i) => rest = &rest[i + s.len()..],
            None => fail!("{} does not show {}: {}", what, clip(&s), clip(text)),
        }
    }
    Ok(())
}

fn error_text(g: &mut G, e: &Error) -> R {
    let t = e.to_string();
    let inner: &dyn std::error::Error = e;
    ensure!(inner.to_string() == t, "a boxed error reads differently");
    ensure!(!t.is_empty(), "an error reads as nothing");
    match e {
        Error::UnexpectedCharacter { ch, line, column } => {
            ensure!(t.contains(*ch), "the message {:?} does not show the character {:?}", t, ch);
            ensure!(t.contains(&format!("({}:{})", line, column)), "the message {:?} does not show line {} and column {}", t, line, column);
        }
        Error::WrongType(s) => ensure!(t.contains(&s[..]), "the message {:?} does not show the expected type {:?}", t, s),
        _ => {}
    }
    let others = [Error::UnexpectedEndOfJson, Error::ExceededDepthLimit, Error::FailedUtf8Parsing, Error::WrongType("x".into()), Error::UnexpectedCharacter { ch: 'x', line: 1, column: 1 }];
    for o in &others {
        let same_kind = std::mem::discriminant(o) == std::mem::discriminant(e);
        ensure!(same_kind || o.to_string() != t, "{:?} and {:?} read the same: {:?}", o, e, t);
        ensure!(same_kind || (o != e && e != o), "{:?} equals {:?}", o, e);
        #[allow(deprecated)]
        let (d, f) = (std::error::Error::description(inner), std::error::Error::description(o));
        ensure!(!d.is_empty() && (d == f) == same_kind, "the short descriptions of {:?} and {:?} are {:?} and {:?}", e, o, d, f);
    }
    ensure!(e == e, "{:?} is not equal to itself", e);
    formats(g, "Display of an error", &t, &|c| write!(c, "{}", e))?;
    let d = format!("{:?}", e);
    formats(g, "Debug of an error", &d, &|c| write!(c, "{:?}", e))
}

pub fn c28(g: &mut G) -> R {
    match g.weighted(&[55, 15, 30]) {
        0 => {
            let m = if g.flip() { value(g, &PLAIN) } else { leaf(g, &PLAIN) };
            let v = build(g, &m);
            g.label("values");
            g.print_bytes(compact_text(&m).as_bytes());
            g.note(|| format!("value {} ({})", clip(&compact_text(&m)), describe(&v)));
            g.nontrivial = m.nodes() > 1 || matches!(m, RV::Str(_) | RV::Num(_));
            let t = display_text(&m);
            formats(g, "Display", &t, &|c| write!(c, "{}", v))?;
            formats(g, "alternate Display", &pretty_text(&m, 4), &|c| write!(c, "{:#}", v))?;
            ensure!(v.to_string() == t, "to_string gives {:?} instead of {:?}", clip(&v.to_string()), clip(&t));
            // inside other text
            ensure!(format!("a{}b{}c", v, v) == format!("a{}b{}c", t, t), "Display among other text differs");
            let d = format!("{:?}", v);
            debug_shows("Debug", &d, &m)?;
            formats(g, "Debug", &d, &|c| write!(c, "{:?}", v))?;
            if m.nodes() < 30 && m.depth() < 10 {
                let d = format!("{:#?}", v);
                debug_shows("alternate Debug", &d, &m)?;
                formats(g, "alternate Debug", &d, &|c| write!(c, "{:#?}", v))?;
            }
            if let JsonValue::Object(o) = &v {
                debug_shows("Debug of the object", &format!("{:?}", o), &m)?;
            }
            // a field width applies to text as it does to any Rust string,
            // whichever way it is stored
            let (w, p) = (g.size(60), g.size(60));
            match &m {
                RV::Str(s) => {
                    g.label("padded");
                    let got = [format!("{:w$}", v), format!("{:>w$}", v), format!("{:*^w$}", v), format!("{:.p$}", v), format!("{:-<w$.p$}", v)];
                    let want = [format!("{:w$}", s), format!("{:>w$}", s), format!("{:*^w$}", s), format!("{:.p$}", s), format!("{:-<w$.p$}", s)];
                    for (a, b) in got.iter().zip(&want) {
                        ensure!(a == b, "a string formatted with width {} and precision {} gives {:?} instead of {:?}", w, p, clip(a), clip(b));
                    }
                    if s.len() <= json::short::MAX_LEN {
                        let x = unsafe { Short::from_slice(s) };
                        formats(g, "Display of Short", s, &|c| write!(c, "{}", x))?;
                        formats(g, "Debug of Short", &format!("{:?}", s), &|c| write!(c, "{:?}", x))?;
                        ensure!(format!("{:*^w$}", x) == want[2], "Short formatted with width {} gives {:?}", w, format!("{:*^w$}", x));
                    }
                }
                RV::Num(n) => {
                    let x = number(n);
                    formats(g, "Display of a number", &t, &|c| write!(c, "{}", x))?;
                    let d = format!("{:?}", x);
                    formats(g, "Debug of a number", &d, &|c| write!(c, "{:?}", x))?;
                }
                _ => ensure!(format!("{:w$}", v).trim() == t.trim(), "formatted with width {} it reads {:?}", w, clip(&format!("{:w$}", v))),
            }
            Ok(())
        }
        1 => {
            g.label("error values");
            let e = match g.weighted(&[30, 40, 10, 10, 10]) {
                0 => {
                    let s = string(g, 60);
                    let e = Error::wrong_type(&s);
                    ensure!(e == Error::WrongType(s.clone()) && Error::WrongType(format!("{}+", s)) != e, "wrong_type({:?}) gives {:?}", s, e);
                    e
                }
                1 => {
                    let (ch, line, column) = (any_char(g), g.int(usize::MAX as u64) as usize, g.int(usize::MAX as u64) as usize);
                    let mk = |ch, line, column| Error::UnexpectedCharacter { ch, line, column };
                    let e = mk(ch, line, column);
                    ensure!(e == mk(ch, line, column), "equal errors differ");
                    ensure!(e != mk(ch, line ^ 1, column) && e != mk(ch, line, column ^ 1) && e != mk(if ch == 'x' { 'y' } else { 'x' }, line, column),
                        "{:?} equals an error that differs in one part", e);
                    e
                }
                2 => Error::UnexpectedEndOfJson,
                3 => Error::ExceededDepthLimit,
                _ => Error::FailedUtf8Parsing,
            };
            g.note(|| format!("error {:?}", e));
            g.print_bytes(format!("{:?}", e).as_bytes());
            g.nontrivial = true;
            error_text(g, &e)
        }
        _ => {
            g.label("failed operations");
            let m = value(g, &PLAIN);
            let mut v = build(g, &m);
            let item = leaf(g, &PLAIN);
            g.nontrivial = true;
            g.print_bytes(compact_text(&m).as_bytes());
            g.note(|| format!("push and insert on {}; parse a broken text", clip(&compact_text(&m))));
            if !matches!(m, RV::Arr(_)) {
                let x = build(g, &item);
                match v.push(x) {
                    Err(e) => {
                        ensure!(matches!(&e, Error::WrongType(s) if s.to_lowercase().contains("array")), "push on a value of another type gives {:?}", e);
                        error_text(g, &e)?;
                    }
                    Ok(()) => fail!("push on {} succeeds", describe(&v)),
                }
                check(&v, &m).map_err(|e| format!("a failed push changed the value: {}", e))?;
            }
            if !matches!(m, RV::Obj(_)) {
                let x = build(g, &item);
                let k = key(g);
                match v.insert(&k, x) {
                    Err(e) => {
                        ensure!(matches!(&e, Error::WrongType(s) if s.to_lowercase().contains("object")), "insert on a value of another type gives {:?}", e);
                        error_text(g, &e)?;
                    }
                    Ok(()) => fail!("insert on {} succeeds", describe(&v)),
                }
                check(&v, &m).map_err(|e| format!("a failed insert changed the value: {}", e))?;
            }
            let (t, _) = document(g, true);
            let t = mutate_text(g, t);
            g.note(|| format!("text {:?}", clip(&t)));
            if let Err(e) = json::parse(&t) {
                error_text(g, &e)?;
                // told again, told the same
                match json::parse(&t) {
                    Err(f) => ensure!(e == f && e.to_string() == f.to_string(), "{:?} gives {:?}, then {:?}", clip(&t), e, f),
                    Ok(_) => fail!("{:?} is refused, then accepted", clip(&t)),
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C29

fn parts(n: &Number) -> String {
    format!("{:?}", n)
}

pub fn c29(g: &mut G) -> R {
    let n = if g.prob(30) { Num { nan: true, neg: false, m: 0, e: 0 } } else { num(g) };
    let route = g.below(8);
    let (x, n) = match route {
        // by parts, which may be kept in another split of the same value
        1 if !n.nan => (Number::from_parts(!n.neg, n.m, n.e), n),
        2 => {
            let v = JsonValue::Number(number(&n));
            match json::parse(&v.dump()) {
                Ok(JsonValue::Number(y)) => (y, n),
                Ok(JsonValue::Null) if n.nan => (number(&n), n),
                o => fail!("{} parses to {:?}", v.dump(), o),
            }
        }
        3 => {
            let f = if g.prob(100) { [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MIN_POSITIVE, -5e-324][g.below(8)] } else { float64(g) };
            let x = if g.flip() { Number::from(f) } else { JsonValue::from(f).as_number().unwrap_or(json::number::NAN) };
            let want = Num { nan: !f.is_finite(), neg: f.is_sign_negative(), ..Num::of(&x) };
            if !want.nan {
                ensure!(x.is_sign_positive() == f.is_sign_positive() && x.is_zero() == (f == 0.0), "{:e} becomes {:?}", f, x);
            }
            (x, want)
        }
        4 => {
            let i = g.int(u64::MAX) as i64;
            (Number::from(i), Num::int(i as i128))
        }
        5 => (-number(&n), Num { neg: !n.neg, ..n }),
        6 => {
            let f = if g.prob(100) { [0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::MIN_POSITIVE, -1e-45][g.below(8)] } else { float32(g) };
            let x = if g.flip() { Number::from(f) } else { JsonValue::from(f).as_number().unwrap_or(json::number::NAN) };
            let want = Num { nan: !f.is_finite(), neg: f.is_sign_negative(), ..Num::of(&x) };
            if !want.nan {
                ensure!(x.is_sign_positive() == f.is_sign_positive() && x.is_zero() == (f == 0.0), "{:e} becomes {:?}", f, x);
            }
            (x, want)
        }
        7 => {
            // a literal
            let t = literal(g, false);
            match json::parse(&t) {
                Ok(JsonValue::Number(x)) => {
                    let want = Num { neg: t.starts_with('-'), ..Num::of(&x) };
                    let zero = !t.split(['e', 'E']).next().unwrap_or("").contains(|c| matches!(c, '1'..='9'));
                    ensure!(!x.is_nan() && (!zero || x.is_zero()), "{} is read as {:?}", clip(&t), x);
                    (x, want)
                }
                o => fail!("{} parses to {:?}", clip(&t), o),
            }
        }
        _ => (number(&n), n),
    };
    g.note(|| format!("number {:?} for {:?}, route {}", x, n, route));
    g.print_bytes(format!("{:?}{}", x, route).as_bytes());
    g.nontrivial = !n.nan && n.m != 0;
    g.label(if n.nan { "nan" } else if n.m == 0 { "zero" } else { "other" });
    g.label(["unchecked parts", "parts", "parsed", "float", "integer", "negated", "float32", "literal"][route]);
    let d = || parts(&x);
    // classes
    ensure!(x.is_nan() == n.nan, "is_nan is {} for {}", x.is_nan(), d());
    ensure!(x.is_zero() == (!n.nan && n.m == 0), "is_zero is {} for {}", x.is_zero(), d());
    ensure!(x.is_empty() == (n.nan || n.m == 0), "is_empty is {} for {}", x.is_empty(), d());
    if !n.nan {
        ensure!(x.is_sign_positive() == !n.neg, "is_sign_positive is {} for {}", x.is_sign_positive(), d());
        ensure!(Num::of(&x).same(&n) && x.as_parts().0 == !n.neg, "{} is not what it was made of, {:?}", d(), n);
    }
    // as a value
    let v = JsonValue::from(x);
    ensure!(v.is_number() && v.as_number() == Some(x) && v == x && x == v, "as a value {} reads {:?}", d(), v);
    ensure!(v.is_empty() == x.is_empty(), "as a value, is_empty is {} for {}", v.is_empty(), d());
    // the negative
    let y = -x;
    ensure!(-y == x && parts(&-y) == d(), "negating {} twice gives {:?}", d(), -y);
    ensure!(y.is_nan() == n.nan && y.is_zero() == x.is_zero() && y.is_empty() == x.is_empty(), "the negative of {} is of another class: {:?}", d(), y);
    let self_negative = n.nan || n.m == 0;
    ensure!((x == y) == self_negative && (y == x) == self_negative, "{} == its negative is {}", d(), x == y);
    let (f, h) = (f64::from(x), f64::from(y));
    let (f4, h4) = (f32::from(x), f32::from(y));
    if n.nan {
        ensure!(f.is_nan() && h.is_nan() && f4.is_nan() && h4.is_nan(), "NaN and its negative convert to {:?} {:?} {:?} {:?}", f, h, f4, h4);
        ensure!(JsonValue::from(y).dump() == "null" && y.to_string() == "nan" && JsonValue::from(y).pretty(2) == "null", "the negative of NaN prints {:?} and {:?}", JsonValue::from(y).dump(), y.to_string());
        ensure!(y == json::number::NAN && json::number::NAN == y, "the negative of NaN is not equal to NaN");
        macro_rules! none {
            ($($t:ty),*) => { $( ensure!(<$t>::try_from(y).is_err(), "the negative of NaN converts to {}", stringify!($t)); )* }
        }
        if n.m == 0 && x.is_sign_positive() == y.is_sign_positive() {
            none!(u8);
        }
        let w = JsonValue::from(y);
        ensure!(w.as_fixed_point_u64(2).is_none() && w.as_fixed_point_i64(2).is_none(), "the negative of NaN has a fixed point value");
        return Ok(());
    }
    ensure!(y.is_sign_positive() == n.neg, "the negative of {} has the sign of {:?}", d(), y);
    let (_, m1, e1) = x.as_parts();
    let (_, m2, e2) = y.as_parts();
    ensure!(m1 == m2 && e1 == e2, "the negative of {} is {:?}", d(), y);
    ensure!(h.to_bits() == (-f).to_bits() && h4.to_bits() == (-f4).to_bits(), "{} converts to {:e} and {:e}, its negative to {:e} and {:e}", d(), f, f4, h, h4);
    ensure!(f.is_sign_negative() == n.neg && f4.is_sign_negative() == n.neg, "{} converts to {:e} and {:e}", d(), f, f4);
    // and in print
    let (s, t) = (x.to_string(), y.to_string());
    let flipped = if n.neg { s.strip_prefix('-').map(|r| r.to_string()) } else { Some(format!("-{}", s)) };
    ensure!(flipped.as_deref() == Some(&t[..]), "{} prints as {}, its negative as {}", d(), s, t);
    ensure!(v.dump() == s, "{} dumps as {} and displays as {}", d(), v.dump(), s);
    match json::parse(&t) {
        Ok(JsonValue::Number(z)) => ensure!(z == y && z.is_sign_positive() == y.is_sign_positive(), "{} is read back as {:?}", t, z),
        o => fail!("{} parses to {:?}", t, o),
    }
    // the negative of what fixed point says
    let p = g.upto(20) as u16;
    match (x.as_fixed_point_i64(p), y.as_fixed_point_i64(p)) {
        (Some(a), Some(b)) => ensure!(a == b.wrapping_neg(), "{} at {} places is {}, its negative {}", d(), p, a, b),
        (None, Some(b)) | (Some(b), None) => ensure!(b == i64::MIN, "of {} and its negative only one has {} places: {}", d(), p, b),
        (None, None) => {}
    }
    if !self_negative {
        let z = if n.neg { x } else { y };
        ensure!(z.as_fixed_point_u64(p).is_none(), "{:?} has an unsigned fixed point value", z);
    }
    Ok(())
}

// ------------------------------------------------------------------ C30

/// The least stack a new Rust thread gets
const STACK: usize = 2 << 20;

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f) {
        Ok(h) => h.join().map_err(|_| "the thread panicked".to_string()),
        Err(e) => Err(e.to_string()),
    })
}

struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}

impl<T> Carry<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

pub fn c30(g: &mut G) -> R {
    let depth = match g.weighted(&[50, 30, 20]) {
        0 => 512 - g.upto(3) as usize,
        1 => g.range(300, 512) as usize,
        _ => g.upto(300) as usize,
    };
    let pat = g.upto(u64::MAX);
    let uniform = g.weighted(&[40, 30, 30]);
    let core = leaf(g, &PLAIN);
    let k = key(g);
    let mut m = core;
    let mut path = Vec::new();
    for i in 0..depth {
        let r = (pat.rotate_left(i as u32 % 61) ^ i as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 60;
        let object = match uniform {
            0 => r & 1 == 1,
            1 => false,
            _ => true,
        };
        let side = r & 6;
        if object {
            let mut o = vec![(k.clone(), m)];
            if side == 2 {
                o.push((format!("{}'", k), RV::Num(Num::int(i as i128))));
            }
            m = RV::Obj(o);
        } else {
            m = RV::Arr(if side == 2 { vec![m, RV::Str("sibling".into())] } else { vec![m] });
        }
        path.push(object);
    }
    path.reverse();
    let text = compact_text(&m);
    let op = g.below(14);
    let names = ["parse", "clone", "compare", "dump", "pretty", "write", "write_pretty", "Display", "Debug", "drop", "take", "walk", "change", "build"];
    let style = g.upto(u64::MAX);
    g.label(names[op]);
    g.label_if(depth == 512, "exactly-512");
    g.note(|| format!("{} at depth {} (pattern {:x}/{}), innermost {}", names[op], depth, pat, uniform, clip(&text[text.len() / 2..])));
    g.print_bytes(text.as_bytes());
    g.print_u64(op as u64);
    g.nontrivial = depth >= 2;
    cov::pause();
    let nan = m.has_nan();
    let mut st = style;
    let v = Carry(build_styled(&m, &mut st));
    let name = names[op];
    let wrong = |e: String| format!("{} at depth {}: {}", name, depth, e);
    let same = |t: &str, want: &str| -> R {
        ensure!(t == want, "{} at depth {} gives {:?} instead of {:?}", name, depth, clip(t), clip(want));
        Ok(())
    };
    match op {
        0 if !nan => match small_stack(|| Carry(json::parse(&text)))?.into() {
            Ok(x) => check_fast(&x, &m).map_err(wrong)?,
            Err(e) => fail!("parsing a document {} levels deep gives {:?}", depth, e),
        },
        1 => {
            let c = small_stack(|| Carry(v.get().clone()))?.into();
            check_fast(&c, &m).map_err(wrong)?;
        }
        2 => {
            let mut st = style.rotate_left(17);
            let w = Carry(build_styled(&m, &mut st));
            let r = small_stack(|| (v.get() == w.get(), w.get() == v.get(), v.get().is_null() || *v.get() != JsonValue::Null))?;
            ensure!(r == (true, true, true), "equal values {} levels deep compare as {:?}", depth, r);
        }
        3 => same(&small_stack(|| v.get().dump())?, &text)?,
        4 => same(&small_stack(|| v.get().pretty(1))?, &pretty_text(&m, 1))?,
        5 | 6 => {
            let out = small_stack(|| {
                let mut o = Vec::new();
                let r = if op == 5 { v.get().write(&mut o) } else { v.get().write_pretty(&mut o, 1) };
                r.map(|_| o).map_err(|e| e.to_string())
            })??;
            same(&String::from_utf8_lossy(&out), &if op == 5 { text.clone() } else { pretty_text(&m, 1) })?;
        }
        7 => same(&small_stack(|| v.get().to_string())?, &display_text(&m))?,
        8 => {
            let t = small_stack(|| format!("{:?}", v.get()))?;
            debug_shows("Debug", &t, &m)?;
        }
        9 => {
            small_stack(move || drop(v.into()))?;
            return Ok(());
        }
        10 => {
            let (a, t) = small_stack(move || {
                let mut a = v.into();
                let t = a.take();
                Carry((a, t))
            })?
            .into();
            ensure!(a.is_null(), "take leaves something behind");
            check_fast(&t, &m).map_err(wrong)?;
            return Ok(());
        }
        11 => {
            let (path, k) = (&path, &k);
            let t = small_stack(move || {
                let mut x = v.get();
                for &o in path {
                    x = if o { &x[&k[..]] } else { &x[0] };
                }
                x.dump()
            })?;
            let mut w = &m;
            for _ in 0..depth {
                w = match w {
                    RV::Arr(a) => &a[0],
                    RV::Obj(o) => &o[0].1,
                    w => w,
                };
            }
            same(&t, &compact_text(w))?;
            return Ok(());
        }
        12 => {
            // the innermost place changed, through the whole path
            let (path, k) = (&path, &k);
            let (v, old) = small_stack(move || {
                let mut v = v.into();
                let mut x = &mut v;
                for &o in path {
                    x = if o { &mut x[&k[..]] } else { &mut x[0] };
                }
                let old = x.take();
                *x = JsonValue::from("changed");
                Carry((v, old))
            })?
            .into();
            let mut w = &mut m;
            for _ in 0..depth {
                w = match w {
                    RV::Arr(a) => &mut a[0],
                    RV::Obj(o) => &mut o[0].1,
                    w => w,
                };
            }
            let was = std::mem::replace(w, RV::Str("changed".into()));
            check(&old, &was).map_err(wrong)?;
            check_fast(&v, &m).map_err(wrong)?;
            return Ok(());
        }
        13 => {
            // built from the inside out by conversions
            let t = small_stack(|| {
                let mut x = JsonValue::from("core");
                for i in 0..depth {
                    x = match (pat >> (i % 60)) & 3 {
                        0 => JsonValue::from(vec![x]),
                        1 => JsonValue::from(Some(vec![x])),
                        2 => {
                            let mut b = BTreeMap::new();
                            b.insert("k", x);
                            JsonValue::from(b)
                        }
                        _ => JsonValue::from(vec![("k", x)].into_iter().collect::<Object>()),
                    };
                }
                x.dump()
            })?;
            let (mut a, mut b) = (String::new(), String::new());
            for i in (0..depth).rev() {
                let o = (pat >> (i % 60)) & 3 >= 2;
                a.push_str(if o { "{\"k\":" } else { "[" });
                b.insert(0, if o { '}' } else { ']' });
            }
            same(&t, &format!("{}\"core\"{}", a, b))?;
            return Ok(());
        }
        _ => return Ok(()),
    }
    check_fast(v.get(), &m).map_err(|e| format!("the value after {} at depth {}: {}", name, depth, e))
}

// ------------------------------------------------------------------ C31

const OPS: [&str; 22] = [
    "push", "insert", "Object::insert", "collect into an object", "get", "has_key of absent keys", "indexing", "assigning by index",
    "clone", "comparing with a clone", "comparing with another order", "iterating", "iterating mutably", "dropping", "contains",
    "pop", "Display", "converting a map", "removing the last item", "overwriting one key", "reading items by index", "clear and refill",
];

/// The keys of a growing object; all differ, and their hashes are not made to collide
fn name(style: usize, i: usize) -> String {
    match style % 5 {
        0 => format!("k{}", i),
        1 => format!("{}", i.wrapping_mul(2654435761) % 1000000007),
        2 => format!("{:x}/{}", (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15), i),
        3 => format!("a key of more than thirty-two bytes, number {}", i),
        _ => format!("{}.{}", i % 7, i / 7),
    }
}

struct Load {
    op: usize,
    style: usize,
    item: JsonValue,
    seed: u64,
}

impl Load {
    fn object(&self, n: usize, from: u64) -> Object {
        let mut ids: Vec<usize> = (0..n).collect();
        if from != 0 {
            let mut r = crate::engine::Rng::new(from);
            for i in (1..n).rev() {
                ids.swap(i, r.upto(i as u64) as usize);
            }
        }
        let mut o = Object::new();
        for i in ids {
            o.insert(&name(self.style, i), JsonValue::from(i));
        }
        o
    }
    fn array(&self, n: usize) -> JsonValue {
        JsonValue::Array((0..n).map(|i| if i % 3 == 0 { self.item.clone() } else { JsonValue::from(i) }).collect())
    }
    /// Prepares, then measures the operation on n things
    fn run(&self, n: usize, budget: &Cost) -> Result<Cost, String> {
        let keys: Vec<String> = (0..n).map(|i| name(self.style, i)).collect();
        let c = match self.op {
            0 => {
                let mut v = JsonValue::new_array();
                let (_, c) = measured(budget, || (0..n).for_each(|i| drop(v.push(i))));
                ensure!(v.len() == n, "pushed {} items, has {}", n, v.len());
                c
            }
            1 => {
                let mut v = JsonValue::new_object();
                let (_, c) = measured(budget, || keys.iter().for_each(|k| drop(v.insert(k, 1))));
                ensure!(v.len() == n, "inserted {} keys, has {}", n, v.len());
                c
            }
            2 => {
                let mut o = Object::with_capacity(if self.seed & 1 == 1 { n } else { 0 });
                let (_, c) = measured(budget, || keys.iter().for_each(|k| o.insert(k, JsonValue::Null)));
                ensure!(o.len() == n, "inserted {} keys, has {}", n, o.len());
                c
            }
            3 => {
                let (o, c) = measured(budget, || keys.iter().map(|k| (k, 1)).collect::<Object>());
                ensure!(o.len() == n, "collected {} keys, has {}", n, o.len());
                c
            }
            4..=7 => {
                let mut o = self.object(n, self.seed);
                let (k, c) = match self.op {
                    4 => measured(budget, || keys.iter().filter(|k| o.get(k).is_some()).count()),
                    5 => {
                        let v = JsonValue::Object(o);
                        let absent: Vec<String> = keys.iter().map(|k| format!("{}?", k)).collect();
                        measured(budget, || absent.iter().filter(|k| !v.has_key(k)).count())
                    }
                    6 => measured(budget, || keys.iter().filter(|k| !o[&k[..]].is_null()).count()),
                    _ => measured(budget, || {
                        keys.iter().for_each(|k| o[&k[..]] = 5.into());
                        o.len()
                    }),
                };
                ensure!(k == n, "{} finds {} of {} keys", OPS[self.op], k, n);
                c
            }
            8..=10 => {
                let o = self.object(n, if self.op == 10 { self.seed | 1 } else { self.seed });
                let p = if self.op == 10 { self.object(n, self.seed.rotate_left(9) | 2) } else { o.clone() };
                let a = JsonValue::from(vec![JsonValue::Object(o), self.array(n)]);
                let b = JsonValue::from(vec![JsonValue::Object(p), self.array(n)]);
                let (r, c) = if self.op == 8 {
                    let (x, c) = measured(budget, || a.clone());
                    (x == a, c)
                } else {
                    measured(budget, || a == b)
                };
                ensure!(r, "{} gives a difference", OPS[self.op]);
                c
            }
            11 | 12 => {
                let mut v = JsonValue::from(vec![JsonValue::Object(self.object(n, self.seed)), self.array(n)]);
                let (k, c) = measured(budget, || {
                    if self.op == 11 {
                        v[0].entries().filter(|x| !x.0.is_empty()).count() + v[1].members().rev().count()
                    } else {
                        let k = v[0].entries_mut().rev().count();
                        v[1].members_mut().for_each(|x| *x = JsonValue::Null);
                        k + v[1].len()
                    }
                });
                ensure!(k == 2 * n, "{} meets {} of {} things", OPS[self.op], k, 2 * n);
                c
            }
            13 => {
                let v = JsonValue::from(vec![JsonValue::Object(self.object(n, self.seed)), self.array(n)]);
                measured(budget, || drop(v)).1
            }
            14 => {
                let v = self.array(n);
                let (r, c) = measured(budget, || v.contains("nowhere to be found"));
                ensure!(!r, "contains finds what is not there");
                c
            }
            15 => {
                let mut v = self.array(n);
                let (_, c) = measured(budget, || (0..n).for_each(|_| drop(v.pop())));
                ensure!(v.is_empty(), "not empty after popping everything");
                c
            }
            16 => {
                let v = JsonValue::from(vec![JsonValue::Object(self.object(n, self.seed)), self.array(n)]);
                let (t, c) = measured(budget, || v.to_string());
                ensure!(t.len() > n, "Display gives {} bytes for {} things", t.len(), n);
                c
            }
            17 => {
                let m: BTreeMap<String, usize> = keys.iter().cloned().zip(0..).collect();
                let (v, c) = measured(budget, || JsonValue::from(m));
                ensure!(v.len() == n, "a map of {} becomes an object of {}", n, v.len());
                c
            }
            18 => {
                let mut v = self.array(n);
                let (_, c) = measured(budget, || (0..n).rev().for_each(|i| drop(v.array_remove(i))));
                ensure!(v.is_empty(), "not empty after removing everything");
                c
            }
            19 => {
                let mut v = JsonValue::new_object();
                let (_, c) = measured(budget, || (0..n).for_each(|i| if self.seed & 1 == 1 { v["one key"] = i.into() } else { drop(v.insert("one key", i)) }));
                ensure!(v.len() == 1, "one key makes {} entries", v.len());
                c
            }
            20 => {
                let v = self.array(n);
                let (k, c) = measured(budget, || (0..n).filter(|&i| !v[i].is_array()).count());
                ensure!(k == n || self.item.is_array(), "indexing finds {} of {} items", k, n);
                c
            }
            _ => {
                let mut v = JsonValue::Object(self.object(n, self.seed));
                let (_, c) = measured(budget, || {
                    v.clear();
                    keys.iter().for_each(|k| drop(v.insert(k, 1)));
                });
                ensure!(v.len() == n, "refilled with {} keys, has {}", n, v.len());
                c
            }
        };
        Ok(c)
    }
}

/// As n grows to `times` n, an array's work grows in proportion and an
/// object's by the depth of its tree besides
fn grown(c: &Cost, times: u64, slack: u64) -> Cost {
    let f = |x: u64, floor: u64, more: u64| (x + floor).saturating_mul(times * (slack + more));
    Cost { edges: f(c.edges, 60, 0), copied: f(c.copied, 100, 3), total: f(c.total, 100, 3), count: f(c.count, 4, 0), peak: f(c.peak, 100, 1) }
}

pub fn c31(g: &mut G) -> R {
    let op = g.below(OPS.len());
    let style = g.below(5);
    let seed = g.upto(u64::MAX);
    let n = 150 + g.upto(250) as usize;
    let item = match leaf(g, &PLAIN) {
        RV::Str(s) if s.len() > 300 => RV::Null,
        m => m,
    };
    let item = build_styled(&item, &mut 0);
    let l = Load { op, style, item, seed };
    let times = 64;
    g.note(|| format!("{} with {} and {} things, keys like {:?}", OPS[op], n, n * times, name(style, 77)));
    g.print_u64(op as u64 * 5 + style as u64);
    g.print_u64(n as u64);
    g.print_u64(seed);
    g.label(OPS[op]);
    g.nontrivial = true;
    cov::pause();
    if !cov::stepping() {
        fail!("this check needs the build that counts edges");
    }
    let c1 = l.run(n, &FREE)?;
    let objects = !matches!(op, 0 | 14 | 15 | 18 | 19 | 20);
    let budget = grown(&c1, times as u64, if objects { 6 } else { 3 });
    let c2 = l.run(n * times, &budget)?;
    within(OPS[op], &c2, &budget, &c1, n, n * times).map_err(|e| e.replace(" bytes", " things"))
}

pub fn c31_sweeps(_quick: bool) -> Vec<crate::props::Sweep> {
    (0..OPS.len() as u64 * 5).map(|i| crate::props::Sweep { prefix: vec![i / 5, i % 5], lo: 0, hi: 3, step: 1 }).collect()
}
