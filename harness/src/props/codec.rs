//! C06 to C08: serializing.

use super::text::clip;
use crate::engine::{G, R, SMALL};
use crate::gen::*;
use crate::model::*;
use json::codegen::{DumpGenerator, Generator, PrettyGenerator, PrettyWriterGenerator, WriterGenerator};
use json::JsonValue;
use std::sync::atomic::Ordering::Relaxed;
use std::io::{self, Write};

// ------------------------------------------------------------------ C06

fn indent_width(g: &mut G) -> u16 {
    if SMALL.load(Relaxed) {
        return g.upto(8) as u16;
    }
    match g.weighted(&[80, 12, 8]) {
        0 => g.upto(8) as u16,
        1 => g.upto(70) as u16,
        _ => g.upto(1000) as u16,
    }
}

pub fn c06(g: &mut G) -> R {
    let m = match g.weighted(&[90, 4, 6]) {
        0 => value(g, &PLAIN),
        1 => {
            // right at the depth limit
            let n = if SMALL.load(Relaxed) { g.range(10, 30) } else { g.range(505, 512) } as usize;
            let pat = g.upto(u64::MAX);
            let mut v = leaf(g, &PLAIN);
            for i in 0..n {
                v = if (pat >> (i % 63)) & 1 == 0 { RV::Arr(vec![v]) } else { RV::Obj(vec![("d".into(), v)]) };
            }
            g.label("depth-512");
            v
        }
        _ => container(g, &PLAIN),
    };
    let v = build(g, &m);
    let text = v.dump();
    g.print_bytes(text.as_bytes());
    g.note(|| format!("value {}", clip(&text)));
    g.nontrivial = m.nodes() > 1 || matches!(m, RV::Num(_) | RV::Str(_));
    let nan = m.has_nan();
    g.label_if(nan, "nan");
    g.label_if(m.depth() > 20, "deep");
    g.label_if(m.nodes() > 100, "wide");
    let want = m.nan_to_null();
    let width = indent_width(g);
    let width = if m.depth() > 60 { width % 9 } else { width };
    let printed = v.pretty(width);
    for (how, t) in [("compact", &text), ("pretty", &printed)] {
        let back = match json::parse(t) {
            Ok(b) => b,
            Err(e) => fail!("the {} text {:?} does not parse: {:?}", how, clip(t), e),
        };
        check(&back, &want).map_err(|e| format!("parsing the {} text {:?} gives another value: {}", how, clip(t), e))?;
        if !nan {
            ensure!(back == v, "parsing the {} text {:?} gives a value that does not compare equal", how, clip(t));
            ensure!(v == back, "the value does not compare equal to the parsed {} text {:?}", how, clip(t));
        }
        ensure!(back.dump() == text, "printing again gives {:?} instead of {:?}", clip(&back.dump()), clip(&text));
        ensure!(back.pretty(width) == printed, "pretty printing again gives {:?} instead of {:?}", clip(&back.pretty(width)), clip(&printed));
    }
    check(&v, &m).map_err(|e| format!("printing changed the value: {}", e))
}

// ------------------------------------------------------------------ C07

struct Least {
    out: Vec<u8>,
}

impl Generator for Least {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        self.out.push(min);
        Ok(())
    }
}

/// A pretty generator as a user would write one
struct Mine {
    out: Vec<u8>,
    level: usize,
    width: usize,
}

impl Generator for Mine {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write_min(&mut self, slice: &[u8], _: u8) -> io::Result<()> {
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        self.out.push(b'\n');
        for _ in 0..self.level * self.width {
            self.out.push(b' ');
        }
        Ok(())
    }
    fn indent(&mut self) {
        self.level += 1;
    }
    fn dedent(&mut self) {
        self.level -= 1;
    }
}

fn same(what: &str, got: &[u8], want: &str) -> R {
    if got == want.as_bytes() {
        return Ok(());
    }
    let at = got.iter().zip(want.as_bytes()).take_while(|x| x.0 == x.1).count();
    let near = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(20).min(b.len())..(at + 40).min(b.len())]).into_owned();
    fail!("{} differs from the documented text at byte {}: ...{:?} instead of ...{:?} (of {:?})", what, at, near(got), near(want.as_bytes()), clip(want))
}

#[allow(deprecated)]
pub fn c07(g: &mut G) -> R {
    let m = value(g, &PLAIN);
    let v = build(g, &m);
    let flat = compact_text(&m);
    g.print_bytes(flat.as_bytes());
    g.note(|| format!("value {}", clip(&flat)));
    g.nontrivial = m.nodes() > 1 || matches!(m, RV::Str(_) | RV::Num(_));
    let container = matches!(m, RV::Arr(_) | RV::Obj(_));
    g.label_if(container, "container");
    g.label_if(m.depth() > 20, "deep");
    g.label_if(m.nodes() > 100, "wide");

    same("dump", v.dump().as_bytes(), &flat)?;
    let mut w = Vec::new();
    v.write(&mut w).map_err(|e| format!("write to a vector failed: {}", e))?;
    same("write", &w, &flat)?;
    let mut w = Vec::new();
    v.to_writer(&mut w);
    same("to_writer", &w, &flat)?;
    same("stringify", json::stringify(v.clone()).as_bytes(), &flat)?;
    let mut l = Least { out: Vec::new() };
    l.write_json(&v).map_err(|e| e.to_string())?;
    same("a custom generator", &l.out, &flat)?;
    let mut d = DumpGenerator::new();
    d.write_json(&v).map_err(|e| e.to_string())?;
    same("DumpGenerator", d.consume().as_bytes(), &flat)?;
    let mut w = Vec::new();
    WriterGenerator::new(&mut w).write_json(&v).map_err(|e| e.to_string())?;
    same("WriterGenerator", &w, &flat)?;
    if container {
        same("Display", format!("{}", v).as_bytes(), &flat)?;
        same("to_string", v.to_string().as_bytes(), &flat)?;
    }
    if let RV::Str(s) = &m {
        same("Display of a string", format!("{}", v).as_bytes(), s)?;
        let mut l = Least { out: Vec::new() };
        l.write_string(s).map_err(|e| e.to_string())?;
        same("write_string", &l.out, &flat)?;
    }
    if let (RV::Num(n), JsonValue::Number(x)) = (&m, &v) {
        let mut l = Least { out: Vec::new() };
        l.write_number(x).map_err(|e| e.to_string())?;
        same("write_number", &l.out, &flat)?;
        if !n.nan {
            same("Display of a number", format!("{}", v).as_bytes(), &flat)?;
        }
    }

    let mut width = indent_width(g);
    if m.nodes() < 6 && !SMALL.load(Relaxed) && g.prob(40) {
        width = 65535 - g.upto(3) as u16;
        g.label("huge-indent");
    }
    if m.depth() * m.nodes() > 4000 {
        width %= 5;
    }
    let tall = pretty_text(&m, width as usize);
    same("pretty", v.pretty(width).as_bytes(), &tall)?;
    let mut w = Vec::new();
    v.write_pretty(&mut w, width).map_err(|e| format!("write_pretty to a vector failed: {}", e))?;
    same("write_pretty", &w, &tall)?;
    same("stringify_pretty", json::stringify_pretty(v.clone(), width).as_bytes(), &tall)?;
    let mut p = PrettyGenerator::new(width);
    p.write_json(&v).map_err(|e| e.to_string())?;
    same("PrettyGenerator", p.consume().as_bytes(), &tall)?;
    let mut w = Vec::new();
    PrettyWriterGenerator::new(&mut w, width).write_json(&v).map_err(|e| e.to_string())?;
    same("PrettyWriterGenerator", &w, &tall)?;
    let mut p = Mine { out: Vec::new(), level: 0, width: width as usize };
    p.write_json(&v).map_err(|e| e.to_string())?;
    same("a custom pretty generator", &p.out, &tall)?;
    same("alternate Display", format!("{:#}", v).as_bytes(), &pretty_text(&m, 4))?;
    if let JsonValue::Object(o) = &v {
        g.label("object");
        same("Object::dump", o.dump().as_bytes(), &flat)?;
        same("Object::pretty", o.pretty(width).as_bytes(), &tall)?;
        let mut l = Least { out: Vec::new() };
        l.write_object(o).map_err(|e| e.to_string())?;
        same("write_object", &l.out, &flat)?;
    }
    // several documents through one generator
    if g.prob(200) {
        let mut fuel = 8;
        let m2 = tree(g, &PLAIN, 3, &mut fuel);
        let v2 = build(g, &m2);
        let both = format!("{}{}", tall, pretty_text(&m2, width as usize));
        let mut p = PrettyGenerator::new(width);
        p.write_json(&v).map_err(|e| e.to_string())?;
        p.write_json(&v2).map_err(|e| e.to_string())?;
        same("two values through one generator", p.consume().as_bytes(), &both)?;
        g.label("reused-generator");
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    Kind(io::ErrorKind),
    Os(i32),
    Custom(u32),
    Refuse,
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
];

fn fault(g: &mut G) -> Fault {
    match g.weighted(&[40, 20, 25, 15]) {
        0 => Fault::Kind(*g.pick(KINDS)),
        1 => Fault::Os(*g.pick(&[28, 5, 32, 104, 9])),
        2 => Fault::Custom(g.upto(1 << 30) as u32),
        _ => Fault::Refuse,
    }
}

struct Stream {
    got: Vec<u8>,
    /// Accepts this many bytes, then fails
    room: usize,
    fault: Fault,
    sizes: u64,
    interrupts: u64,
    calls: u64,
    failed: bool,
    after: u64,
    interrupted: u64,
    split: u64,
}

impl Stream {
    fn new(room: usize, fault: Fault, sizes: u64, interrupts: u64) -> Stream {
        Stream { got: Vec::new(), room, fault, sizes, interrupts, calls: 0, failed: false, after: 0, interrupted: 0, split: 0 }
    }
}

impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
            // accept, so that what follows a failure shows
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let mut x = self.calls.wrapping_mul(0x9e3779b97f4a7c15) ^ self.sizes;
        x ^= x >> 29;
        if self.interrupts != 0 && (x >> 7) % 16 < self.interrupts && self.interrupted < 100000 {
            self.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if self.got.len() >= self.room {
            match self.fault {
                Fault::None => {}
                f => {
                    self.failed = true;
                    return match f {
                        Fault::Kind(k) => Err(io::Error::new(k, "the stream broke")),
                        Fault::Os(n) => Err(io::Error::from_raw_os_error(n)),
                        Fault::Custom(n) => Err(io::Error::new(io::ErrorKind::Other, format!("fault {}", n))),
                        _ => Ok(0),
                    };
                }
            }
        }
        let mut n = match self.sizes % 4 {
            0 => b.len(),
            1 => 1,
            2 => 1 + (x % 3) as usize,
            _ => 1 + (x % 40) as usize,
        }
        .min(b.len());
        if self.fault != Fault::None {
            n = n.min(self.room - self.got.len());
        }
        if n < b.len() {
            self.split += 1;
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn deliver(v: &JsonValue, width: Option<u16>, text: &str, mut s: Stream, how: u64) -> Result<Stream, String> {
    let r = match (width, how) {
        (None, 0) => v.write(&mut s),
        (None, _) => WriterGenerator::new(&mut s).write_json(v),
        (Some(n), 0) => v.write_pretty(&mut s, n),
        (Some(n), _) => PrettyWriterGenerator::new(&mut s, n).write_json(v),
    };
    let what = if width.is_some() { "write_pretty" } else { "write" };
    let at = s.room;
    let whole = text.as_bytes();
    if s.failed {
        let e = match r {
            Ok(()) => fail!("{} returned Ok though the stream failed with {:?} after {} of {} bytes of {:?}", what, s.fault, at, whole.len(), clip(text)),
            Err(e) => e,
        };
        ensure!(s.after == 0, "{} wrote {} more times after the stream failed with {:?} at byte {} of {:?}", what, s.after, s.fault, at, clip(text));
        ensure!(s.got.len() == at && s.got[..] == whole[..at],
            "{} delivered {:?} before the failure at byte {}, which is no prefix of {:?}", what, clip(&String::from_utf8_lossy(&s.got)), at, clip(text));
        match s.fault {
            Fault::Kind(k) => ensure!(e.kind() == k && e.to_string() == "the stream broke", "{} returned {:?} instead of the error of the stream, {:?}", what, e, k),
            Fault::Os(n) => ensure!(e.raw_os_error() == Some(n), "{} returned {:?} instead of os error {}", what, e, n),
            Fault::Custom(n) => ensure!(e.to_string() == format!("fault {}", n), "{} returned {:?} instead of the error of the stream", what, e),
            _ => {}
        }
    } else {
        if let Err(e) = r {
            fail!("{} returned {:?} though the stream did not fail (of {:?})", what, e, clip(text));
        }
        ensure!(s.got == whole, "{} returned Ok but delivered {:?} instead of {:?}", what, clip(&String::from_utf8_lossy(&s.got)), clip(text));
    }
    Ok(s)
}

pub fn c08(g: &mut G) -> R {
    let kind = g.weighted(&[50, 40, 10]);
    let m = match kind {
        0 => {
            let sh = Shape { nan: true, exact: false, max_str: 40, big: false };
            let mut fuel = 12;
            tree(g, &sh, 3, &mut fuel)
        }
        1 => value(g, &PLAIN),
        _ => {
            // long enough for any buffer in between to fill
            let n = g.size(9000);
            let c = *g.pick(&['x', '\n', 'é', '\u{1}']);
            RV::Arr(vec![RV::Str(c.to_string().repeat(n)), RV::Num(Num::int(1))])
        }
    };
    let v = build(g, &m);
    let width = if g.flip() { Some(g.upto(9) as u16) } else { None };
    let text = match width {
        None => compact_text(&m),
        Some(n) => pretty_text(&m, n as usize),
    };
    g.print_bytes(text.as_bytes());
    g.print_u64(width.map_or(99, |x| x as u64));
    let sizes = g.upto(u64::MAX);
    let ints = if g.flip() { g.range(1, 12) } else { 0 };
    let how = g.upto(1);
    g.nontrivial = text.len() > 4;
    g.note(|| format!("value {} width {:?}, chunk style {}, interruptions {}/16", clip(&text), width, sizes % 4, ints));
    // no fault, pieces of every style, with interruptions
    for s in [sizes, 0, 1] {
        let s = deliver(&v, width, &text, Stream::new(0, Fault::None, s, ints), how)?;
        g.label_if(s.interrupted > 0, "interrupted");
        g.label_if(s.split > 0, "split");
    }
    if kind == 0 && text.len() <= 600 {
        // every byte offset
        let f = fault(g);
        g.label("every-offset");
        for at in 0..text.len() {
            deliver(&v, width, &text, Stream::new(at, f, sizes, ints), how)?;
        }
        for at in 0..text.len() {
            deliver(&v, width, &text, Stream::new(at, Fault::Refuse, 0, 0), how)?;
        }
        g.print_u64(text.len() as u64);
    } else if !text.is_empty() {
        for _ in 0..12 {
            let f = fault(g);
            let at = g.upto(text.len() as u64 - 1) as usize;
            deliver(&v, width, &text, Stream::new(at, f, sizes, ints), how)?;
        }
        g.label("some-offsets");
    }
    // exactly enough room
    deliver(&v, width, &text, Stream::new(text.len(), Fault::Custom(1), sizes, ints), how)?;
    check(&v, &m)
}
