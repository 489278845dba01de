//! C20: the macros. A case is a Rust program of literals, compiled against
//! the crate; every expression in them records when it is evaluated.

use super::text::clip;
use crate::engine::{dict_names, G, R};
use crate::model::*;
use json::number::Number;
use std::process::Command;

struct Ctx {
    /// Next id of a recorded evaluation
    next: u32,
    /// Evaluations in the order they are written
    log: Vec<u32>,
    /// Declarations the literal needs
    decl: String,
    edition: u32,
    imported: bool,
    /// Entries still allowed on the path (the recursion limit counts them)
    room: usize,
}

const NAMES: &[&str] = &["a", "b", "foo", "bar", "canJSON", "a_b", "x1", "size", "array", "object", "null", "value", "type", "r", "k", "Über", "very_long_identifier_that_does_not_fit_inline", "true", "self", "fn", "crate", "in", "i", "v", "key", "None"];

fn text(g: &mut G) -> String {
    match g.weighted(&[40, 20, 20, 20]) {
        0 => g.pick(NAMES).to_string(),
        1 => String::new(),
        2 => {
            let parts = ["\"", "\\", "\n", "é", "{}", "a", "\u{1f600}", " ", "'", "//", "[", "null"];
            let n = g.size(8);
            (0..n).map(|_| *g.pick(&parts)).collect()
        }
        _ => {
            let n = g.range(28, 40) as usize;
            "s".repeat(n)
        }
    }
}

fn rust_str(s: &str) -> String {
    format!("{:?}", s)
}

fn prefix(c: &Ctx) -> &'static str {
    if c.edition == 2015 || c.imported { "" } else { "json::" }
}

/// A Rust expression that converts to a value
fn expr(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    if g.prob(450) {
        let id = c.next;
        c.next += 1;
        // the call is evaluated after its argument
        let (e, m) = plain_expr(g, c, depth);
        c.log.push(id);
        return (format!("t({}, {})", id, e), m);
    }
    plain_expr(g, c, depth)
}

fn plain_expr(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    let int = |v: i128| RV::Num(Num::int(v));
    match g.weighted(&[20, 8, 8, 8, 12, 8, 8, 6, 6, 8, 5, 5, 5, 6, 16]) {
        0 => {
            let v = g.upto(1000) as i128;
            (v.to_string(), int(v))
        }
        1 => {
            let v = g.upto(1000) as i128;
            (format!("-{}", v + 1), int(-v - 1))
        }
        2 => {
            let v = g.int(u64::MAX);
            match g.below(3) {
                0 => (format!("{}u64", v), int(v as i128)),
                1 => (format!("{}i64", v >> 1), int((v >> 1) as i128)),
                _ => (format!("{}u8", v & 255), int((v & 255) as i128)),
            }
        }
        3 => {
            let t = format!("{}.{}", g.upto(999), g.upto(999));
            let f: f64 = t.parse().unwrap_or(0.0);
            (t, RV::Num(Num::of(&Number::from(f))))
        }
        4 => {
            let s = text(g);
            match g.below(4) {
                0 => (rust_str(&s), RV::Str(s)),
                1 => (format!("{}.to_string()", rust_str(&s)), RV::Str(s)),
                2 => (format!("&{}.to_string()[..]", rust_str(&s)), RV::Str(s)),
                _ => (format!("format!(\"{{}}\", {})", rust_str(&s)), RV::Str(s)),
            }
        }
        5 => {
            let b = g.flip();
            (b.to_string(), RV::Bool(b))
        }
        6 => {
            let (a, b) = (g.upto(99) as i128, g.upto(99) as i128);
            match g.below(4) {
                0 => (format!("{} + {}", a, b), int(a + b)),
                1 => (format!("({} * {})", a, b), int(a * b)),
                2 => (format!("if {} < {} {{ {} }} else {{ {} }}", a, b, a, b), int(a.min(b))),
                _ => (format!("match {} {{ 0 => {}, _ => {} }}", a, a, b), int(if a == 0 { a } else { b })),
            }
        }
        7 => match g.below(3) {
            0 => {
                let v = g.upto(99) as i128;
                (format!("Some({})", v), int(v))
            }
            1 => ("None::<i32>".into(), RV::Null),
            _ => (format!("{}Null", if c.edition == 2015 { "::json::" } else { "json::" }), RV::Null),
        },
        8 => {
            let n = g.upto(4) as i128;
            let items: Vec<String> = (0..n).map(|x| x.to_string()).collect();
            if n == 0 {
                ("Vec::<i32>::new()".into(), RV::Arr(vec![]))
            } else {
                (format!("vec![{}]", items.join(", ")), RV::Arr((0..n).map(int).collect()))
            }
        }
        9 => {
            // a variable that is moved
            let s = text(g);
            let name = format!("{}{}", g.pick(&["size", "array", "object", "i", "k", "v", "gen"]), c.next);
            c.next += 1;
            c.decl.push_str(&format!("let {} = {}.to_string(); ", name, rust_str(&s)));
            match g.below(3) {
                0 => (name, RV::Str(s)),
                1 => (format!("id({})", name), RV::Str(s)),
                _ => (format!("{}.clone()", name), RV::Str(s)),
            }
        }
        10 => {
            if g.prob(500) {
                return item(g, c);
            }
            // a variable of a name the macro itself may use
            let name = *g.pick(&["size", "array", "object"]);
            let v = g.upto(9) as i128;
            if c.decl.contains(&format!("let {} = ", name)) {
                return ("7".into(), int(7));
            }
            c.decl.push_str(&format!("let {} = {}; ", name, v));
            (name.into(), int(v))
        }
        11 => {
            // a block that counts
            let v = g.upto(9) as i128;
            (format!("({{ let y = {}; y + 1 }})", v), int(v + 1))
        }
        12 => {
            let id = c.next;
            c.next += 1;
            c.log.push(id);
            (format!("pair({}, 3).1", id), int(3))
        }
        14 => {
            // expressions of other shapes
            let v = g.upto(99) as i128;
            match g.below(16) {
                0 => ("!true".to_string(), RV::Bool(false)),
                1 => (format!("{} as i64", v), int(v)),
                2 => (format!("some({})?", v), int(v)),
                3 => (format!("{} < 50", v), RV::Bool(v < 50)),
                4 => (format!("*&{}", v), int(v)),
                5 => (format!("[{}, 7][0]", v), int(v)),
                6 => (format!("(|x: i32| x + 1)({})", v), int(v + 1)),
                7 => (format!("P {{ x: {}, y: 0 }}.x", v), int(v)),
                8 => ("std::collections::BTreeMap::<String, i32>::new()".to_string(), RV::Obj(vec![])),
                9 => (format!("vec![(\"m\", {})].into_iter().collect::<std::collections::HashMap<&str, i32>>()", v), RV::Obj(vec![("m".into(), int(v))])),
                10 => (format!("&[{}, 2][..]", v), RV::Arr(vec![int(v), int(2)])),
                11 => (format!("Celsius({})", v), RV::Str(format!("{} degrees", v))),
                12 => (format!("unsafe {{ {} }}", v), int(v)),
                13 => (format!("loop {{ break {} }}", v), int(v)),
                14 => (format!("pass!({})", v), int(v)),
                _ => (format!("{} ^ 0 | {}", v, v), int(v)),
            }
        }
        _ => {
            if depth == 0 {
                return ("1".into(), int(1));
            }
            if c.room > 4 && g.prob(250) {
                // by way of another macro, which hands over fragments
                let (e, m) = literal(g, c, depth - 1);
                let n = *g.pick(&["a", "foo", "null", "type", "x1"]);
                return match g.below(5) {
                    0 => (format!("one!({})", e), RV::Arr(vec![m])),
                    1 => (format!("named!({}, {})", n, e), RV::Obj(vec![(n.into(), m)])),
                    2 => (format!("lit!({:?}, {})", n, e), RV::Obj(vec![(n.into(), m)])),
                    3 => (format!("computed!({:?}, {})", n, e), RV::Obj(vec![(n.into(), m), ("z".into(), RV::Null)])),
                    _ => (format!("tokens!({})", e), RV::Arr(vec![RV::Null, m])),
                };
            }
            literal(g, c, depth - 1)
        }
    }
}

/// A constant or function of a name the macro itself may give to one, which
/// unlike a variable hides the caller's
fn item(g: &mut G, c: &mut Ctx) -> (String, RV) {
    const USUAL: &[&str] = &["SIZE", "LEN", "COUNT", "N", "CAPACITY", "CAP", "KEYS", "ITEMS", "MAX", "TOTAL", "VALUE", "KEY"];
    let found: Vec<&str> = dict_names()
        .iter()
        .map(|s| &s[..])
        .filter(|n| n.len() > 2 && !NAMES.contains(n) && !HEAD.contains(n) && !USUAL.contains(n))
        .collect();
    let name = if found.is_empty() || g.flip() { *g.pick(USUAL) } else { *g.pick(&found) };
    let v = g.upto(900) as i128 + 100;
    let upper = name.chars().all(|x| !x.is_lowercase());
    if c.decl.contains(&format!(" {}: ", name)) || c.decl.contains(&format!(" {}(", name)) {
        return ("7".into(), RV::Num(Num::int(7)));
    }
    if upper {
        c.decl.push_str(&format!("{} {}: i32 = {}; ", g.pick(&["const", "static"]), name, v));
        (name.into(), RV::Num(Num::int(v)))
    } else {
        c.decl.push_str(&format!("fn {}() -> i32 {{ {} }} ", name, v));
        (format!("{}()", name), RV::Num(Num::int(v)))
    }
}

/// A value inside a literal: nested ones need no macro name
fn inner(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    match g.weighted(&[55, 10, 18, 17]) {
        0 => expr(g, c, depth),
        1 => ("null".into(), RV::Null),
        2 if depth > 0 => {
            let (b, m) = items(g, c, depth - 1);
            (format!("[{}]", b), m)
        }
        3 if depth > 0 => {
            let (b, m) = members(g, c, depth - 1);
            (format!("{{{}}}", b), m)
        }
        _ => expr(g, c, depth),
    }
}

fn count(g: &mut G, c: &mut Ctx) -> usize {
    let n = match g.weighted(&[90, 10]) {
        0 => g.size(6),
        _ => g.size(if c.room > 60 { 200 } else { 30 }),
    };
    let n = n.min(c.room);
    c.room -= n;
    n
}

fn items(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    let n = count(g, c);
    let (mut t, mut m) = (Vec::new(), Vec::new());
    for _ in 0..n {
        let (e, v) = inner(g, c, depth);
        t.push(e);
        m.push(v);
    }
    c.room += n;
    let mut s = t.join(if g.flip() { ", " } else { ",\n" });
    if n > 0 && g.prob(300) {
        s.push(',');
    }
    (s, RV::Arr(m))
}

fn members(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    let n = count(g, c);
    let (mut t, mut m): (Vec<String>, Vec<(String, RV)>) = (Vec::new(), Vec::new());
    for _ in 0..n {
        let (k, name) = match g.weighted(&[40, 30, 30]) {
            0 => {
                let n = *g.pick(NAMES);
                (n.to_string(), n.to_string())
            }
            1 => {
                let s = text(g);
                (rust_str(&s), s)
            }
            _ => {
                let s = text(g);
                match g.below(9) {
                    4 => {
                        // a name for it
                        let name = format!("{}{}", g.pick(&["size", "key", "k", "object"]), c.next);
                        c.next += 1;
                        let own = g.flip();
                        c.decl.push_str(&format!("let {} = {}{}; ", name, rust_str(&s), if own { ".to_string()" } else { "" }));
                        (format!("[{}{}]", if own { "&" } else { "" }, name), s)
                    }
                    5 => (format!("[&Text({}, \"shown\")]", rust_str(&s)), s),
                    6 => {
                        let name = format!("text{}", c.next);
                        c.next += 1;
                        c.decl.push_str(&format!("let {} = Text({}, \"shown\"); ", name, rust_str(&s)));
                        (format!("[&{}]", name), s)
                    }
                    7 => (format!("[&std::borrow::Cow::Borrowed({})]", rust_str(&s)), s),
                    8 => (format!("[if 1 > 2 {{ \"no\" }} else {{ {} }}]", rust_str(&s)), s),
                    0 => (format!("[{}]", rust_str(&s)), s),
                    1 => {
                        let id = c.next;
                        c.next += 1;
                        c.log.push(id);
                        (format!("[t({}, {})]", id, rust_str(&s)), s)
                    }
                    2 => {
                        let id = c.next;
                        c.next += 1;
                        c.log.push(id);
                        (format!("[&t({}, {}.to_string())]", id, rust_str(&s)), s)
                    }
                    _ => (format!("[&format!(\"{{}}{{}}\", {}, 1)]", rust_str(&s)), format!("{}1", s)),
                }
            }
        };
        let (e, v) = inner(g, c, depth);
        t.push(format!("{}: {}", k, e));
        obj_set(&mut m, &name, v);
    }
    c.room += n;
    let mut s = t.join(if g.flip() { ", " } else { ",\n" });
    if n > 0 && g.prob(300) {
        s.push(',');
    }
    (s, RV::Obj(m))
}

/// The older form, with =>
fn legacy(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    let n = count(g, c);
    let (mut t, mut m): (Vec<String>, Vec<(String, RV)>) = (Vec::new(), Vec::new());
    for _ in 0..n {
        let s = text(g);
        let k = if g.prob(300) {
            let id = c.next;
            c.next += 1;
            c.log.push(id);
            format!("t({}, {})", id, rust_str(&s))
        } else if g.prob(250) {
            match g.below(3) {
                0 => format!("&Text({}, \"shown\")", rust_str(&s)),
                1 => format!("&{}.to_string()", rust_str(&s)),
                _ => format!("&format!(\"{{}}\", {})[..]", rust_str(&s)),
            }
        } else {
            rust_str(&s)
        };
        let (e, v) = expr(g, c, depth);
        t.push(format!("{} => {}", k, e));
        obj_set(&mut m, &s, v);
    }
    c.room += n;
    let mut s = t.join(", ");
    if n > 0 && g.prob(300) {
        s.push(',');
    }
    (s, RV::Obj(m))
}

fn literal(g: &mut G, c: &mut Ctx, depth: usize) -> (String, RV) {
    let (name, (body, m)) = match g.weighted(&[40, 40, 12, 8]) {
        0 => ("array", items(g, c, depth)),
        1 => ("object", members(g, c, depth)),
        2 => ("object", legacy(g, c, depth)),
        _ => {
            let (b, m) = if g.flip() { items(g, c, depth) } else { members(g, c, depth) };
            let b = if matches!(m, RV::Arr(_)) { format!("[{}]", b) } else { format!("{{{}}}", b) };
            ("value", (b, m))
        }
    };
    let (l, r) = match g.weighted(&[60, 20, 20]) {
        0 if name == "array" => ("[", "]"),
        0 => ("{", "}"),
        1 => ("(", ")"),
        _ => ("[", "]"),
    };
    // braces would end the statement in some places
    let (l, r) = if l == "{" && depth < 3 { ("(", ")") } else { (l, r) };
    (format!("{}{}!{}{}{}", prefix(c), name, l, body, r), m)
}

const HEAD: &str = "
#![allow(warnings)]
#![recursion_limit = \"1024\"]
EXTERN
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()); }
fn t<T>(i: u32, x: T) -> T { LOG.with(|l| l.borrow_mut().push(i)); x }
fn pair(i: u32, x: i32) -> (i32, i32) { t(i, (x, x)) }
fn id<T>(x: T) -> T { x }
fn some<T>(x: T) -> Option<T> { Some(x) }
struct P { x: i32, y: i32 }
/// Text by deref, another one by Display and AsRef
struct Text(&'static str, &'static str);
impl std::ops::Deref for Text { type Target = str; fn deref(&self) -> &str { self.0 } }
impl std::fmt::Display for Text { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.1) } }
struct Celsius(i32);
impl From<Celsius> for json::JsonValue { fn from(c: Celsius) -> json::JsonValue { format!(\"{} degrees\", c.0).into() } }
macro_rules! pass { ($e:expr) => { $e } }
macro_rules! one { ($e:expr) => { PREFIXarray![$e] } }
macro_rules! tokens { ($($t:tt)*) => { PREFIXarray![null, $($t)*] } }
macro_rules! named { ($k:ident, $e:expr) => { PREFIXobject!{ $k: $e } } }
macro_rules! lit { ($k:literal, $e:expr) => { PREFIXobject!($k: $e,) } }
macro_rules! computed { ($k:expr, $e:expr) => { PREFIXobject!([$k]: $e, z: null) } }
fn show(n: usize, v: json::JsonValue) {
    let log = LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), Vec::new()));
    println!(\"{}\\t{}\\t{:?}\", n, v.dump(), log);
}
";

fn give_up(why: &str) -> ! {
    eprintln!("HARNESS: {}", why);
    std::process::exit(3)
}

pub fn c20(g: &mut G) -> R {
    let edition = *g.pick(&[2021u32, 2018, 2015]);
    let imported = edition != 2015 && g.prob(300);
    let n = if g.quick { 1 + g.upto(39) } else { 1 + g.upto(79) };
    let mut src = HEAD.replace("EXTERN", match edition {
        2015 => "#[macro_use] extern crate json;",
        _ if imported => "use json::{array, object, value};",
        _ => "",
    });
    let pre = if edition == 2015 || imported { "" } else { "json::" };
    src = src.replace("PREFIX", pre);
    let mut want: Vec<(String, RV, Vec<u32>)> = Vec::new();
    let mut body = String::new();
    for i in 0..n {
        let mut c = Ctx { next: 1, log: Vec::new(), decl: String::new(), edition, imported, room: if g.prob(60) { 250 } else { 60 } };
        let (l, m) = literal(g, &mut c, 3);
        src.push_str(&format!("fn f{}() -> Option<()> {{ {}let out: json::JsonValue = {}; show({}, out); Some(()) }}\n", i, c.decl, l, i));
        body.push_str(&format!("    f{}();\n", i));
        g.label_if(!c.log.is_empty(), "recorded-evaluations");
        g.label_if(m.depth() > 1, "nested");
        g.label(m.kind());
        if want.len() < 3 {
            g.note(|| l.clone());
        }
        want.push((l, m, c.log));
    }
    src.push_str(&format!("fn main() {{\n{}}}\n", body));
    g.print_bytes(src.as_bytes());
    g.nontrivial = want.iter().any(|x| x.1.nodes() > 2);
    let rlib = match std::env::var("VP_JSON_RLIB") {
        Ok(p) => p,
        Err(_) => give_up("VP_JSON_RLIB is not set"),
    };
    let tmp = std::env::var("VP_TMP").unwrap_or_else(|_| "/tmp".into());
    let stem = format!("{}/m{}", tmp, std::process::id());
    let (file, exe) = (format!("{}.rs", stem), format!("{}.exe", stem));
    if std::fs::write(&file, &src).is_err() {
        give_up("cannot write the program");
    }
    let clean = || {
        let _ = std::fs::remove_file(&file);
        let _ = std::fs::remove_file(&exe);
    };
    let out = Command::new("rustc")
        .args(["--edition", &edition.to_string(), "--crate-name", "lits", "--crate-type", "bin", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1", "-o", &exe])
        .arg("--extern").arg(format!("json={}", rlib))
        .arg(&file)
        .env_remove("RUSTC_WRAPPER")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => give_up(&format!("rustc: {}", e)),
    };
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        clean();
        if out.status.code() != Some(1) || !err.contains("error") || err.contains("linking with") || err.contains("No space left") {
            give_up(&format!("rustc: {}", clip(&err)));
        }
        let lines: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
        let at = lines.iter().position(|l| l.starts_with("error")).unwrap_or(0);
        let msg = lines[at..(at + 14).min(lines.len())].join("\n");
        fail!("a program of literals does not compile:\n{}\n--- program\n{}", msg, src);
    }
    let run = Command::new(&exe).output();
    clean();
    let run = match run {
        Ok(r) => r,
        Err(e) => give_up(&format!("running the program: {}", e)),
    };
    let text = String::from_utf8_lossy(&run.stdout).into_owned();
    let mut lines = text.lines();
    for (i, (l, m, log)) in want.iter().enumerate() {
        let line = match lines.next() {
            Some(x) => x,
            None => fail!("the program stopped at {}: {}", l, clip(&String::from_utf8_lossy(&run.stderr))),
        };
        let mut f = line.split('\t');
        let (n, dump, seen) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
        ensure!(n == i.to_string(), "harness: line {:?}", line);
        ensure!(dump == compact_text(m), "{} builds {} instead of {}", l, dump, compact_text(m));
        ensure!(seen == format!("{:?}", log), "{} evaluates its expressions in the order {} instead of {:?}", l, seen, log);
        // the same document, parsed
        if let Ok(p) = json::parse(dump) {
            check(&p, m).map_err(|e| format!("{}: the printed text parses to another value: {}", l, e))?;
        }
    }
    ensure!(run.status.success(), "the program failed: {}", clip(&String::from_utf8_lossy(&run.stderr)));
    Ok(())
}
