//! C35 the library's generators, driven call by call; C36 threads that work on
//! different values.

use std::cell::RefCell;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::{Relaxed, SeqCst};
use std::sync::{Arc, Barrier, Mutex};

use json::codegen::{DumpGenerator, Generator, PrettyGenerator, PrettyWriterGenerator, WriterGenerator};
use json::JsonValue;

use super::more::{gen_task, hookless, task_name, Task};
use super::text::clip;
use crate::cov;
use crate::engine::{G, R, SMALL};
use crate::gen::*;
use crate::model::*;
use crate::{ensure, fail};

// ------------------------------------------------------------------ C35

enum Call {
    Write(String),
    Char(u8),
    Min(String, u8),
    Line,
    Indent(usize),
    Dedent(usize),
    Str(String),
    Num(Num),
    Json(RV, JsonValue, bool),
    Raw(String),
    /// The generator is finished and another one takes its place
    Anew,
}

fn show(c: &Call) -> String {
    match c {
        Call::Write(s) => format!("write {:?}", clip(s)),
        Call::Char(c) => format!("write_char {:?}", *c as char),
        Call::Min(s, c) => format!("write_min {:?} or {:?}", clip(s), *c as char),
        Call::Line => "new_line".into(),
        Call::Indent(n) => format!("{} x indent", n),
        Call::Dedent(n) => format!("{} x dedent", n),
        Call::Str(s) => format!("write_string {:?}", clip(s)),
        Call::Num(n) => format!("write_number {}", num_text(n)),
        Call::Json(m, _, o) => format!("{} {}", if *o { "write_object" } else { "write_json" }, clip(&compact_text(m))),
        Call::Raw(s) => format!("get_writer().write_all {:?}", clip(s)),
        Call::Anew => "anew".into(),
    }
}

/// Takes a few bytes at a time, with interruptions
struct Slow {
    got: Vec<u8>,
    bits: u64,
}

impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.bits = self.bits.rotate_left(7) ^ (self.bits >> 3);
        if self.bits & 15 == 15 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = if self.bits & 3 == 3 { b.len().min(1 + (self.bits >> 8 & 7) as usize) } else { b.len() };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn call<T: Generator>(x: &mut T, c: &Call) -> io::Result<()> {
    match c {
        Call::Write(s) => x.write(s.as_bytes()),
        Call::Char(c) => x.write_char(*c),
        Call::Min(s, c) => x.write_min(s.as_bytes(), *c),
        Call::Line => x.new_line(),
        Call::Indent(n) => {
            (0..*n).for_each(|_| x.indent());
            Ok(())
        }
        Call::Dedent(n) => {
            (0..*n).for_each(|_| x.dedent());
            Ok(())
        }
        Call::Str(s) => x.write_string(s),
        Call::Num(n) => x.write_number(&number(n)),
        Call::Json(_, JsonValue::Object(o), true) => x.write_object(o),
        Call::Json(_, v, _) => x.write_json(v),
        Call::Raw(s) => x.get_writer().write_all(s.as_bytes()),
        Call::Anew => Ok(()),
    }
}

/// The calls between two fresh starts, for one kind of generator
fn drive(calls: &[Call], kind: usize, spaces: u16, sink: &mut Slow) -> R {
    fn run<T: Generator>(x: &mut T, calls: &[Call], what: &str) -> R {
        for (i, c) in calls.iter().enumerate() {
            call(x, c).map_err(|e| format!("{}: call {} ({}) fails: {}", what, i, show(c), e))?;
        }
        Ok(())
    }
    match kind {
        0 => {
            let mut x = DumpGenerator::new();
            run(&mut x, calls, "DumpGenerator")?;
            sink.got.extend_from_slice(x.consume().as_bytes());
        }
        1 => {
            let mut x = PrettyGenerator::new(spaces);
            run(&mut x, calls, "PrettyGenerator")?;
            sink.got.extend_from_slice(x.consume().as_bytes());
        }
        2 => run(&mut WriterGenerator::new(sink), calls, "WriterGenerator")?,
        _ => run(&mut PrettyWriterGenerator::new(sink, spaces), calls, "PrettyWriterGenerator")?,
    }
    Ok(())
}

fn meaning(calls: &[Call], tall: bool, spaces: usize) -> String {
    let mut o = String::new();
    let mut level = 0;
    for c in calls {
        match c {
            Call::Write(s) | Call::Raw(s) => o.push_str(s),
            Call::Char(c) => o.push(*c as char),
            Call::Min(s, c) => {
                if tall {
                    o.push_str(s)
                } else {
                    o.push(*c as char)
                }
            }
            Call::Line if tall => {
                o.push('\n');
                o.extend(std::iter::repeat(' ').take(level * spaces));
            }
            Call::Line => {}
            Call::Indent(n) => level += n,
            Call::Dedent(n) => level -= n,
            Call::Str(s) => o.push_str(&escape(s)),
            Call::Num(n) => o.push_str(&if n.nan { "null".to_string() } else { num_text(n) }),
            Call::Json(m, _, _) if tall => pretty(m, spaces, level, &mut o),
            Call::Json(m, _, _) => compact(m, &mut o),
            Call::Anew => level = 0,
        }
    }
    o
}

fn lines(m: &RV) -> usize {
    m.nodes() + 2
}

pub fn c35(g: &mut G) -> R {
    let kind = g.below(4);
    let spaces = match g.weighted(&[60, 30, 10]) {
        0 => g.upto(4) as u16,
        1 => g.upto(20) as u16,
        _ => g.int(65535) as u16,
    };
    let n = 1 + g.size(30);
    let mut calls = Vec::new();
    let (mut level, mut room) = (0usize, 200_000usize);
    for _ in 0..n {
        let c = match g.weighted(&[6, 6, 8, 14, 12, 10, 12, 10, 12, 8, 6, 4]) {
            0 => Call::Write(string(g, 40)),
            1 => Call::Char(g.upto(127) as u8),
            2 => Call::Min(string(g, 8), g.upto(127) as u8),
            3 => Call::Line,
            4 => Call::Indent(if g.prob(100) { g.size(3000) } else { g.upto(3) as usize }),
            5 => Call::Dedent(if g.prob(200) { level } else { level.min(g.upto(3) as usize) }),
            6 => Call::Str(string(g, 200)),
            7 => Call::Num(api_num(g)),
            8 => {
                let m = value(g, &PLAIN);
                let v = build(g, &m);
                Call::Json(m, v, false)
            }
            9 => {
                let m = container(g, &PLAIN);
                let v = build(g, &m);
                Call::Json(m, v, true)
            }
            10 => Call::Raw(string(g, 40)),
            _ => Call::Anew,
        };
        // keep the indents of all lines within reason
        let need = match &c {
            Call::Line => level * spaces as usize,
            Call::Json(m, _, _) => lines(m) * (level + m.depth()) * spaces as usize,
            _ => 0,
        };
        if need > room {
            continue;
        }
        room -= need;
        match &c {
            Call::Indent(n) => level += n,
            Call::Dedent(n) => level -= n,
            Call::Anew => level = 0,
            _ => {}
        }
        calls.push(c);
    }
    let bits = g.upto(u64::MAX);
    let names = ["DumpGenerator", "PrettyGenerator", "WriterGenerator", "PrettyWriterGenerator"];
    g.label(names[kind]);
    g.note(|| format!("{} ({} spaces): {}", names[kind], spaces, calls.iter().map(show).collect::<Vec<_>>().join("; ")));
    let want = meaning(&calls, kind % 2 == 1, spaces as usize);
    g.print_bytes(want.as_bytes());
    g.print_u64(kind as u64 * 65536 + spaces as u64);
    g.nontrivial = calls.len() > 2;
    let mut sink = Slow { got: Vec::new(), bits };
    for part in calls.split(|c| matches!(c, Call::Anew)) {
        drive(part, kind, spaces, &mut sink)?;
    }
    ensure!(sink.got == want.as_bytes(), "{} gives {:?} instead of {:?}", names[kind], clip(&String::from_utf8_lossy(&sink.got)), clip(&want));
    for c in &calls {
        if let Call::Json(m, v, _) = c {
            check_fast(v, m).map_err(|e| format!("a value changed by being generated: {}", e))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C36

struct Mine<T>(T);
unsafe impl<T> Send for Mine<T> {}

impl<T> Mine<T> {
    fn into(self) -> T {
        self.0
    }
}

/// Uses the library while its thread ends
struct Last {
    tasks: Vec<Task>,
    err: Arc<Mutex<Option<String>>>,
}

impl Drop for Last {
    fn drop(&mut self) {
        for t in &self.tasks {
            if let Err(e) = t.run(&hookless()) {
                *self.err.lock().unwrap() = Some(format!("while the thread ends, {}: {}", task_name(t), e));
            }
        }
    }
}

thread_local! {
    static LAST: RefCell<Vec<Last>> = RefCell::new(Vec::new());
}

/// Lets threads go on within a few nanoseconds of each other
fn together(gate: &AtomicUsize, n: usize) {
    gate.fetch_add(1, SeqCst);
    while gate.load(SeqCst) < n {
        if SMALL.load(Relaxed) {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

/// A task that comes to each part of the library at once, if at all
fn brief_task(g: &mut G) -> Task {
    let mut fuel = 2;
    match g.below(4) {
        0 | 1 => {
            let mut t = String::new();
            let m = doc_value(g, 1, &mut fuel, false, &mut t);
            Task::Parse(t, m)
        }
        2 => {
            let m = tree(g, &PLAIN, 1, &mut fuel);
            let v = build(g, &m);
            Task::Print(Rc::new(v), m, 0)
        }
        _ => gen_task(g, 0, false),
    }
}

/// Threads that all do the same thing for the first time
fn first_use(g: &mut G) -> R {
    let threads = 2 + g.below(2);
    let seed = g.upto(u64::MAX);
    let steps = 1 + g.upto(2) as usize;
    let brief = g.prob(600);
    g.note(|| format!("{} threads begin with the same {} {}tasks, seed {}", threads, steps, if brief { "brief " } else { "" }, seed));
    g.label("same tasks from the start");
    g.nontrivial = true;
    cov::pause();
    let gates: Arc<Vec<AtomicUsize>> = Arc::new((0..steps * 2).map(|_| AtomicUsize::new(0)).collect());
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            let gates = gates.clone();
            std::thread::spawn(move || -> R {
                let mut out = Ok(());
                for i in 0..steps {
                    // what builds the task uses the library as well; a thread
                    // that left early would stop the others
                    let mut h = G::unseen(seed.wrapping_add(i as u64));
                    together(&gates[2 * i], threads);
                    let t = catch_unwind(AssertUnwindSafe(|| if brief { brief_task(&mut h) } else { gen_task(&mut h, 0, false) }));
                    together(&gates[2 * i + 1], threads);
                    let r = catch_unwind(AssertUnwindSafe(|| match t {
                        Ok(t) => t.run(&hookless()).map_err(|e| format!("step {}, {}: {}", i, task_name(&t), e)),
                        Err(_) => Err("a panic while values were built".to_string()),
                    }));
                    out = out.and(r.unwrap_or_else(|_| Err("a panic".to_string())));
                }
                out
            })
        })
        .collect();
    let mut out = Ok(());
    for h in handles {
        match h.join() {
            Ok(r) => out = out.and(r),
            Err(_) => out = out.and(Err("a thread panicked".to_string())),
        }
    }
    out
}

pub fn c36(g: &mut G) -> R {
    if g.prob(200) {
        return first_use(g);
    }
    let small = SMALL.load(Relaxed);
    let threads = 2 + g.below(if small { 2 } else { 5 });
    let rounds = 1 + g.below(if small { 2 } else { 6 });
    let mut work: Vec<(Vec<Task>, Vec<Task>)> = Vec::new();
    for i in 0..threads {
        // the same kind of work at the same time, or each its own
        let n = 1 + g.upto(3);
        let tasks = if i > 0 && g.prob(250) {
            work[i - 1].0.iter().map(|t| t.again(g)).collect()
        } else {
            (0..n).map(|_| gen_task(g, 1, false)).collect()
        };
        let last = if g.prob(200) { vec![gen_task(g, 0, false)] } else { Vec::new() };
        work.push((tasks, last));
    }
    g.note(|| {
        let all: Vec<String> = work
            .iter()
            .map(|(t, l)| format!("[{}{}{}]", t.iter().map(task_name).collect::<Vec<_>>().join("; "), if l.is_empty() { "" } else { "; at its end " }, l.iter().map(task_name).collect::<Vec<_>>().join("; ")))
            .collect();
        format!("{} rounds on {} threads: {}", rounds, threads, all.join(" | "))
    });
    g.label_if(work.iter().any(|w| !w.1.is_empty()), "at thread exit");
    g.nontrivial = true;
    cov::pause();
    let gate = Arc::new(Barrier::new(threads));
    let err = Arc::new(Mutex::new(None));
    let handles: Vec<_> = work
        .into_iter()
        .map(|(tasks, last)| {
            let (gate, err) = (gate.clone(), err.clone());
            let work = Mine((tasks, last));
            std::thread::spawn(move || -> R {
                let (tasks, last) = work.into();
                if !last.is_empty() {
                    // before the library makes thread locals of its own, or after
                    LAST.with(|l| l.borrow_mut().push(Last { tasks: last, err }));
                }
                gate.wait();
                for round in 0..rounds {
                    for t in &tasks {
                        t.run(&hookless()).map_err(|e| format!("round {}, {}: {}", round, task_name(t), e))?;
                    }
                }
                Ok(())
            })
        })
        .collect();
    let mut out = Ok(());
    for (i, h) in handles.into_iter().enumerate() {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => out = out.and(Err(format!("thread {} of {}: {}", i, threads, e))),
            Err(p) => {
                let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string()));
                out = out.and(Err(format!("thread {} of {} panicked: {:?}", i, threads, t)));
            }
        }
    }
    out?;
    let e = err.lock().unwrap().take();
    if let Some(e) = e {
        fail!("{}", e);
    }
    Ok(())
}
