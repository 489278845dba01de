mod alloc;
mod cov;
#[macro_use]
mod engine;
mod gen;
mod host;
mod model;
mod props;

use engine::{Prop, Rng, Stats, G};
use std::io::Write;

extern "C" {
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// Bounds the time of a case
fn watch(secs: u32) {
    if !cfg!(miri) {
        unsafe { alarm(secs) };
    }
}

fn leave(code: i32) -> ! {
    if cfg!(miri) {
        host::exit(code)
    }
    unsafe { _exit(code) }
}

struct Args {
    pos: Vec<String>,
    opts: Vec<(String, String)>,
}

impl Args {
    fn parse() -> Args {
        let mut a = Args { pos: vec![], opts: vec![] };
        let mut it = host::args().into_iter();
        while let Some(x) = it.next() {
            if let Some(k) = x.strip_prefix("--") {
                a.opts.push((k.to_string(), it.next().unwrap_or_default()));
            } else {
                a.pos.push(x);
            }
        }
        a
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.opts.iter().find(|o| o.0 == k).map(|o| &o.1[..])
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |v| v.parse().expect("number"))
    }
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn read_choices(path: &str) -> Vec<u64> {
    let text = String::from_utf8(host::read(path).expect("choices")).expect("choices");
    text.lines()
        .filter(|l| !l.starts_with('#'))
        .flat_map(|l| l.split_whitespace())
        .map(|w| w.parse().expect("choice"))
        .collect()
}

fn find(id: &str) -> Prop {
    match props::find(id) {
        Some(p) => p,
        None => {
            host::err(&format!("no property {}", id));
            host::exit(3)
        }
    }
}

struct Worker<'a> {
    prop: Prop,
    quick: bool,
    stats: Stats,
    guided: bool,
    /// Each case in a process that has not used the library before
    cold: bool,
    samples: u64,
    args: &'a Args,
    case_secs: u32,
    corpus: Vec<Vec<u64>>,
}

impl Worker<'_> {
    /// False when the case failed
    fn one(&mut self, input: Vec<u64>, tail: bool, seed: u64) -> Result<(), (String, Vec<u64>)> {
        if self.cold {
            let (mut failed, mut how, mut choices) = engine::run_forked_with(self.prop, &input, tail, seed, self.case_secs);
            if how == "timeout" {
                // counts only if it does so again
                let again = engine::run_forked_with(self.prop, &input, tail, seed, self.case_secs);
                failed = again.0;
                how = again.1;
                choices = again.2;
            }
            self.stats.cases += 1;
            self.stats.nontrivial += 1;
            let mut g = G::new(Vec::new(), false, 0);
            g.rec = choices;
            self.stats.prints.push(g.fingerprint());
            *self.stats.labels.entry("in a process of its own").or_insert(0) += 1;
            return if failed || how == "timeout" { Err((how, g.rec)) } else { Ok(()) };
        }
        let mut g = G::new(input, tail, seed);
        g.quick = self.quick;
        if self.guided {
            g.max_draws = 4000;
        }
        if engine::SMALL.load(std::sync::atomic::Ordering::Relaxed) {
            g.max_draws = 120;
        }
        if cfg!(miri) {
            host::err(&format!("case {}", self.stats.cases));
        }
        // a sample at growing intervals
        let n = self.stats.cases;
        let due = self.stats.samples.len() < 4 && n >= self.samples;
        g.want_sample = due;
        watch(self.case_secs);
        cov::begin_case();
        let t0 = host::Instant::now();
        let r = engine::run_case(self.prop, &mut g);
        let new = cov::end_case();
        watch(0);
        if self.args.get("trace").is_some() {
            host::err(&format!("{:?} {:?}", t0.elapsed(), g.labels));
        }
        self.stats.cases += 1;
        if g.nontrivial {
            self.stats.nontrivial += 1;
            if self.stats.prints.len() < 40_000_000 {
                self.stats.prints.push(g.fingerprint());
            }
            if self.stats.prints.len() == self.stats.prints.capacity() {
                self.stats.prints.sort_unstable();
                self.stats.prints.dedup();
            }
        }
        for l in &g.labels {
            *self.stats.labels.entry(l).or_insert(0) += 1;
        }
        if due && g.nontrivial {
            let s = g.sample.take().unwrap_or_else(|| g.trace.join(" | "));
            if !s.is_empty() {
                self.stats.samples.push(s);
                self.samples = n * 3 + 10;
            }
        }
        if let Err(m) = r {
            return Err((m, g.rec));
        }
        if self.guided && new && self.corpus.len() < 20_000 && g.rec.len() < 3000 && g.printed < 20_000
            && cov::STEPS.load(std::sync::atomic::Ordering::Relaxed) < 100_000
        {
            self.corpus.push(g.rec);
        }
        Ok(())
    }
    fn finish(&mut self, failure: Option<(String, Vec<u64>)>) -> ! {
        watch(0);
        let mut o = String::from("{");
        o.push_str(&format!("\"cases\":{},\"nontrivial\":{}", self.stats.cases, self.stats.nontrivial));
        o.push_str(",\"labels\":{");
        let mut labels: Vec<_> = self.stats.labels.iter().collect();
        labels.sort();
        for (i, (k, v)) in labels.iter().enumerate() {
            o.push_str(&format!("{}{}:{}", if i > 0 { "," } else { "" }, quote(k), v));
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.stats.samples.iter().enumerate() {
            o.push_str(&format!("{}{}", if i > 0 { "," } else { "" }, quote(s)));
        }
        o.push(']');
        if cov::instrumented() {
            let (t, h, f) = cov::summary();
            o.push_str(&format!(",\"edges\":{},\"edges_hit\":{},\"features\":{},\"corpus\":{}", t, h, f, self.corpus.len()));
        }
        let failed = failure.is_some();
        if let Some((m, c)) = failure {
            o.push_str(&format!(",\"failure\":{},\"choices\":[", quote(&m)));
            for (i, v) in c.iter().enumerate() {
                o.push_str(&format!("{}{}", if i > 0 { "," } else { "" }, v));
            }
            o.push(']');
        }
        o.push_str("}\n");
        if let Some(p) = self.args.get("out") {
            host::write(p, o.as_bytes());
            let pr = &mut self.stats.prints;
            pr.sort_unstable();
            pr.dedup();
            let mut bytes = Vec::with_capacity(pr.len() * 8);
            for v in pr.iter() {
                bytes.extend_from_slice(&v.to_le_bytes());
            }
            host::write(&format!("{}.prints", p), &bytes);
        } else {
            host::out(o.trim_end());
        }
        let _ = std::io::stdout().flush();
        leave(if failed { 10 } else { 0 })
    }
}

fn run(args: &Args) {
    let id = &args.pos[1];
    let prop = find(id);
    let (w, n) = (args.num("worker", 0), args.num("workers", 1));
    let cases = args.num("cases", 1000);
    let secs = args.num("secs", 3600);
    let quick = args.get("tier") != Some("thorough");
    let seed = args.num("seed", 1);
    let seed = Rng::new(seed ^ (w << 32) ^ ((args.get("mode") == Some("guided")) as u64) << 60).next();
    let mut r = Rng::new(seed);
    let mut wk = Worker {
        prop,
        quick,
        stats: Stats::default(),
        guided: args.get("mode") == Some("guided"),
        cold: args.get("mode") == Some("cold"),
        samples: if w == 0 { 3 } else { 40 * w },
        args,
        case_secs: args.num("case-secs", 60) as u32,
        corpus: vec![],
    };
    wk.stats.prints.reserve(1 << 16);
    let t0 = host::Instant::now();
    if args.get("sweep") != Some("no") {
        let mut k = 0u64;
        'outer: for s in props::sweeps(id, args.get("sweep") == Some("part")) {
            let mut i = s.lo;
            while i < s.hi {
                if k % n == w {
                    let mut input = s.prefix.clone();
                    input.push(i);
                    if let Err(f) = wk.one(input, false, 0) {
                        wk.finish(Some(f));
                    }
                    *wk.stats.labels.entry("sweep").or_insert(0) += 1;
                    if k & 0xff == 0 && t0.elapsed().as_secs() >= secs {
                        *wk.stats.labels.entry("sweep cut short").or_insert(0) += 1;
                        break 'outer;
                    }
                }
                k += 1;
                i += s.step;
            }
        }
    }
    let seeds = (cases / 20).clamp(50, 3000);
    for i in 0..cases {
        if (i & 15 == 0 || cfg!(miri)) && t0.elapsed().as_secs() >= secs {
            *wk.stats.labels.entry("stopped early").or_insert(0) += 1;
            break;
        }
        let s = r.next();
        let res = if wk.guided && i > seeds && !wk.corpus.is_empty() && r.below(5) != 0 {
            let input = engine::mutate(&mut r, &wk.corpus);
            wk.one(input, true, s)
        } else if wk.cold {
            // the first choice asks for what only a cold start shows
            wk.one(vec![1], true, s)
        } else {
            wk.one(Vec::new(), true, s)
        };
        if let Err(f) = res {
            wk.finish(Some(f));
        }
    }
    wk.finish(None)
}

/// Starts over with every address fixed, where the system allows it, so that
/// coverage feedback is the same from run to run
#[cfg(target_arch = "wasm32")]
fn fix_addresses() {}

#[cfg(not(target_arch = "wasm32"))]
fn fix_addresses() {
    if cfg!(miri) || std::env::var_os("VP_FIXED").is_some() {
        return;
    }
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    unsafe {
        let old = personality(0xffff_ffff);
        if old < 0 || personality(old as u64 | 0x40000) < 0 {
            return;
        }
    }
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("VP_FIXED", "1").exec();
    }
}

fn main() {
    fix_addresses();
    let args = Args::parse();
    if args.pos.is_empty() {
        host::err("vp run|replay|shrink|merge");
        host::exit(3);
    }
    if args.pos[0] == "merge" {
        let mut all: Vec<u64> = Vec::new();
        for p in &args.pos[1..] {
            let b = host::read(p).expect("prints");
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        host::out(&format!("{}", all.len()));
        return;
    }
    if let Some(p) = args.get("hints") {
        engine::load_hints(p);
    }
    cov::start();
    if !cfg!(miri) {
        alloc::init_region();
    }
    alloc::LIMIT.store(args.num("mem", 3 << 30), std::sync::atomic::Ordering::Relaxed);
    cov::STEP_LIMIT.store(args.num("steps", 3_000_000_000), std::sync::atomic::Ordering::Relaxed);
    engine::SMALL.store(args.get("small") == Some("yes"), std::sync::atomic::Ordering::Relaxed);
    engine::install_panic_hook();
    match &args.pos[0][..] {
        "run" => {
            if !cfg!(miri) {
                engine::open_journal(args.get("journal"));
            }
            run(&args)
        }
        "replay" => {
            // in this process, so that a crash is this process's crash
            let prop = find(&args.pos[1]);
            let choices = read_choices(&args.pos[2]);
            let mut g = G::new(choices, false, 0);
            g.want_trace = true;
            g.quick = args.get("tier") != Some("thorough");
            watch(args.num("case-secs", 60) as u32);
            if args.get("trace") == Some("live") {
                engine::LIVE_TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            cov::begin_case();
            let r = engine::run_case(prop, &mut g);
            watch(0);
            for t in &g.trace {
                host::out(&format!("  {}", t));
            }
            match r {
                Ok(()) => host::out("PASS"),
                Err(m) => {
                    host::out(&format!("FAIL {}", m));
                    let _ = std::io::stdout().flush();
                    leave(10)
                }
            }
        }
        "shrink" => {
            let prop = find(&args.pos[1]);
            let choices = read_choices(&args.pos[2]);
            engine::open_journal(None);
            let (best, msg, runs) = engine::shrink(
                prop, choices,
                args.num("runs", 4000) as usize,
                args.num("secs", 60),
                args.num("case-secs", 10) as u32,
            );
            let mut o = format!("# {} shrink runs: {}\n", runs, msg.replace('\n', " "));
            for c in best.chunks(16) {
                let line: Vec<String> = c.iter().map(|v| v.to_string()).collect();
                o.push_str(&line.join(" "));
                o.push('\n');
            }
            host::write(args.get("out").expect("--out"), o.as_bytes());
            host::out(if msg.is_empty() { "NOT-REPRODUCED" } else { &msg[..] });
        }
        "journal" => {
            // prints the choices kept in a journal file
            let b = host::read(&args.pos[1]).expect("journal");
            let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let n = (v[0] as usize).min(v.len() - 1);
            for c in v[1..1 + n].chunks(16) {
                let line: Vec<String> = c.iter().map(|v| v.to_string()).collect();
                host::out(&line.join(" "));
            }
        }
        x => {
            host::err(&format!("unknown command {}", x));
            host::exit(3);
        }
    }
}
