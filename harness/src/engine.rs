//! Drives a check over the entries of a pack, on several threads, and reports what was observed.
use crate::checks;
use crate::exec::{exec_dyn, How, Obs, Op, Out, HAVE_MON};
use crate::model::{Cx, Kind, Ev, EV_NAMES, G, R};
use crate::rng::Rng;
use crate::sample::Sampler;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Entry {
    pub name: &'static str,
    /// how it is written
    pub decl: &'static str,
    pub kind: Kind,
    /// entries of one group are to behave alike
    pub group: &'static str,
    pub g: fn() -> G,
    pub exec: fn(&[u32], &How, Op) -> Obs,
}

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub cases: usize,
    pub threads: usize,
    pub time: u64,
    pub out: String,
    pub dir: String,
    pub only: Option<(String, usize)>,
    pub digests: Option<String>,
    pub stall: u64,
    /// seconds of processor time after which a case is taken to be stuck; 0: no limit
    pub cpu: u64,
    pub shuffle: u64,
    /// cases that take little work only (for slow monitors)
    pub small: bool,
}

pub struct Violation {
    pub entry: String,
    pub case: usize,
    pub input: String,
    pub msg: String,
    pub decl: String,
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub execs: u64,
    pub distinct: HashSet<u64>,
    pub ev: Vec<u64>,
    pub accept: u64,
    pub reject: u64,
    pub zero: u64,
    pub elements: u64,
    pub skipped: u64,
    pub extra: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub digests: Vec<(String, usize, u64)>,
}
impl Cov {
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.extra.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.maxes.entry(what).or_insert(0);
        *e = (*e).max(n);
    }
    fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.execs += o.execs;
        self.distinct.extend(o.distinct);
        self.ev.resize(Ev::COUNT_ as usize, 0);
        for (a, b) in self.ev.iter_mut().zip(&o.ev) {
            *a += b;
        }
        self.accept += o.accept;
        self.reject += o.reject;
        self.zero += o.zero;
        self.elements += o.elements;
        self.skipped += o.skipped;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            self.max(k, v);
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.digests.extend(o.digests);
    }
}

/// One case of one entry
pub struct Case<'a> {
    pub args: &'a Args,
    pub e: &'static Entry,
    pub group: &'a [&'static Entry],
    /// every entry of the pack
    pub all: &'static [Entry],
    pub g: &'a G,
    pub s: &'a mut Sampler,
    pub r: Rng,
    pub i: usize,
    pub cov: &'a mut Cov,
    pub failed: bool,
    /// most reads the specification may need for an ordinary case
    pub budget: u64,
}

pub struct Model {
    pub r: R,
    pub reach: usize,
    pub reads: u64,
    pub conv_fail: bool,
    /// where a conversion failed: does passing it over, as peek does, lead to a repetition of nothing?
    pub lax_zero: Option<bool>,
    /// the end of the input was met
    pub end_seen: bool,
}

impl Model {
    /// A repetition of nothing is met, as far as the specification is concerned
    pub fn may_panic(&self, op: Op) -> bool {
        self.r == R::Zero || op == Op::Peek && self.lax_zero == Some(true)
    }
    pub fn must_panic(&self, op: Op) -> bool {
        self.r == R::Zero && !(op == Op::Peek && self.lax_zero == Some(false))
    }
}

pub fn show(input: &[u32], kind: Kind) -> String {
    let mut s = match kind {
        Kind::Text => format!("{:?}", input.iter().map(|c| crate::model::ch(*c)).collect::<String>()),
        _ if input.iter().all(|c| (0x20..0x7f).contains(c)) => {
            format!("b{:?}", input.iter().map(|c| crate::model::ch(*c)).collect::<String>())
        }
        _ => format!("{:?}", input),
    };
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

impl<'a> Case<'a> {
    /// What the specification says about this input. None: too much work to say
    pub fn model(&mut self, input: &[u32]) -> Option<Model> {
        let mut cx = Cx::new(input);
        cx.fuel = if self.i % 40 == 7 && !self.args.small { self.budget * 20 } else { self.budget };
        // a long input may take long, but one that is tried again and again may not
        cx.fuel = cx.fuel.min(100_000.max(150 * input.len() as u64)).min(2_000_000);
        let r = cx.run(self.g, 0);
        self.cov.evals += 1;
        if cx.out_of_fuel {
            self.cov.skipped += 1;
            return None;
        }
        self.cov.ev.resize(Ev::COUNT_ as usize, 0);
        for (a, b) in self.cov.ev.iter_mut().zip(cx.ev.iter()) {
            *a += b;
        }
        match r {
            R::Ok(..) => self.cov.accept += 1,
            R::Err(_) => self.cov.reject += 1,
            R::Zero => self.cov.zero += 1,
        }
        self.cov.elements += input.len() as u64;
        if cx.reach >= 2 {
            let mut h = crate::rng::hash_str(self.e.name);
            for c in input {
                h = crate::rng::mix(h ^ u64::from(*c));
            }
            self.cov.distinct.insert(h);
        }
        if self.cov.samples.len() < 2 && cx.reach >= 3 {
            self.cov.samples.push(format!("{} on {}", self.e.name, show(&input[..input.len().min(80)], self.e.kind)));
        }
        let mut reads = cx.reads;
        let mut lax_zero = None;
        if cx.ev[Ev::conv_fail as usize] > 0 {
            // peek does not convert, and may go on
            let mut cy = Cx::new(input);
            cy.fuel = cx.fuel;
            cy.lenient = true;
            lax_zero = Some(cy.run(self.g, 0) == R::Zero);
            if cy.out_of_fuel {
                self.cov.skipped += 1;
                return None;
            }
            reads += cy.reads;
        }
        Some(Model {
            r,
            reach: cx.reach,
            reads,
            conv_fail: cx.ev[Ev::conv_fail as usize] > 0,
            end_seen: cx.end_seen,
            lax_zero,
        })
    }

    /// Runs the real parser. On the monitoring buffer first, where it runs out of steps instead of hanging
    pub fn observe(&mut self, m: &Model, input: &[u32], how: &How, op: Op) -> Obs {
        let e = self.e;
        if how.endless && (m.end_seen || m.conv_fail) {
            // that would be another input
            let how = How { endless: false, ..how.clone() };
            return self.observe_as(e, m.reads, input, &how, op);
        }
        if how.endless {
            self.cov.add("executions on an endless source", 1);
        }
        self.observe_as(e, m.reads, input, how, op)
    }
    pub fn observe_as(&mut self, e: &Entry, reads: u64, input: &[u32], how: &How, op: Op) -> Obs {
        self.cov.execs += 1;
        crate::exec::set_limit(10_000 + 64 * reads + 2 * (input.len() + how.pre.len()) as u64);
        if HAVE_MON && !how.mon {
            let mon = How { mon: true, ..How::default() };
            let o = exec_dyn(e, input, &mon, if op == Op::Peek { Op::Peek } else { Op::Parse });
            if o.out == Out::Hang {
                return o;
            }
        }
        exec_dyn(e, input, how, op)
    }

    /// Is this what the specification says?
    pub fn judge(&mut self, m: &Model, input: &[u32], how: &How, op: Op, o: &Obs) {
        let ok = match (&m.r, &o.out) {
            (R::Ok(v, end), Out::Ok(w)) => v == w && o.used == Some(*end),
            (R::Ok(_, end), Out::Yes) => o.used == Some(*end),
            (R::Err(_), Out::Fail) => true,
            (R::Zero, Out::Panic(_)) => true,
            _ => false,
        };
        if op == Op::Peek && m.conv_fail {
            // peek does not convert
            match o.out {
                Out::Panic(_) if m.may_panic(op) => return,
                Out::Panic(_) | Out::Hang => {}
                _ => return,
            }
        }
        if !ok {
            let want = match &m.r {
                R::Ok(v, end) if op == Op::Parse => format!("Ok({:?}) consuming {}", v, end),
                R::Ok(_, end) => format!("true consuming {}", end),
                R::Err(_) => "failure".to_string(),
                R::Zero => "a panic for matching nothing".to_string(),
            };
            let got = o.brief();
            self.fail(input, format!("{:?} {}: got {}, expected {}", op, brief(how), got, want));
        }
        self.lawful(input, how, op, o);
    }
    /// Anything wrong whatever the parser?
    pub fn lawful(&mut self, input: &[u32], how: &How, op: Op, o: &Obs) {
        if let Some(b) = o.bad.first() {
            let b = b.clone();
            self.fail(input, format!("{:?} {}: {}", op, brief(how), b));
        }
    }
    pub fn fail(&mut self, input: &[u32], msg: String) {
        self.failed = true;
        if self.cov.violations.len() < 5 {
            self.cov.violations.push(Violation {
                entry: self.e.name.to_string(),
                case: self.i,
                input: show(input, self.e.kind),
                msg,
                decl: self.e.decl.to_string(),
            });
        }
    }
}
pub fn brief(how: &How) -> String {
    if *how == How::default() {
        return String::new();
    }
    format!(
        "[{} depth {} after {}{}{}]",
        if how.mon { "monitor buffer" } else { "Buf" },
        how.depth,
        how.pre.len(),
        if how.ff { " by fast_forward" } else { "" },
        if how.look > 0 { format!(" looked ahead {}", how.look) } else { String::new() }
    ) + if how.endless { " of more than can be read" } else { "" }
}

thread_local! {
    pub static LOUD: Cell<bool> = Cell::new(true);
    static REAL: Cell<Option<&'static AtomicBool>> = Cell::new(None);
}

/// Whether this thread is in the code under test, or in the harness
pub fn in_real(yes: bool) {
    LOUD.with(|l| l.set(!yes));
    REAL.with(|r| {
        if let Some(r) = r.get() {
            r.store(yes, Ordering::SeqCst)
        }
    });
}

/// Processor time of this process
fn cpu_secs() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s[s.rfind(')').map_or(0, |i| i + 1)..].split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) / 100
}

pub struct Heart {
    pub beats: AtomicU64,
    pub busy: AtomicBool,
    pub real: AtomicBool,
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: 1,
        cases: 100,
        threads: 8,
        time: 600,
        out: String::new(),
        dir: ".".into(),
        only: None,
        digests: None,
        stall: 60,
        cpu: 0,
        shuffle: 0,
        small: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--prop" => a.prop = v,
            "--seed" => a.seed = v.parse().expect("seed"),
            "--cases" => a.cases = v.parse().expect("cases"),
            "--threads" => a.threads = v.parse().expect("threads"),
            "--time" => a.time = v.parse().expect("time"),
            "--stall" => a.stall = v.parse().expect("stall"),
            "--cpu" => a.cpu = v.parse().expect("cpu"),
            "--shuffle" => a.shuffle = v.parse().expect("shuffle"),
            "--small" => a.small = v == "1",
            "--out" => a.out = v,
            "--dir" => a.dir = v,
            "--digests" => a.digests = Some(v),
            "--only" => {
                let at = v.rfind(':').expect("entry:case");
                a.only = Some((v[..at].to_string(), v[at + 1..].parse().expect("case")));
            }
            _ => panic!("unknown argument {}", k),
        }
    }
    a
}

const CHUNK: usize = 50;

pub fn main(entries: Vec<Entry>) {
    // errors would otherwise capture one each
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: &'static Args = Box::leak(Box::new(args()));
    let entries: &'static [Entry] = Box::leak(entries.into_boxed_slice());
    std::panic::set_hook(Box::new(|i| {
        if LOUD.with(Cell::get) {
            eprintln!("harness: {}", i);
        }
    }));
    let begin = Instant::now();
    let check = checks::find(&a.prop);
    // work items: an entry (or the first of a group) and a range of cases
    let mut items: Vec<(Vec<&'static Entry>, usize, usize)> = vec![];
    let mut units: Vec<Vec<&'static Entry>> = vec![];
    for e in entries {
        if check.groups && !e.group.is_empty() {
            match units.iter_mut().find(|u| u[0].group == e.group) {
                Some(u) => u.push(e),
                None => units.push(vec![e]),
            }
        } else {
            units.push(vec![e]);
        }
    }
    if check.groups {
        units.retain(|u| u.len() > 1);
    }
    let unit_count = units.len();
    match &a.only {
        Some((name, case)) => {
            for u in units {
                if u[0].name == name {
                    items.push((u, *case, *case + 1));
                }
            }
        }
        None => {
            let mut at = 0;
            while at < a.cases {
                let to = (at + CHUNK).min(a.cases);
                for u in &units {
                    items.push((u.clone(), at, to));
                }
                at = to;
            }
        }
    }
    if a.shuffle > 0 {
        let mut r = Rng::new(a.shuffle, "order");
        for i in (1..items.len()).rev() {
            let j = r.below(i + 1);
            items.swap(i, j);
        }
    }
    let total = items.len();
    let items: &'static Vec<(Vec<&'static Entry>, usize, usize)> = Box::leak(Box::new(items));
    let next: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let all: &'static Mutex<Cov> = Box::leak(Box::new(Mutex::new(Cov::default())));
    let threads = a.threads.min(items.len()).max(1);
    let hearts: &'static Vec<Heart> = Box::leak(Box::new(
        (0..threads)
            .map(|_| Heart {
                beats: AtomicU64::new(0),
                busy: AtomicBool::new(false),
                real: AtomicBool::new(false),
            })
            .collect(),
    ));
    // how many units have been found at fault already (each is worth a few reports only)
    let mut handles = vec![];
    for t in 0..threads {
        let h = std::thread::Builder::new()
            .name(format!("w{}", t))
            .stack_size(1 << 30)
            .spawn(move || {
                let file = std::fs::File::create(format!("{}/current.{}", a.dir, t)).expect("current-case file");
                let mut cov = Cov::default();
                let heart = &hearts[t];
                REAL.with(|r| r.set(Some(&heart.real)));
                in_real(false);
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= items.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if begin.elapsed().as_secs() > a.time {
                        cov.add("work items not begun for want of time", 1);
                        continue;
                    }
                    let (unit, from, to) = &items[k];
                    let e = unit[0];
                    let g = (e.g)();
                    let g = g.force();
                    let mut s = Sampler::new(&g, e.kind);
                    for i in *from..*to {
                        let line = format!("{}:{}\n", e.name, i);
                        let _ = file.write_all_at(line.as_bytes(), 0);
                        heart.beats.fetch_add(1, Ordering::SeqCst);
                        heart.busy.store(true, Ordering::SeqCst);
                        let mut c = Case {
                            args: a,
                            e,
                            group: unit,
                            all: entries,
                            g: &g,
                            s: &mut s,
                            r: Rng::new(a.seed, &format!("{}/{}/{}", a.prop, e.name, i)),
                            i,
                            cov: &mut cov,
                            failed: false,
                            budget: if a.small { 1_500 } else { 25_000 },
                        };
                        (check.run)(&mut c);
                        heart.busy.store(false, Ordering::SeqCst);
                    }
                    if cov.violations.len() >= 5 {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
                all.lock().unwrap().merge(cov);
            })
            .expect("thread");
        handles.push(h);
    }
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, Instant)> = hearts.iter().map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::SeqCst) {
                return;
            }
            for (h, s) in hearts.iter().zip(seen.iter_mut()) {
                let b = h.beats.load(Ordering::SeqCst);
                if b != s.0 || !h.busy.load(Ordering::SeqCst) {
                    *s = (b, Instant::now());
                } else if s.1.elapsed().as_secs() > a.stall || (a.cpu > 0 && cpu_secs() > a.cpu) {
                    let real = h.real.load(Ordering::SeqCst);
                    eprintln!("a case has not returned for {} s{}", s.1.elapsed().as_secs(), if real { "" } else { ", in the harness" });
                    std::process::exit(if real { 98 } else { 96 });
                }
            }
        }
    });
    let mut broken = false;
    for h in handles {
        broken |= h.join().is_err();
    }
    done.store(true, Ordering::SeqCst);
    if broken {
        eprintln!("the harness itself panicked");
        std::process::exit(3);
    }
    let cov = std::mem::take(&mut *all.lock().unwrap());
    if let Some(p) = &a.digests {
        let mut d = cov.digests.clone();
        d.sort();
        let mut f = std::io::BufWriter::new(std::fs::File::create(p).expect("digest file"));
        for (e, i, x) in d {
            writeln!(f, "{} {} {:016x}", e, i, x).expect("digest");
        }
    }
    let s = report(a, &cov, entries.len(), unit_count, total, begin.elapsed().as_secs_f64());
    if a.out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&a.out, s).expect("result file");
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(a: &Args, c: &Cov, entries: usize, units: usize, items: usize, secs: f64) -> String {
    let mut ev = vec![];
    for (i, n) in EV_NAMES.iter().enumerate() {
        let v = c.ev.get(i).copied().unwrap_or(0);
        ev.push(format!("{}:{}", esc(n), v));
    }
    let extra: Vec<String> = c.extra.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let maxes: Vec<String> = c.maxes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let step = (c.samples.len() / 12).max(1);
    let samples: Vec<String> = c.samples.iter().step_by(step).take(12).map(|s| esc(s)).collect();
    let vs: Vec<String> = c
        .violations
        .iter()
        .take(20)
        .map(|v| {
            format!(
                "{{\"entry\":{},\"case\":{},\"input\":{},\"msg\":{},\"decl\":{}}}",
                esc(&v.entry),
                v.case,
                esc(&v.input),
                esc(&v.msg),
                esc(&v.decl)
            )
        })
        .collect();
    format!(
        "{{\"prop\":{},\"seed\":{},\"entries\":{},\"units\":{},\"items\":{},\"evals\":{},\"execs\":{},\"distinct\":{},\"accept\":{},\"reject\":{},\"zero\":{},\"elements\":{},\"skipped\":{},\"secs\":{:.2},\"mon\":{},\"debug\":{},\"ev\":{{{}}},\"extra\":{{{}}},\"maxes\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        esc(&a.prop), a.seed, entries, units, items, c.evals, c.execs, c.distinct.len(), c.accept, c.reject, c.zero,
        c.elements, c.skipped, secs, HAVE_MON, cfg!(debug_assertions),
        ev.join(","), extra.join(","), maxes.join(","), samples.join(","), vs.join(",")
    )
}
