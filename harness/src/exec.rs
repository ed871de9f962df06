//! Runs one parser on one input under observation.
use crate::m::M;
use crate::tok::{ledger, Elem};
use crate::val::V;
use nommy::{Buf, Buffer, Cursor};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Parse,
    Peek,
    /// nommy::parse_terminated
    Term,
    /// nommy::parse
    Free,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct How {
    /// over the monitoring buffer instead of Buf
    pub mon: bool,
    /// elements before the input, to be consumed beforehand, a part of them on each level
    pub pre: Vec<u32>,
    /// cursors between the buffer and the parser
    pub depth: usize,
    /// elements of the input looked at beforehand
    pub look: usize,
    /// skip `pre` with fast_forward instead of next
    pub ff: bool,
    /// what the source says of its length, all of it true
    pub hint: u8,
    /// the source goes on for ever after the input (which is not looked beyond)
    pub endless: bool,
}
/// What an endless source goes on with
pub const MORE: u32 = 0x7e;

fn hint(kind: u8, endless: bool, n: usize) -> (usize, Option<usize>) {
    match (kind, endless) {
        (0, _) => (0, None),
        (1, true) => (usize::MAX, None),
        (_, true) => (n, None),
        (1, false) => (n, Some(n)),
        (2, false) => (n / 2, Some(n.saturating_mul(2))),
        (3, false) => (0, Some(n)),
        _ => (n, None),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(V),
    /// peek succeeded
    Yes,
    Fail,
    Panic(String),
    /// ran out of its budget of steps
    Hang,
}
impl Out {
    pub fn good(&self) -> bool {
        matches!(self, Out::Ok(_) | Out::Yes)
    }
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub out: Out,
    pub used: Option<usize>,
    pub chain: Vec<String>,
    pub pulled: usize,
    pub polls_after_end: u64,
    pub steps: u64,
    /// elements (and copies) alive once the parser had returned and its value was dropped
    pub kept: i64,
    /// most elements alive while the parser ran
    pub peak: i64,
    /// observations that are wrong whatever the parser
    pub bad: Vec<String>,
}
impl Obs {
    pub fn digest(&self) -> u64 {
        // not `pulled`, which debug and release builds may legitimately differ in
        crate::rng::hash_str(&format!("{:?} {:?} {:?}", self.out, self.used, self.chain))
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{:?}", self.out);
        if s.len() > 900 {
            let cut = (0..=900).rev().find(|i| s.is_char_boundary(*i)).unwrap();
            s.truncate(cut);
            s.push_str("...");
        }
        match self.used {
            Some(n) => s + &format!(" consuming {}", n),
            None => s + &format!(" {:?}", self.chain),
        }
    }
}

pub struct Budget;
pub struct Injected;

thread_local! {
    static STEPS: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
    static FAULTS: Cell<u64> = Cell::new(0);
    static FAULT_AT: Cell<u64> = Cell::new(u64::MAX);
}

/// A step at the interface to the source or to the monitoring buffer
pub fn step() {
    let n = STEPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(Cell::get) && !std::thread::panicking() {
        panic_any(Budget);
    }
}
pub fn set_limit(n: u64) {
    LIMIT.with(|c| c.set(n));
}
/// A place where user code may panic
pub fn fault_point() {
    let n = FAULTS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == FAULT_AT.with(Cell::get) && !std::thread::panicking() {
        panic_any(Injected);
    }
}
pub fn arm(at: u64) {
    FAULTS.with(|c| c.set(0));
    FAULT_AT.with(|c| c.set(at));
}
pub fn faults() -> u64 {
    FAULTS.with(Cell::get)
}

#[derive(Default)]
pub struct Stats {
    pub pulled: Cell<usize>,
    pub after_end: Cell<u64>,
    /// an endless source ends all the same from here on
    pub stop: Cell<bool>,
}

/// The source: counts what is asked of it
pub struct Src<T> {
    codes: Rc<[u32]>,
    at: usize,
    hint: u8,
    endless: bool,
    pub stats: Rc<Stats>,
    _t: std::marker::PhantomData<T>,
}
impl<T> Src<T> {
    pub fn new(codes: Rc<[u32]>, hint: u8, endless: bool) -> Self {
        Src {
            codes,
            at: 0,
            hint,
            endless,
            stats: Default::default(),
            _t: std::marker::PhantomData,
        }
    }
}
impl<T: Elem> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        step();
        fault_point();
        match self.codes.get(self.at) {
            Some(c) => {
                self.at += 1;
                self.stats.pulled.set(self.at);
                Some(T::of(*c))
            }
            None if self.endless && !self.stats.stop.get() => {
                self.at += 1;
                self.stats.pulled.set(self.at);
                Some(T::of(MORE))
            }
            None => {
                self.stats.after_end.set(self.stats.after_end.get() + 1);
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.endless && !self.stats.stop.get(), self.codes.len().saturating_sub(self.at))
    }
}

/// Another lawful Buffer: everything is there from the start, and every request is counted
pub struct MonBuf<T> {
    codes: Rc<[u32]>,
    at: usize,
    hint: u8,
    endless: bool,
    stats: Rc<Stats>,
    _t: std::marker::PhantomData<T>,
}
impl<T> MonBuf<T> {
    pub fn new(codes: Rc<[u32]>, hint: u8, endless: bool, stats: Rc<Stats>) -> Self {
        MonBuf {
            codes,
            at: 0,
            hint,
            endless,
            stats,
            _t: std::marker::PhantomData,
        }
    }
}
impl<T: Elem> Iterator for MonBuf<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        step();
        let c = self.get(self.at)?;
        self.at += 1;
        Some(T::of(c))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.goes_on(), self.codes.len().saturating_sub(self.at))
    }
}
impl<T> MonBuf<T> {
    fn goes_on(&self) -> bool {
        self.endless && !self.stats.stop.get()
    }
    fn get(&self, i: usize) -> Option<u32> {
        match self.codes.get(i) {
            Some(c) => Some(*c),
            None if self.goes_on() => Some(MORE),
            None => None,
        }
    }
}
#[cfg(nommy_monitor)]
impl<T: Elem> Buffer<T> for MonBuf<T> {
    type CursorBase = Self;
    fn cursor(&mut self) -> Cursor<T, Self> {
        Cursor::monitor_over(self)
    }
    fn fast_forward(&mut self, n: usize) {
        step();
        self.at = self.at.saturating_add(n);
        if !self.goes_on() {
            self.at = self.at.min(self.codes.len());
        }
    }
    fn peek_ahead(&mut self, i: usize) -> Option<T> {
        step();
        self.get(self.at.checked_add(i)?).map(T::of)
    }
}
pub const HAVE_MON: bool = cfg!(nommy_monitor);

struct Cxt<'a> {
    /// pre + input
    all: &'a [u32],
    how: &'a How,
    op: Op,
    stats: Rc<Stats>,
    obs: RefCell<Obs>,
}
impl<'a> Cxt<'a> {
    fn bad(&self, s: String) {
        let mut o = self.obs.borrow_mut();
        if o.bad.len() < 5 {
            o.bad.push(s);
        }
    }
    fn part(&self, level: usize) -> usize {
        let n = self.how.pre.len();
        let parts = self.how.depth + 1;
        n * (level + 1) / parts - n * level / parts
    }

    fn skip<T: Elem, B: Buffer<T>>(&self, b: &mut B, level: usize, at: usize) -> usize {
        let n = self.part(level);
        if self.how.ff {
            b.fast_forward(n);
        } else {
            for i in 0..n {
                let got = b.next().map(|t| t.code());
                let want = self.all.get(at + i).copied();
                if got != want {
                    self.bad(format!("level {}: element {} is {:?}, not {:?}", level, at + i, got, want));
                }
            }
        }
        at + n
    }

    fn expect<T: Elem, B: Buffer<T>>(&self, b: &mut B, at: usize, who: &str) {
        for i in 0..=self.all.len() - at {
            if at + i == self.all.len() && self.stats.pulled.get() > self.all.len() {
                break;
            }
            let got = b.next().map(|t| t.code());
            let want = self.all.get(at + i).copied();
            if got != want {
                self.bad(format!("{}: element {} is {:?}, not {:?}", who, at + i, got, want));
                return;
            }
        }
    }

    /// Runs the parser on `b`, which is at `at`. Returns where it has got to, if it parsed
    fn run<T: Elem, P: M<T>, B: Buffer<T>>(&self, b: &mut B, at: usize) -> Option<usize> {
        if self.how.look > 0 && (!self.how.endless || at + self.how.look <= self.all.len()) {
            let i = self.how.look - 1;
            let got = b.peek_ahead(i).map(|t| t.code());
            let want = self.all.get(at + i).copied();
            if got != want {
                self.bad(format!("peek_ahead({}) is {:?}, not {:?}", i, got, want));
            }
        }
        crate::tok::ledger_mark();
        let before = STEPS.with(Cell::get);
        let polls = self.stats.after_end.get();
        match self.op {
            Op::Peek => {
                let yes = P::peek(b);
                self.obs.borrow_mut().out = if yes { Out::Yes } else { Out::Fail };
            }
            _ => match P::parse(b) {
                Ok(p) => {
                    let v = p.v();
                    self.obs.borrow_mut().out = Out::Ok(v);
                }
                Err(e) => {
                    let chain = e.chain().map(|e| e.to_string()).collect();
                    let mut o = self.obs.borrow_mut();
                    o.out = Out::Fail;
                    o.chain = chain;
                }
            },
        }
        {
            let mut o = self.obs.borrow_mut();
            o.kept = crate::tok::toks().0;
            o.steps = STEPS.with(Cell::get) - before;
            o.pulled = self.stats.pulled.get();
            o.polls_after_end = self.stats.after_end.get() - polls;
            o.peak = crate::tok::toks().1;
            self.stats.stop.set(true);
            if !o.out.good() {
                return None;
            }
        }
        // what is left must be a suffix of the input
        let beyond = self.stats.pulled.get().saturating_sub(self.all.len());
        let mut rest = vec![];
        while let Some(t) = b.next() {
            rest.push(t.code());
            if rest.len() > self.all.len() + beyond {
                break;
            }
        }
        rest.truncate(rest.len().saturating_sub(beyond));
        if self.all[at.min(self.all.len())..].ends_with(&rest) {
            let used = self.all.len() - at - rest.len();
            self.obs.borrow_mut().used = Some(used);
            Some(at + used)
        } else {
            self.bad(format!("what is left, {:?}, is not the rest of the input", rest));
            None
        }
    }

    fn cursors<T: Elem, P: M<T>, B: Buffer<T>>(&self, c: &mut Cursor<T, B>, level: usize, at: usize) {
        let here = self.skip(c, level, at);
        if Cursor::position(c) != here - at {
            self.bad(format!("level {}: position {} after {} elements", level, Cursor::position(c), here - at));
        }
        if level < self.how.depth {
            self.cursors::<T, P, _>(&mut c.cursor(), level + 1, here);
            if Cursor::position(c) != here - at {
                self.bad(format!("level {}: a child cursor moved it", level));
            }
            let got = c.peek_ahead(0).map(|t| t.code());
            let known = here < self.all.len() || self.stats.pulled.get() <= self.all.len();
            if known && got != self.all.get(here).copied() {
                self.bad(format!("level {}: after a child cursor, element {} is {:?}", level, here, got));
            }
        } else {
            let before = Cursor::position(c);
            let end = self.run::<T, P, _>(c, here);
            // `run` has read the rest as well
            if end.is_some() && self.stats.pulled.get() <= self.all.len() && Cursor::position(c) - before != self.all.len() - here {
                self.bad(format!(
                    "position moved by {} over {} elements",
                    Cursor::position(c) - before,
                    self.all.len() - here
                ));
            }
        }
    }
    fn root<T: Elem, P: M<T>, B: Buffer<T>>(&self, b: &mut B) {
        let here = self.skip(b, 0, 0);
        if self.how.depth == 0 {
            self.run::<T, P, _>(b, here);
        } else {
            self.cursors::<T, P, _>(&mut b.cursor(), 1, here);
            self.expect(b, here, "the buffer after a cursor was parsed from");
        }
    }
}

/// All that `P` does to `input`
pub fn exec<T: Elem, P: M<T>>(input: &[u32], how: &How, op: Op) -> Obs {
    let mut all = how.pre.clone();
    all.extend_from_slice(input);
    let codes: Rc<[u32]> = all.clone().into();
    let endless = how.endless && !matches!(op, Op::Term | Op::Free);
    let src = Src::<T>::new(codes.clone(), how.hint, endless);
    let stats = src.stats.clone();
    let cx = Cxt {
        all: &all,
        how,
        op,
        stats: stats.clone(),
        obs: RefCell::new(Obs {
            out: Out::Fail,
            used: None,
            chain: vec![],
            pulled: 0,
            polls_after_end: 0,
            steps: 0,
            kept: 0,
            peak: 0,
            bad: vec![],
        }),
    };
    crate::tok::ledger_reset();
    STEPS.with(|c| c.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if op == Op::Term || op == Op::Free {
            let r: nommy::eyre::Result<P> = if op == Op::Term {
                nommy::parse_terminated(src)
            } else {
                nommy::parse(src)
            };
            match r {
                Ok(p) => cx.obs.borrow_mut().out = Out::Ok(p.v()),
                Err(e) => cx.obs.borrow_mut().chain = e.chain().map(|e| e.to_string()).collect(),
            }
            return;
        }
        #[cfg(nommy_monitor)]
        {
            if how.mon {
                drop(src);
                let mut b = MonBuf::<T>::new(codes, how.hint, endless, stats.clone());
                cx.root::<T, P, _>(&mut b);
                return;
            }
        }
        let mut b = Buf::new(src);
        cx.root::<T, P, _>(&mut b);
    }));
    let mut obs = cx.obs.into_inner();
    if op == Op::Term || op == Op::Free {
        obs.pulled = stats.pulled.get();
        obs.polls_after_end = stats.after_end.get();
    }
    if let Err(e) = r {
        obs.used = None;
        obs.chain = vec![];
        obs.out = if e.is::<Budget>() {
            Out::Hang
        } else if e.is::<Injected>() {
            Out::Panic("injected".into())
        } else if let Some(s) = e.downcast_ref::<&'static str>() {
            Out::Panic((*s).to_string())
        } else if let Some(s) = e.downcast_ref::<String>() {
            Out::Panic(s.clone())
        } else {
            Out::Panic("?".into())
        };
    }
    let (live, _, bad) = ledger();
    if live != 0 {
        obs.bad.push(format!("{} values were never dropped (negative: dropped twice)", live));
    }
    if bad != 0 {
        obs.bad.push(format!("{} drops or uses of something that was not a live value", bad));
    }
    obs
}

/// Runs an entry's parser, with panics kept quiet
pub fn exec_dyn(e: &crate::engine::Entry, input: &[u32], how: &How, op: Op) -> Obs {
    crate::engine::in_real(true);
    let o = (e.exec)(input, how, op);
    crate::engine::in_real(false);
    o
}
