//! Random histories of buffer and cursor operations (C01, and the buffer part of C02).
//! Element number i of a source has code i, so that every read says where it was made.
use crate::engine::Case;
use crate::exec::{step, Stats};
use crate::rng::Rng;
use crate::tok::{ledger, ledger_reset, toks, Elem, Fat, One, Tok, Wide};
use nommy::{Buf, Buffer, Cursor, IntoBuf};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const ENDLESS: usize = usize::MAX / 4;

struct Count<T> {
    at: usize,
    len: usize,
    hint: bool,
    stats: Rc<Stats>,
    _t: std::marker::PhantomData<T>,
}
fn code(i: usize) -> u32 {
    (i % 50_000) as u32
}
impl<T: Elem> Iterator for Count<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        step();
        if self.at >= self.len {
            self.stats.after_end.set(self.stats.after_end.get() + 1);
            return None;
        }
        self.at += 1;
        self.stats.pulled.set(self.at);
        Some(T::of(code(self.at - 1)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.len - self.at;
        match (self.hint, self.len == ENDLESS) {
            (true, true) => (usize::MAX, None),
            (true, false) => (n, Some(n)),
            (false, _) => (0, None),
        }
    }
}

trait Where {
    /// position, if it is a cursor
    fn pos(&self) -> Option<usize>;
    fn reset(&mut self);
}
impl<I: Iterator> Where for Buf<I> {
    fn pos(&self) -> Option<usize> {
        None
    }
    fn reset(&mut self) {}
}
impl<T> Where for crate::exec::MonBuf<T> {
    fn pos(&self) -> Option<usize> {
        None
    }
    fn reset(&mut self) {}
}
impl<'a, T, B: Buffer<T>> Where for Cursor<'a, T, B> {
    fn pos(&self) -> Option<usize> {
        Some(Cursor::position(self))
    }
    fn reset(&mut self) {
        assert!(self.reset_internal(), "reset_internal returned false");
    }
}

struct Play {
    r: Rng,
    len: usize,
    stats: Option<Rc<Stats>>,
    /// one past the furthest element that an operation had to look at
    far: usize,
    root: usize,
    most_outstanding: usize,
    small: bool,
    counted: bool,
    /// all elements are alike
    one: bool,
    log: Vec<String>,
    ops: u64,
    kinds: [u64; 15],
    max_level: usize,
    max_kept: i64,
    wrong: Option<String>,
}
const KINDS: [&str; 15] = [
    "next", "peek_ahead", "fast_forward", "cursor", "take", "nth", "size_hint", "reset", "position",
    "fast_forward by a cursor's position", "read past the end", "fast_forward past the end",
    "find, position, any and all", "count, last, fold and collect of a cursor", "count, last, fold and collect of a buffer",
];

impl Play {
    fn wrong(&mut self, s: String) {
        if self.wrong.is_none() {
            self.wrong = Some(s);
        }
    }
    fn want(&self, i: usize) -> Option<u32> {
        if i < self.len {
            Some(if self.one { 0x61 } else { code(i) })
        } else {
            None
        }
    }
    fn looked(&mut self, i: usize) {
        self.far = self.far.max((i + 1).min(self.len));
    }
    fn note(&mut self, s: String) {
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    fn amount(&mut self, pos: usize) -> usize {
        if self.small {
            return self.r.below(4);
        }
        let ahead = self.far.saturating_sub(pos);
        if ahead > 4 && self.r.chance(1, 8) {
            // some part of what has been looked at
            return match self.r.below(6) {
                0 => ahead,
                1 => ahead - 1,
                2 => ahead + 1,
                3 => ahead / 2,
                _ => self.r.below(ahead),
            };
        }
        match self.r.below(12) {
            0..=6 => self.r.below(4),
            7..=9 => self.r.below(12),
            10 => self.r.below(80),
            _ => match self.r.below(800) {
                0 => 66_000 + self.r.below(5),
                1..=4 => 600 << self.r.below(6),
                _ => self.r.below(600),
            },
        }
    }

    /// `start`: where a cursor was made; `pos`: where `b` is. Returns where it has got to
    fn play<T: Elem, B: Buffer<T> + Where>(&mut self, b: &mut B, start: usize, level: usize, budget: &mut usize) -> usize {
        let mut pos = start;
        let is_cursor = b.pos().is_some();
        self.max_level = self.max_level.max(level);
        let mut left = if level == 0 { usize::MAX } else { 1 + self.r.below(12) };
        while *budget > 0 && left > 0 && self.wrong.is_none() {
            *budget -= 1;
            left -= 1;
            self.ops += 1;
            let n = self.amount(pos);
            let k = self.r.below(25);
            let who = if is_cursor { format!("cursor {}", level) } else { "buffer".to_string() };
            match k {
                0..=4 => {
                    let got = b.next().map(|t| t.code());
                    let want = self.want(pos);
                    self.kinds[0] += 1;
                    self.note(format!("{}.next() = {:?}", who, got));
                    if got != want {
                        self.wrong(format!("{}.next() at {} is {:?}", who, pos, got));
                    }
                    self.looked(pos);
                    if want.is_some() {
                        pos += 1;
                    } else {
                        self.kinds[10] += 1;
                    }
                }
                5..=8 => {
                    let got = b.peek_ahead(n).map(|t| t.code());
                    self.kinds[1] += 1;
                    self.note(format!("{}.peek_ahead({}) = {:?}", who, n, got));
                    if got != self.want(pos + n) {
                        self.wrong(format!("{}.peek_ahead({}) at {} is {:?}", who, n, pos, got));
                    }
                    self.looked(pos + n);
                }
                9..=11 => {
                    self.kinds[2] += 1;
                    self.note(format!("{}.fast_forward({})", who, n));
                    b.fast_forward(n);
                    if is_cursor {
                        pos += n;
                    } else {
                        if n > 0 {
                            self.looked(pos + n - 1);
                        }
                        if pos + n > self.len {
                            self.kinds[11] += 1;
                        }
                        pos = (pos + n).min(self.len);
                    }
                }
                12..=16 => {
                    self.kinds[3] += 1;
                    if level >= 6 {
                        continue;
                    }
                    self.note(format!("{}.cursor()", who));
                    let (end, moved) = {
                        let mut c = b.cursor();
                        if Cursor::position(&c) != 0 {
                            self.wrong(format!("a fresh cursor is at {}", Cursor::position(&c)));
                        }
                        let end = self.play(&mut c, pos, level + 1, budget);
                        (end, Cursor::position(&c))
                    };
                    if self.wrong.is_none() && moved != end - pos {
                        self.wrong(format!("cursor {}: position {} after moving by {}", level + 1, moved, end - pos));
                    }
                    if let Some(p) = b.pos() {
                        if p != pos - start {
                            self.wrong(format!("{}: moved to {} by a child cursor", who, p));
                        }
                    }
                    if self.r.chance(1, 2) {
                        self.kinds[9] += 1;
                        self.note(format!("{}.fast_forward(position = {})", who, moved));
                        b.fast_forward(moved);
                        if is_cursor {
                            pos += moved;
                        } else {
                            if moved > 0 {
                                self.looked(pos + moved - 1);
                            }
                            pos = (pos + moved).min(self.len);
                        }
                    }
                }
                17 => {
                    self.kinds[4] += 1;
                    let got: Vec<u32> = b.by_ref().take(n).map(|t| t.code()).collect();
                    self.note(format!("{}.by_ref().take({}) = {:?}", who, n, &got[..got.len().min(40)]));
                    for i in 0..n {
                        self.looked(pos + i);
                        if got.get(i).copied() != self.want(pos + i) {
                            self.wrong(format!("{}.take({}) at {} gives {:?} at {}", who, n, pos, got.get(i), i));
                            break;
                        }
                    }
                    pos += got.len();
                }
                18 => {
                    self.kinds[5] += 1;
                    let got = b.nth(n).map(|t| t.code());
                    self.note(format!("{}.nth({}) = {:?}", who, n, got));
                    if got != self.want(pos + n) {
                        self.wrong(format!("{}.nth({}) at {} is {:?}", who, n, pos, got));
                    }
                    self.looked(pos + n);
                    // a cursor may have skipped past the end already
                    pos = if pos >= self.len { pos } else { (pos + n + 1).min(self.len) };
                }
                19 => {
                    self.kinds[6] += 1;
                    let (lo, hi) = b.size_hint();
                    let rest = self.len.saturating_sub(pos);
                    if (self.len < ENDLESS && lo > rest) || hi.map_or(false, |h| h < rest) {
                        self.wrong(format!("{}.size_hint() is {:?} with {} to come", who, (lo, hi), rest));
                    }
                }
                22 | 23 => {
                    self.kinds[12] += 1;
                    // what they stop at
                    let stop = self.want(pos + n);
                    let what = self.r.below(4);
                    let mut seen = 0;
                    let mut hit = |t: T| {
                        seen += 1;
                        Some(t.code()) == stop && seen == n + 1
                    };
                    let (name, got, want) = match what {
                        0 => ("position", format!("{:?}", b.position(hit)), format!("{:?}", stop.map(|_| n))),
                        1 => ("any", format!("{:?}", b.any(hit)), format!("{:?}", stop.is_some())),
                        2 => ("all", format!("{:?}", b.all(|t| !hit(t))), format!("{:?}", stop.is_none())),
                        _ => {
                            let mut left = n;
                            let got = b.find(|_| {
                                left = left.wrapping_sub(1);
                                left == usize::MAX
                            });
                            ("find", format!("{:?}", got.map(|t| t.code())), format!("{:?}", stop))
                        }
                    };
                    self.note(format!("{}.{}(at {}) = {}", who, name, n, got));
                    if got != want {
                        self.wrong(format!("{}.{}(at {}) at {} is {}, not {}", who, name, n, pos, got, want));
                    }
                    self.looked(pos + n);
                    pos = if pos >= self.len { pos } else { (pos + n + 1).min(self.len) };
                }
                24 => {
                    if self.len < ENDLESS && level < 6 {
                        self.kinds[13] += 1;
                        self.looked(self.len);
                        let (what, from) = (self.r.below(4), pos);
                        self.drained(b.cursor(), what, from, &who);
                    }
                }
                20 => {
                    if is_cursor {
                        self.kinds[7] += 1;
                        self.note(format!("{}.reset_internal()", who));
                        b.reset();
                        pos = start;
                    }
                }
                _ => {}
            }
            if let Some(p) = b.pos() {
                self.kinds[8] += 1;
                if p != pos - start && self.wrong.is_none() {
                    self.wrong(format!("{}: position {} after moving by {}", who, p, pos - start));
                }
            }
            if level == 0 {
                self.root = pos;
            }
            self.observe();
        }
        pos
    }

    /// All that is left, taken in one of the ways that iterators offer
    fn drained<T: Elem>(&mut self, b: impl Iterator<Item = T>, what: usize, from: usize, who: &str) {
        let n = self.len.saturating_sub(from);
        let codes = from..from + n;
        let one = self.one;
        let code = |i| if one { 0x61 } else { code(i) };
        let (name, ok) = match what {
            0 => ("count", b.count() == n),
            1 => ("last", b.last().map(|t| t.code()) == codes.last().map(code)),
            2 => ("fold", b.fold(0, |h, t| crate::rng::mix(h ^ u64::from(t.code()))) == codes.fold(0, |h, i| crate::rng::mix(h ^ u64::from(code(i))))),
            _ => ("collect", b.map(|t| t.code()).collect::<Vec<_>>() == codes.map(code).collect::<Vec<_>>()),
        };
        self.note(format!("{}: {} of the rest", who, name));
        if !ok {
            self.wrong(format!("{}: {} of the {} elements from {} on is wrong", who, name, n, from));
        }
    }

    fn observe(&mut self) {
        let stats = match &self.stats {
            Some(s) => s.clone(),
            None => return,
        };
        let pulled = stats.pulled.get();
        if pulled > self.far && self.wrong.is_none() {
            self.wrong(format!("{} elements were pulled, when no more than {} were needed", pulled, self.far));
        }
        let outstanding = pulled.saturating_sub(self.root);
        self.most_outstanding = self.most_outstanding.max(outstanding);
        if self.counted {
            let kept = toks().0;
            self.max_kept = self.max_kept.max(kept - outstanding as i64);
            if kept > 24 + 2 * self.most_outstanding as i64 && self.wrong.is_none() {
                self.wrong(format!("{} elements are kept, with {} outstanding (never more than {})", kept, outstanding, self.most_outstanding));
            }
        }
    }
}

pub fn history(c: &mut Case) {
    let strict = c.args.prop == "C02h";
    let r = &mut c.r;
    let long = c.i % 60 == 59;
    let len = match r.below(10) {
        0 => 0,
        1 => 1,
        2..=4 => r.below(20),
        5..=7 => r.below(400),
        _ => ENDLESS,
    };
    let len = if long { ENDLESS } else { len };
    let mut budget = if long { 30_000 } else { 20 + r.size(300) };
    let kind = r.below(10);
    let mut p = Play {
        r: Rng(r.next()),
        len,
        stats: None,
        far: 0,
        root: 0,
        most_outstanding: 0,
        small: long,
        counted: false,
        one: false,
        log: vec![],
        ops: 0,
        kinds: [0; 15],
        max_level: 0,
        max_kept: 0,
        wrong: None,
    };
    ledger_reset();
    crate::exec::set_limit(u64::MAX);
    let hint = r.chance(1, 2);
    let stats: Rc<Stats> = Default::default();
    crate::engine::in_real(true);
    let name;
    let res = catch_unwind(AssertUnwindSafe(|| match kind {
        0..=2 => {
            p.stats = Some(stats.clone());
            p.counted = true;
            let mut b = Buf::new(Count::<Tok> { at: 0, len, hint, stats, _t: Default::default() });
            p.play(&mut b, 0, 0, &mut budget);
            finish(&mut p, b);
            "Buf of counted elements"
        }
        6 => {
            p.stats = Some(stats.clone());
            p.counted = true;
            let mut b = Buf::new(Count::<Fat> { at: 0, len, hint, stats, _t: Default::default() });
            p.play(&mut b, 0, 0, &mut budget);
            finish(&mut p, b);
            "Buf of large counted elements"
        }
        7 => {
            p.stats = Some(stats.clone());
            if p.r.chance(1, 2) {
                let mut b = Buf::new(Count::<Wide> { at: 0, len, hint, stats, _t: Default::default() });
                p.play(&mut b, 0, 0, &mut budget);
                finish(&mut p, b);
            } else {
                let mut b = Buf::new(Count::<(u8, u32, u8)> { at: 0, len, hint, stats, _t: Default::default() });
                p.play(&mut b, 0, 0, &mut budget);
                finish(&mut p, b);
            }
            "Buf of elements of odd size or alignment"
        }
        9 => {
            p.stats = Some(stats.clone());
            p.one = true;
            let mut b = Buf::new(Count::<One> { at: 0, len, hint, stats, _t: Default::default() });
            p.play(&mut b, 0, 0, &mut budget);
            finish(&mut p, b);
            "Buf of elements without size"
        }
        3 => {
            p.stats = Some(stats.clone());
            let mut b = Count::<char> { at: 0, len, hint, stats, _t: Default::default() }.into_buf();
            p.play(&mut b, 0, 0, &mut budget);
            finish(&mut p, b);
            "Buf of chars"
        }
        4 => {
            let n = len.min(250);
            p.len = n;
            let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
            let mut b = v.iter().cloned().into_buf();
            p.play(&mut b, 0, 0, &mut budget);
            finish(&mut p, b);
            "Buf of a slice of bytes"
        }
        _ => {
            #[cfg(nommy_monitor)]
            {
                let n = len.min(3_000);
                p.len = n;
                let v: Vec<u32> = (0..n).map(code).collect();
                let mut b = crate::exec::MonBuf::<Tok>::new(v.into(), hint as u8, false, Default::default());
                p.play(&mut b, 0, 0, &mut budget);
                finish(&mut p, b);
            }
            "cursors of another Buffer"
        }
    }));
    crate::engine::in_real(false);
    name = match res {
        Ok(n) => n,
        Err(_) => {
            p.wrong("panicked".into());
            "panicked"
        }
    };
    let (live, made, bad) = ledger();
    if p.wrong.is_none() && (live != 0 || bad != 0) {
        p.wrong(format!("{} elements never dropped, {} dropped or used that were not live", live, bad));
    }
    c.cov.evals += 1;
    c.cov.execs += 1;
    c.cov.add("operations", p.ops);
    c.cov.add("elements made and cloned", made);
    for (k, n) in KINDS.iter().zip(p.kinds.iter()) {
        c.cov.add(k, *n);
    }
    c.cov.add(name, 1);
    c.cov.max("deepest cursor", p.max_level as u64);
    c.cov.max("most elements kept beyond the outstanding", p.max_kept.max(0) as u64);
    c.cov.elements += p.far as u64;
    if p.ops >= 5 && p.kinds[3] > 0 {
        let h = p.log.iter().fold(0, |h, s| crate::rng::mix(h ^ crate::rng::hash_str(s)));
        c.cov.distinct.insert(h);
    }
    if c.cov.samples.len() < 2 {
        c.cov.samples.push(p.log.iter().take(12).cloned().collect::<Vec<_>>().join("; "));
    }
    if let Some(w) = p.wrong.take() {
        // how much is pulled and kept is the business of C02
        let demand = w.contains("pulled") || w.contains("kept");
        if strict || !demand {
            let from = p.log.len().saturating_sub(40);
            let log = p.log[from..].join("; ");
            c.fail(&[], format!("{}: {} (last operations: {})", name, w, log));
        }
    }
}

fn finish<T: Elem, B: Buffer<T>>(p: &mut Play, mut b: B) {
    if p.wrong.is_some() {
        return;
    }
    let mut pos = p.root;
    if p.len < ENDLESS && p.r.chance(1, 2) {
        p.kinds[14] += 1;
        let what = p.r.below(4);
        p.drained(b, what, pos, "the buffer");
        return;
    }
    for _ in 0..700 {
        let got = b.next().map(|t| t.code());
        if got != p.want(pos) {
            p.wrong(format!("draining: next() at {} is {:?}", pos, got));
            return;
        }
        if got.is_none() {
            return;
        }
        pos += 1;
    }
}
