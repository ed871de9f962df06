//! The specification: a grammar and a plain recursive-descent interpreter over a slice.
//! It has no buffers, cursors or peeking, and shares no code with nommy.
use crate::val::V;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Text,
    Bytes,
    Tok,
}

pub type Conv = fn(V) -> Option<V>;

#[derive(Clone)]
pub enum G {
    Tag(Vec<u32>, Kind),
    OneOf(Vec<u32>, Kind),
    AnyOf(Vec<u32>),
    AnyOf1(Vec<u32>),
    WhileNot1(Vec<u32>),
    LineEnding,
    Space,
    WhiteSpace,
    /// matches the end of the input, consuming nothing
    Eof,
    /// matches anything, consuming nothing
    Nothing,
    Never,
    Opt(Rc<G>),
    Many(Rc<G>),
    Many1(Rc<G>),
    Arr(usize, Rc<G>),
    /// user parser that converts the value itself, failing to parse if it cannot
    Map(Rc<G>, Conv),
    List(Rc<LDef>),
    Struct(Rc<SDef>),
    Enum(Rc<EDef>),
    Lazy(fn() -> G),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trail {
    No,
    Yes,
    Maybe,
}

pub struct LDef {
    pub p: G,
    pub conv: Conv,
    pub sep: Option<G>,
    pub trail: Trail,
    pub max: usize,
    pub ignore: Vec<G>,
}

pub enum FV {
    Plain(G, Conv),
    List {
        p: G,
        conv: Conv,
        sep: Option<G>,
        trail: Trail,
    },
}

pub struct FDef {
    pub name: &'static str,
    pub prefix: Option<G>,
    pub suffix: Option<G>,
    pub val: FV,
}

pub struct SDef {
    pub name: &'static str,
    pub ignore: Vec<G>,
    pub prefix: Option<G>,
    pub suffix: Option<G>,
    pub fields: Vec<FDef>,
}

pub struct EDef {
    pub name: &'static str,
    pub ignore: Vec<G>,
    pub prefix: Option<G>,
    pub suffix: Option<G>,
    pub variants: Vec<SDef>,
}

pub fn id(v: V) -> Option<V> {
    Some(v)
}

thread_local! {
    static LAZY: std::cell::RefCell<std::collections::HashMap<usize, G>> = Default::default();
}

impl G {
    /// Expands a lazily given grammar (once per thread)
    pub fn force(&self) -> G {
        let mut g = self.clone();
        while let G::Lazy(f) = g {
            let hit = LAZY.with(|l| l.borrow().get(&(f as usize)).cloned());
            g = match hit {
                Some(h) => h,
                None => {
                    let made = f();
                    LAZY.with(|l| l.borrow_mut().insert(f as usize, made.clone()));
                    made
                }
            };
        }
        g
    }
}

/// What an error has to say: from the outside in, each entry is one message of the chain,
/// and every needle has to occur in it
pub type Chain = Vec<Vec<String>>;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(V, usize),
    Err(Chain),
    /// a zero-width repetition that debug builds report by panicking
    Zero,
}

macro_rules! events {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum Ev { $($name),*, COUNT_ }
        pub const EV_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
events!(
    tag_ok, tag_partial, tag_fail, one_ok, one_fail, run_empty, run_ok, run_long, run_to_eof,
    crlf, cr_alone, opt_some, opt_none, opt_none_after_reading, many_0, many_1, many_more, many_100,
    many_stop_after_reading, arr_ok, arr_fail_midway, struct_ok, struct_fail, prefix_fail, suffix_fail,
    field_fail, conv_fail, variant_first, variant_later, variant_fail_after_reading, enum_none,
    ignored_token, ignore_fail_after_reading, ignore_second_type, list_empty, list_some, list_max,
    sep_without_element, sep_fail_after_reading, trailing_sep_taken, trailing_sep_missing, zero_width,
);

pub struct Cx<'a> {
    pub t: &'a [u32],
    /// one past the furthest element looked at
    pub reach: usize,
    pub reads: u64,
    pub end_seen: bool,
    pub fuel: u64,
    pub out_of_fuel: bool,
    pub depth: usize,
    pub ev: [u64; Ev::COUNT_ as usize],
    /// places on the current path where ignored tokens may be skipped: (position, ignore types)
    pub bounds: Vec<(usize, Vec<G>)>,
    pub trace_bounds: bool,
    /// conversions that are impossible are passed over, as peek does
    pub lenient: bool,
}

impl<'a> Cx<'a> {
    pub fn new(t: &'a [u32]) -> Self {
        Cx {
            t,
            reach: 0,
            reads: 0,
            end_seen: false,
            fuel: 3_000_000,
            out_of_fuel: false,
            depth: 0,
            ev: [0; Ev::COUNT_ as usize],
            bounds: vec![],
            trace_bounds: false,
            lenient: false,
        }
    }
    fn e(&mut self, e: Ev) {
        self.ev[e as usize] += 1;
    }
    fn at(&mut self, i: usize) -> Option<u32> {
        self.reads += 1;
        if i < self.t.len() {
            self.reach = self.reach.max(i + 1);
            Some(self.t[i])
        } else {
            self.end_seen = true;
            None
        }
    }

    /// Runs `g`; on failure nothing that it did shows but how far it looked
    pub fn run(&mut self, g: &G, pos: usize) -> R {
        // any recursive descent needs a stack
        if self.out_of_fuel || self.reads > self.fuel || self.depth > 20_000 {
            self.out_of_fuel = true;
            return R::Err(vec![]);
        }
        let mark = self.bounds.len();
        self.depth += 1;
        let r = self.run_(g, pos);
        self.depth -= 1;
        if let R::Err(_) = r {
            self.bounds.truncate(mark);
        }
        r
    }

    /// How much further than `pos` a failed attempt has looked: did it read more than one element?
    fn attempt(&mut self, g: &G, pos: usize) -> (R, bool) {
        let before = self.reach;
        self.reach = pos;
        let r = self.run(g, pos);
        let deep = self.reach > pos + 1;
        self.reach = self.reach.max(before);
        (r, deep)
    }

    fn run_member(&mut self, set: &[u32], pos: usize, neg: bool) -> usize {
        let mut i = pos;
        loop {
            match self.at(i) {
                Some(c) if set.contains(&c) != neg => i += 1,
                Some(_) => break,
                None => {
                    if i > pos {
                        self.e(Ev::run_to_eof);
                    }
                    break;
                }
            }
        }
        self.e(match i - pos {
            0 => Ev::run_empty,
            1..=15 => Ev::run_ok,
            _ => Ev::run_long,
        });
        i
    }

    fn run_(&mut self, g: &G, pos: usize) -> R {
        match g {
            G::Lazy(_) => {
                let g = g.force();
                self.run(&g, pos)
            }
            G::Tag(s, k) => {
                let mut same = 0;
                for (i, c) in s.iter().enumerate() {
                    if self.at(pos + i) == Some(*c) && same == i {
                        same += 1;
                    }
                }
                if same == s.len() {
                    self.e(Ev::tag_ok);
                    R::Ok(V::Unit, pos + s.len())
                } else {
                    self.e(if same > 0 { Ev::tag_partial } else { Ev::tag_fail });
                    let end = (pos + s.len()).min(self.t.len());
                    let found = &self.t[pos.min(end)..end];
                    R::Err(match k {
                        Kind::Tok => vec![vec![]],
                        k => vec![vec![show(s, *k), show(found, *k)]],
                    })
                }
            }
            G::OneOf(s, k) => match self.at(pos) {
                Some(c) if s.contains(&c) => {
                    self.e(Ev::one_ok);
                    R::Ok(V::Ch(c), pos + 1)
                }
                c => {
                    self.e(Ev::one_fail);
                    R::Err(match k {
                        Kind::Tok => vec![vec![]],
                        k => vec![vec![
                            show(s, *k),
                            match (c, k) {
                                (None, _) => "EOF".to_string(),
                                (Some(c), Kind::Text) => format!("{:?}", ch(c)),
                                (Some(c), _) => format!("{:?}", c),
                            },
                        ]],
                    })
                }
            },
            G::AnyOf(s) => {
                let end = self.run_member(s, pos, false);
                R::Ok(V::Str(self.t[pos.min(end)..end].to_vec()), end)
            }
            G::AnyOf1(s) => {
                let end = self.run_member(s, pos, false);
                if end == pos {
                    R::Err(vec![vec![]])
                } else {
                    R::Ok(V::Str(self.t[pos..end].to_vec()), end)
                }
            }
            G::WhileNot1(s) => {
                let end = self.run_member(s, pos, true);
                if end == pos {
                    R::Err(vec![vec![]])
                } else {
                    R::Ok(V::Str(self.t[pos..end].to_vec()), end)
                }
            }
            G::Space => match self.at(pos) {
                Some(0x20) | Some(0x09) => R::Ok(V::Unit, pos + 1),
                _ => R::Err(vec![vec![]]),
            },
            G::LineEnding | G::WhiteSpace => match self.at(pos) {
                Some(0x0a) => R::Ok(V::Unit, pos + 1),
                Some(0x0d) => {
                    if self.at(pos + 1) == Some(0x0a) {
                        self.e(Ev::crlf);
                        R::Ok(V::Unit, pos + 2)
                    } else {
                        self.e(Ev::cr_alone);
                        R::Err(vec![vec![]])
                    }
                }
                Some(0x20) | Some(0x09) if matches!(g, G::WhiteSpace) => R::Ok(V::Unit, pos + 1),
                _ => R::Err(vec![vec![]]),
            },
            G::Eof => match self.at(pos) {
                None => R::Ok(V::Unit, pos),
                Some(_) => R::Err(vec![vec![]]),
            },
            G::Nothing => R::Ok(V::Unit, pos),
            G::Never => R::Err(vec![vec![]]),
            G::Opt(p) => match self.attempt(p, pos) {
                (R::Ok(v, end), _) => {
                    if end == pos {
                        self.e(Ev::zero_width);
                        return R::Zero;
                    }
                    self.e(Ev::opt_some);
                    R::Ok(V::Yes(Box::new(v)), end)
                }
                (R::Err(_), deep) => {
                    self.e(if deep { Ev::opt_none_after_reading } else { Ev::opt_none });
                    R::Ok(V::No, pos)
                }
                (R::Zero, _) => R::Zero,
            },
            G::Many(p) => self.many(p, pos, vec![]),
            G::Many1(p) => match self.run(p, pos) {
                R::Ok(v, end) => self.many(p, end, vec![v]),
                r => r,
            },
            G::Arr(n, p) => {
                let mut out = vec![];
                let mut i = pos;
                for k in 0..*n {
                    match self.run(p, i) {
                        R::Ok(v, end) => {
                            out.push(v);
                            i = end;
                        }
                        R::Err(mut chain) => {
                            if k > 0 {
                                self.e(Ev::arr_fail_midway);
                            }
                            chain.insert(0, vec!["element".into(), word(&k.to_string())]);
                            return R::Err(chain);
                        }
                        R::Zero => return R::Zero,
                    }
                }
                self.e(Ev::arr_ok);
                R::Ok(V::List(out), i)
            }
            G::Map(p, f) => match self.run(p, pos) {
                R::Ok(v, end) => match f(v) {
                    Some(v) => R::Ok(v, end),
                    None if self.lenient => R::Ok(V::Seq(vec![]), end),
                    None => {
                        self.e(Ev::conv_fail);
                        R::Err(vec![vec![]])
                    }
                },
                r => r,
            },
            G::List(l) => {
                let ig: Vec<&G> = l.ignore.iter().collect();
                self.list(&l.p, l.conv, l.sep.as_ref(), l.trail, l.max, &ig, pos)
            }
            G::Struct(s) => {
                let ig: Vec<&G> = s.ignore.iter().collect();
                match self.parts(s, &ig, pos) {
                    Ok(Ok((vs, end))) => {
                        self.e(Ev::struct_ok);
                        R::Ok(V::Seq(vs), end)
                    }
                    Ok(Err(c)) => {
                        self.e(Ev::struct_fail);
                        R::Err(c)
                    }
                    Err(()) => R::Zero,
                }
            }
            G::Enum(e) => self.enum_(e, pos),
        }
    }

    fn many(&mut self, p: &G, mut pos: usize, mut out: Vec<V>) -> R {
        let start = pos;
        loop {
            match self.attempt(p, pos) {
                (R::Ok(v, end), _) => {
                    if end == pos {
                        self.e(Ev::zero_width);
                        return R::Zero;
                    }
                    out.push(v);
                    pos = end;
                }
                (R::Err(_), deep) => {
                    if deep && pos > start {
                        self.e(Ev::many_stop_after_reading);
                    }
                    break;
                }
                (R::Zero, _) => return R::Zero,
            }
        }
        self.e(match out.len() {
            0 => Ev::many_0,
            1 => Ev::many_1,
            2..=99 => Ev::many_more,
            _ => Ev::many_100,
        });
        R::Ok(V::List(out), pos)
    }

    /// Err: zero-width panic
    pub fn skip(&mut self, ignore: &[&G], mut pos: usize) -> Result<usize, ()> {
        if self.trace_bounds && !ignore.is_empty() {
            self.bounds
                .push((pos, ignore.iter().map(|g| (*g).clone()).collect()));
        }
        'outer: loop {
            for (k, g) in ignore.iter().enumerate() {
                // bounds inside of an ignored token are of no interest
                let mark = self.bounds.len();
                let (r, deep) = self.attempt(g, pos);
                self.bounds.truncate(mark);
                match r {
                    R::Ok(_, end) => {
                        if end == pos {
                            self.e(Ev::zero_width);
                            return Err(());
                        }
                        self.e(if k > 0 { Ev::ignore_second_type } else { Ev::ignored_token });
                        pos = end;
                        continue 'outer;
                    }
                    R::Err(_) => {
                        if deep {
                            self.e(Ev::ignore_fail_after_reading);
                        }
                    }
                    R::Zero => return Err(()),
                }
            }
            return Ok(pos);
        }
    }

    fn fix(
        &mut self,
        g: &Option<G>,
        what: &str,
        of: &str,
        ignore: &[&G],
        pos: usize,
    ) -> Result<Result<usize, Chain>, ()> {
        let g = match g {
            None => return Ok(Ok(pos)),
            Some(g) => g,
        };
        match self.run(g, pos) {
            R::Ok(_, end) => self.skip(ignore, end).map(Ok),
            R::Err(_) => {
                self.e(if what == "prefix" { Ev::prefix_fail } else { Ev::suffix_fail });
                let mut says = vec![what.to_string(), word(of)];
                says.extend(not(of, if what == "prefix" { &["suffix"] } else { &["prefix"] }));
                Ok(Err(vec![says]))
            }
            R::Zero => Err(()),
        }
    }

    /// Err: zero-width panic
    fn parts(
        &mut self,
        s: &SDef,
        ignore: &[&G],
        pos: usize,
    ) -> Result<Result<(Vec<V>, usize), Chain>, ()> {
        macro_rules! ok {
            ($e:expr) => {
                match $e? {
                    Ok(end) => end,
                    Err(c) => return Ok(Err(c)),
                }
            };
        }
        let mut out = vec![];
        let mut pos = ok!(self.fix(&s.prefix, "prefix", s.name, ignore, pos));
        for f in &s.fields {
            pos = ok!(self.fix(&f.prefix, "prefix", f.name, ignore, pos));
            match &f.val {
                FV::Plain(g, conv) => match self.run(g, pos) {
                    R::Ok(v, end) => match conv(v) {
                        Some(v) => {
                            out.push(v);
                            pos = self.skip(ignore, end)?;
                        }
                        None if self.lenient => pos = self.skip(ignore, end)?,
                        None => {
                            self.e(Ev::conv_fail);
                            return Ok(Err(vec![]));
                        }
                    },
                    R::Err(mut c) => {
                        self.e(Ev::field_fail);
                        let mut says = vec!["field".to_string(), word(f.name)];
                        says.extend(not(f.name, &["prefix", "suffix"]));
                        c.insert(0, says);
                        return Ok(Err(c));
                    }
                    R::Zero => return Err(()),
                },
                FV::List { p, conv, sep, trail } => {
                    match self.list(p, *conv, sep.as_ref(), *trail, usize::MAX, ignore, pos) {
                        R::Ok(v, end) => {
                            out.push(v);
                            pos = self.skip(ignore, end)?;
                        }
                        R::Err(c) => return Ok(Err(c)),
                        R::Zero => return Err(()),
                    }
                }
            }
            pos = ok!(self.fix(&f.suffix, "suffix", f.name, ignore, pos));
        }
        pos = ok!(self.fix(&s.suffix, "suffix", s.name, ignore, pos));
        Ok(Ok((out, pos)))
    }

    fn enum_(&mut self, e: &EDef, pos: usize) -> R {
        let outer: Vec<&G> = e.ignore.iter().collect();
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(Ok(end)) => end,
                    Ok(Err(c)) => return R::Err(c),
                    Err(()) => return R::Zero,
                }
            };
        }
        let pos = ok!(self.fix(&e.prefix, "prefix", e.name, &outer, pos));
        for (k, v) in e.variants.iter().enumerate() {
            let ig: Vec<&G> = v.ignore.iter().chain(e.ignore.iter()).collect();
            let before = self.reach;
            self.reach = pos;
            let mark = self.bounds.len();
            let r = self.parts(v, &ig, pos);
            let deep = self.reach > pos + 1;
            self.reach = self.reach.max(before);
            match r {
                Ok(Ok((vs, end))) => {
                    self.e(if k == 0 { Ev::variant_first } else { Ev::variant_later });
                    let end = ok!(self.fix(&e.suffix, "suffix", e.name, &outer, end));
                    return R::Ok(V::Var(k, vs), end);
                }
                Ok(Err(_)) => {
                    self.bounds.truncate(mark);
                    if deep {
                        self.e(Ev::variant_fail_after_reading);
                    }
                }
                Err(()) => return R::Zero,
            }
        }
        self.e(Ev::enum_none);
        let mut says = vec![word(e.name)];
        says.extend(not(e.name, &["prefix", "suffix"]));
        R::Err(vec![says])
    }

    #[allow(clippy::too_many_arguments)]
    fn list(
        &mut self,
        p: &G,
        conv: Conv,
        sep: Option<&G>,
        trail: Trail,
        max: usize,
        ignore: &[&G],
        mut pos: usize,
    ) -> R {
        macro_rules! skip {
            ($at:expr) => {
                match self.skip(ignore, $at) {
                    Ok(end) => end,
                    Err(()) => return R::Zero,
                }
            };
        }
        let mut out: Vec<V> = vec![];
        // where the next element is to be looked for, given that all before `pos` is taken
        let mut from = pos;
        loop {
            if out.len() == max {
                self.e(Ev::list_max);
                break;
            }
            let mark = self.bounds.len();
            let (v, end) = match self.attempt(p, from).0 {
                R::Ok(v, end) => match conv(v) {
                    Some(v) => (v, end),
                    None if self.lenient => (V::Seq(vec![]), end),
                    None => {
                        self.e(Ev::conv_fail);
                        return R::Err(vec![]);
                    }
                },
                R::Err(_) => {
                    if from != pos {
                        self.e(Ev::sep_without_element);
                    }
                    break;
                }
                R::Zero => return R::Zero,
            };
            let sep = match sep {
                None => {
                    out.push(v);
                    pos = end;
                    if out.len() == max {
                        self.e(Ev::list_max);
                        break;
                    }
                    from = skip!(end);
                    continue;
                }
                Some(sep) => sep,
            };
            if trail == Trail::No {
                out.push(v);
                pos = end;
                if out.len() == max {
                    self.e(Ev::list_max);
                    break;
                }
                let s = skip!(end);
                match self.attempt(sep, s) {
                    (R::Ok(_, s), _) => from = skip!(s),
                    (R::Err(_), deep) => {
                        if deep {
                            self.e(Ev::sep_fail_after_reading);
                        }
                        break;
                    }
                    (R::Zero, _) => return R::Zero,
                }
                continue;
            }
            let s = skip!(end);
            match self.attempt(sep, s) {
                (R::Ok(_, s), _) => {
                    self.e(Ev::trailing_sep_taken);
                    out.push(v);
                    pos = skip!(s);
                    from = pos;
                }
                (R::Err(_), deep) => {
                    if deep {
                        self.e(Ev::sep_fail_after_reading);
                    }
                    self.e(Ev::trailing_sep_missing);
                    if trail == Trail::Maybe {
                        out.push(v);
                        pos = s;
                    } else {
                        self.bounds.truncate(mark);
                    }
                    break;
                }
                (R::Zero, _) => return R::Zero,
            }
        }
        self.e(if out.is_empty() { Ev::list_empty } else { Ev::list_some });
        R::Ok(V::List(out), pos)
    }
}

/// A needle that has to occur as a whole word
fn word(s: &str) -> String {
    format!("\u{0}{}", s)
}

/// Words that would name another part
fn not<'a>(of: &'a str, words: &'a [&'static str]) -> impl Iterator<Item = String> + 'a {
    words.iter().filter(move |w| !of.contains(*w)).map(|w| format!("\u{1}{}", w))
}

/// Does the chain of messages say what it has to?
pub fn chain_says(got: &[String], want: &Chain) -> Result<(), String> {
    for (i, needles) in want.iter().enumerate() {
        let msg = match got.get(i) {
            Some(m) => m,
            None => return Err(format!("cause {} is missing, it should say {:?}", i, needles)),
        };
        for n in needles {
            if let Some(w) = n.strip_prefix('\u{1}') {
                if msg.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w) {
                    return Err(format!("cause {} is {:?}, but no {} failed", i, msg, w));
                }
                continue;
            }
            let ok = match n.strip_prefix('\u{0}') {
                None => msg.contains(n.as_str()),
                Some(w) => msg
                    .split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#'))
                    .any(|x| x == w),
            };
            if !ok {
                return Err(format!("cause {} is {:?}, it should mention {:?}", i, msg, n.trim_start_matches('\u{0}')));
            }
        }
    }
    Ok(())
}

pub fn ch(c: u32) -> char {
    std::char::from_u32(c).unwrap_or('\u{fffd}')
}

fn show(s: &[u32], k: Kind) -> String {
    match k {
        Kind::Text => format!("{:?}", s.iter().map(|c| ch(*c)).collect::<String>()),
        _ => format!("{:?}", s),
    }
}
