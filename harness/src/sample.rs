//! Inputs: sentences of a grammar with the values they stand for, and near misses.
use crate::model::{Cx, Kind, Trail, EDef, FV, G, SDef, R};
use crate::rng::Rng;
use crate::val::V;

pub struct Sampler {
    pub kind: Kind,
    /// what the grammar mentions, and a few others
    pub alphabet: Vec<u32>,
    pub own: usize,
    /// most repetitions
    pub max: usize,
    /// how likely ignored tokens are, out of 16
    pub ignorable: usize,
    pub fuel: i64,
    /// the next repetition is of this many
    pub burst: usize,
    /// this many levels of recursion are gone down
    pub deep: usize,
    /// how much has gone into the sentence under way
    work: u64,
}

const EXTRA: &[u32] = &[
    0x61, 0x62, 0x7a, 0x30, 0x39, 0x20, 0x09, 0x0a, 0x0d, 0x2c, 0x2e, 0x00, 0x7f, 0x0b, 0x0c, 0x1a, 0x41, 0x5a, 0x5f, 0x2d, 0x35, 0x6d,
    0x4d, 0x2b, 0x25, 0x6e,
];
const TEXT_PIECES: &[&str] = &[
    "\r\n", "\r", "\n\r", "\n\n", "  ", " ", "\t", "\0", "\u{feff}", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\\n", "\\\"", "\\\\",
    "\u{85}", "\u{a0}", "\u{2028}", "\u{d7ff}\u{e000}", "\u{10ffff}", "\u{130}", "\u{df}", "\u{fb01}", "000", "0", "-0", "-1", "+", "-", "+0", "++1",
    "+7", "1e3", "0x10", "0b1", "1_000", "1.0", "1,000", "\u{664}\u{662}", "255", "256", "65535", "65536", "4294967295", "4294967296",
    "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615",
    "18446744073709551616", "18446744073709551625", "99999999999999999999", "00000000000000000000000000000000000018446744073709551615",
    "00000000000000000000018446744073709551616", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455",
    "340282366920938463463374607431768211456", "+18446744073709551615", "-18446744073709551615", "-18446744073709551616",
];
const BYTE_PIECES: &[&[u8]] = &[
    b"\r\n", b"\r", b"\n", b"  ", b"\t", b"\0", b"\0\0", b"\xc3\xa9", b"\xe2\x82", b"\xff\xfe", b"\x80", b"\x7f", b"\\n", b"000", b"aaa", b"AbC",
];
const EXTRA_TEXT: &[u32] = &[0xe9, 0x3042, 0x1f600, 0x301, 0x2028, 0x10ffff, 0x130, 0x660, 0x80, 0xff, 0x85, 0xa0, 0x3000, 0x200b, 0xfeff, 0x131];
const EXTRA_BYTES: &[u32] = &[0x80, 0xff, 0xc3, 0xa9, 0xa0, 0x85];

pub fn codes_of(g: &G, out: &mut Vec<u32>, seen: &mut Vec<usize>) {
    let add = |s: &[u32], out: &mut Vec<u32>| {
        for c in s.iter().take(24) {
            if !out.contains(c) {
                out.push(*c);
            }
        }
    };
    match g {
        G::Tag(s, _) | G::OneOf(s, _) | G::AnyOf(s) | G::AnyOf1(s) | G::WhileNot1(s) => add(s, out),
        G::LineEnding => add(&[0x0a, 0x0d], out),
        G::Space => add(&[0x20, 0x09], out),
        G::WhiteSpace => add(&[0x20, 0x09, 0x0a, 0x0d], out),
        G::Eof | G::Nothing | G::Never => {}
        G::Opt(p) | G::Many(p) | G::Many1(p) | G::Arr(_, p) | G::Map(p, _) => codes_of(p, out, seen),
        G::List(l) => {
            codes_of(&l.p, out, seen);
            if let Some(s) = &l.sep {
                codes_of(s, out, seen);
            }
            l.ignore.iter().for_each(|g| codes_of(g, out, seen));
        }
        G::Struct(s) => codes_of_struct(s, out, seen),
        G::Enum(e) => {
            e.ignore.iter().chain(&e.prefix).chain(&e.suffix).for_each(|g| codes_of(g, out, seen));
            e.variants.iter().for_each(|s| codes_of_struct(s, out, seen));
        }
        G::Lazy(f) => {
            if !seen.contains(&(*f as usize)) {
                seen.push(*f as usize);
                codes_of(&g.force(), out, seen);
            }
        }
    }
}
fn codes_of_struct(s: &SDef, out: &mut Vec<u32>, seen: &mut Vec<usize>) {
    s.ignore.iter().chain(&s.prefix).chain(&s.suffix).for_each(|g| codes_of(g, out, seen));
    for f in &s.fields {
        f.prefix.iter().chain(&f.suffix).for_each(|g| codes_of(g, out, seen));
        match &f.val {
            FV::Plain(g, _) => codes_of(g, out, seen),
            FV::List { p, sep, .. } => {
                codes_of(p, out, seen);
                sep.iter().for_each(|g| codes_of(g, out, seen));
            }
        }
    }
}

/// Is there anything lazily given in it?
fn recurses(g: &G) -> bool {
    match g {
        G::Lazy(_) => true,
        G::Opt(p) | G::Many(p) | G::Many1(p) | G::Arr(_, p) | G::Map(p, _) => recurses(p),
        G::List(l) => recurses(&l.p),
        G::Struct(s) => recurses_struct(s),
        G::Enum(e) => e.variants.iter().any(recurses_struct),
        _ => false,
    }
}
fn recurses_struct(s: &SDef) -> bool {
    s.fields.iter().any(|f| match &f.val {
        FV::Plain(g, _) => recurses(g),
        FV::List { p, .. } => recurses(p),
    })
}

/// Can the grammar be derived without nesting lazily given parts deeper than `d`?
fn shallow(g: &G, d: usize) -> bool {
    match g {
        G::Many1(p) | G::Map(p, _) => shallow(p, d),
        G::Arr(n, p) => *n == 0 || shallow(p, d),
        G::Struct(s) => shallow_struct(s, d),
        G::Enum(e) => {
            e.prefix.iter().chain(&e.suffix).all(|g| shallow(g, d))
                && e.variants.iter().any(|s| shallow_struct(s, d))
        }
        G::Never => false,
        G::Lazy(_) => d > 0 && shallow(&g.force(), d - 1),
        _ => true,
    }
}
fn shallow_struct(s: &SDef, d: usize) -> bool {
    s.prefix.iter().chain(&s.suffix).all(|g| shallow(g, d))
        && s.fields.iter().all(|f| {
            f.prefix.iter().chain(&f.suffix).all(|g| shallow(g, d))
                && match &f.val {
                    FV::Plain(g, _) => shallow(g, d),
                    FV::List { .. } => true,
                }
        })
}

impl Sampler {
    pub fn new(g: &G, kind: Kind) -> Self {
        let mut alphabet = vec![];
        codes_of(g, &mut alphabet, &mut vec![]);
        if alphabet.is_empty() {
            alphabet.push(0x61);
        }
        let own = alphabet.len();
        alphabet.extend_from_slice(EXTRA);
        match kind {
            Kind::Text => alphabet.extend_from_slice(EXTRA_TEXT),
            _ => alphabet.extend_from_slice(EXTRA_BYTES),
        }
        Sampler {
            kind,
            alphabet,
            own,
            max: 60,
            ignorable: 5,
            fuel: 400,
            burst: 0,
            deep: 0,
            work: 0,
        }
    }
    /// How many of `p`
    fn count(&mut self, least: usize, p: Option<&G>, r: &mut Rng) -> usize {
        if self.burst > 0 && r.chance(1, 2) {
            let n = self.burst;
            self.burst = 0;
            return least + n;
        }
        if self.deep > 0 && p.map_or(false, recurses) {
            return least.max(1);
        }
        if self.fuel > 0 || p.is_none() {
            least + r.size(self.max)
        } else {
            least
        }
    }
    pub fn code(&self, r: &mut Rng) -> u32 {
        if r.chance(7, 8) {
            self.alphabet[r.below(self.own)]
        } else {
            *r.pick(&self.alphabet)
        }
    }

    /// A run with something in it that conversions like to get wrong
    fn special(&self, member: &dyn Fn(u32) -> bool, r: &mut Rng) -> Vec<u32> {
        let mut pieces: Vec<Vec<u32>> = match self.kind {
            Kind::Text => TEXT_PIECES.iter().map(|s| s.chars().map(|c| c as u32).collect()).collect(),
            _ => BYTE_PIECES.iter().map(|s| s.iter().map(|b| u32::from(*b)).collect()).collect(),
        };
        pieces.retain(|p| p.iter().all(|c| member(*c)));
        if pieces.is_empty() {
            pieces.push(self.alphabet.iter().copied().filter(|c| member(*c)).take(3).collect());
        }
        let mut v = vec![];
        if r.chance(1, 3) {
            let piece: &Vec<u32> = r.pick(&pieces[..]);
            v.extend_from_slice(piece);
            return v;
        }
        for _ in 0..=r.size(6) {
            if r.chance(1, 2) {
                let piece: &Vec<u32> = r.pick(&pieces[..]);
                v.extend_from_slice(piece);
            } else {
                let ok: Vec<u32> = self.alphabet.iter().copied().filter(|c| member(*c)).collect();
                if !ok.is_empty() {
                    (0..=r.below(3)).for_each(|_| v.push(*r.pick(&ok)));
                }
            }
        }
        v
    }

    /// A sentence of `g` is appended to `out`; its value, unless it cannot be converted. Some grammars have no
    /// sentence of a reasonable size: then it is broken off, and there is no value.
    pub fn sentence(&mut self, g: &G, r: &mut Rng, out: &mut Vec<u32>) -> Option<V> {
        self.work = 0;
        let v = self.sent(g, r, out);
        if self.spent() {
            None
        } else {
            v
        }
    }
    fn spent(&self) -> bool {
        self.work > 1_500_000
    }
    fn sent(&mut self, g: &G, r: &mut Rng, out: &mut Vec<u32>) -> Option<V> {
        self.fuel -= 1;
        self.work += 1;
        if self.spent() {
            return None;
        }
        match g {
            G::Lazy(_) => {
                self.deep = self.deep.saturating_sub(1);
                self.sent(&g.force(), r, out)
            }
            G::Tag(s, _) => {
                out.extend_from_slice(s);
                Some(V::Unit)
            }
            G::OneOf(s, _) => {
                if s.is_empty() {
                    return None;
                }
                let c = *r.pick(s);
                out.push(c);
                Some(V::Ch(c))
            }
            G::AnyOf(s) | G::AnyOf1(s) if self.burst == 0 && !s.is_empty() && r.chance(1, 8) => {
                self.work += 100;
                let v = self.special(&|c| s.contains(&c), r);
                if v.is_empty() && matches!(g, G::AnyOf1(_)) {
                    return None;
                }
                out.extend_from_slice(&v);
                Some(V::Str(v))
            }
            G::WhileNot1(s) if self.burst == 0 && r.chance(1, 5) => {
                self.work += 100;
                let v = self.special(&|c| !s.contains(&c), r);
                if v.is_empty() {
                    return None;
                }
                out.extend_from_slice(&v);
                Some(V::Str(v))
            }
            G::AnyOf(s) | G::AnyOf1(s) => {
                let least = if matches!(g, G::AnyOf1(_)) { 1 } else { 0 };
                let n = self.count(least, None, r);
                let mut v = vec![];
                if !s.is_empty() {
                    (0..n).for_each(|_| v.push(*r.pick(s)));
                }
                out.extend_from_slice(&v);
                Some(V::Str(v))
            }
            G::WhileNot1(s) => {
                let n = self.count(1, None, r);
                let mut v = vec![];
                let ok: Vec<u32> = self.alphabet.iter().copied().filter(|c| !s.contains(c)).collect();
                if !ok.is_empty() {
                    (0..n).for_each(|_| v.push(*r.pick(&ok)));
                }
                out.extend_from_slice(&v);
                Some(V::Str(v))
            }
            G::LineEnding => {
                if r.chance(1, 2) {
                    out.push(0x0d);
                }
                out.push(0x0a);
                Some(V::Unit)
            }
            G::Space => {
                out.push(*r.pick(&[0x20, 0x09]));
                Some(V::Unit)
            }
            G::WhiteSpace => {
                if r.chance(1, 2) {
                    self.sent(&G::Space, r, out)
                } else {
                    self.sent(&G::LineEnding, r, out)
                }
            }
            G::Eof | G::Nothing => Some(V::Unit),
            G::Never => None,
            G::Opt(p) => {
                if (self.fuel > 0 && r.chance(1, 2)) || (self.deep > 0 && recurses(p)) {
                    Some(V::Yes(Box::new(self.sent(p, r, out)?)))
                } else {
                    Some(V::No)
                }
            }
            G::Many(p) | G::Many1(p) => {
                let least = if matches!(g, G::Many1(_)) { 1 } else { 0 };
                let n = self.count(least, Some(p), r);
                self.times(n, p, r, out)
            }
            G::Arr(n, p) => self.times(*n, p, r, out),
            G::Map(p, f) => {
                let v = self.sent(p, r, out)?;
                f(v)
            }
            G::List(l) => {
                let ig: Vec<&G> = l.ignore.iter().collect();
                let n = self.count(0, Some(&l.p), r);
                let n = n.min(l.max.saturating_add(r.below(3)));
                let v = self.list(&l.p, l.conv, l.sep.as_ref(), l.trail, n, &ig, r, out)?;
                Some(v)
            }
            G::Struct(s) => {
                let ig: Vec<&G> = s.ignore.iter().collect();
                Some(V::Seq(self.parts(s, &ig, r, out)?))
            }
            G::Enum(e) => self.enum_(e, r, out),
        }
    }
    fn times(&mut self, n: usize, p: &G, r: &mut Rng, out: &mut Vec<u32>) -> Option<V> {
        let mut vs = vec![];
        let mut ok = true;
        for _ in 0..n {
            if self.spent() {
                return None;
            }
            self.thrift(n, out);
            match self.sent(p, r, out) {
                Some(v) => vs.push(v),
                None => ok = false,
            }
        }
        if ok {
            Some(V::List(vs))
        } else {
            None
        }
    }
    /// Very many have to be small
    fn thrift(&mut self, n: usize, out: &[u32]) {
        if n > 5_000 {
            self.fuel = if out.len() < 150_000 { 3 } else { 0 };
        }
    }
    pub fn ignored(&mut self, ignore: &[&G], r: &mut Rng, out: &mut Vec<u32>) {
        if ignore.is_empty() {
            return;
        }
        if self.burst > 0 && r.chance(1, 6) {
            let n = self.burst;
            self.burst = 0;
            for _ in 0..n {
                if self.spent() {
                    return;
                }
                self.thrift(n, out);
                let g = *r.pick(ignore);
                self.sent(g, r, out);
            }
        }
        while r.chance(self.ignorable, 16) {
            let g = *r.pick(ignore);
            self.sent(g, r, out);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn list(
        &mut self,
        p: &G,
        conv: crate::model::Conv,
        sep: Option<&G>,
        trail: Trail,
        n: usize,
        ig: &[&G],
        r: &mut Rng,
        out: &mut Vec<u32>,
    ) -> Option<V> {
        let mut vs = vec![];
        let mut ok = true;
        for i in 0..n {
            if self.spent() {
                return None;
            }
            self.thrift(n, out);
            match self.sent(p, r, out).and_then(conv) {
                Some(v) => vs.push(v),
                None => ok = false,
            }
            let last = i + 1 == n;
            if let Some(sep) = sep {
                let with = match trail {
                    _ if !last => true,
                    Trail::Yes => true,
                    Trail::No => false,
                    Trail::Maybe => r.chance(1, 2),
                };
                if with {
                    self.ignored(ig, r, out);
                    self.sent(sep, r, out);
                    self.ignored(ig, r, out);
                }
            } else if !last {
                self.ignored(ig, r, out);
            }
        }
        if ok {
            Some(V::List(vs))
        } else {
            None
        }
    }
    fn fix(&mut self, g: &Option<G>, ig: &[&G], r: &mut Rng, out: &mut Vec<u32>) {
        if let Some(g) = g {
            self.sent(g, r, out);
            self.ignored(ig, r, out);
        }
    }
    fn parts(&mut self, s: &SDef, ig: &[&G], r: &mut Rng, out: &mut Vec<u32>) -> Option<Vec<V>> {
        let mut vs = vec![];
        let mut ok = true;
        self.fix(&s.prefix, ig, r, out);
        for f in &s.fields {
            self.fix(&f.prefix, ig, r, out);
            let v = match &f.val {
                FV::Plain(g, conv) => self.sent(g, r, out).and_then(conv),
                FV::List { p, conv, sep, trail } => {
                    let n = self.count(0, Some(p), r);
                    self.list(p, *conv, sep.as_ref(), *trail, n, ig, r, out)
                }
            };
            match v {
                Some(v) => vs.push(v),
                None => ok = false,
            }
            self.ignored(ig, r, out);
            self.fix(&f.suffix, ig, r, out);
        }
        self.fix(&s.suffix, ig, r, out);
        if ok {
            Some(vs)
        } else {
            None
        }
    }
    fn enum_(&mut self, e: &EDef, r: &mut Rng, out: &mut Vec<u32>) -> Option<V> {
        let outer: Vec<&G> = e.ignore.iter().collect();
        self.fix(&e.prefix, &outer, r, out);
        if e.variants.is_empty() {
            return None;
        }
        let mut k = r.below(e.variants.len());
        let down: Vec<usize> = (0..e.variants.len()).filter(|i| self.deep > 0 && recurses_struct(&e.variants[*i])).collect();
        if !down.is_empty() {
            k = *r.pick(&down);
        } else if self.fuel <= 0 {
            for d in 0..5 {
                if let Some(i) = (0..e.variants.len()).find(|i| shallow_struct(&e.variants[*i], d)) {
                    k = i;
                    break;
                }
            }
        }
        let v = &e.variants[k];
        let ig: Vec<&G> = v.ignore.iter().chain(e.ignore.iter()).collect();
        let vs = self.parts(v, &ig, r, out);
        self.fix(&e.suffix, &outer, r, out);
        Some(V::Var(k, vs?))
    }

    /// One of very many parts, or of very deep nesting, or one that is about to be
    pub fn large(&mut self, g: &G, r: &mut Rng) -> Vec<u32> {
        self.fuel = 30;
        self.max = 20;
        let mut out = vec![];
        if recurses(g) && r.chance(2, 3) {
            self.deep = *r.pick(&[40, 130, 260, 1_030]);
        } else {
            self.burst = *r.pick(&[130, 260, 1_030, 33_000, 66_000, 66_000]);
        }
        self.sentence(g, r, &mut out);
        self.deep = 0;
        self.burst = 0;
        match r.below(4) {
            0 => {
                let n = r.below(out.len() + 1);
                out.truncate(n);
            }
            1 => self.mutate(r, &mut out),
            _ => {}
        }
        out
    }

    /// An input to try `g` on: a sentence, one followed by more, a near miss, or noise
    pub fn input(&mut self, g: &G, r: &mut Rng, fuel: i64) -> Vec<u32> {
        self.fuel = fuel;
        let mut out = vec![];
        let what = r.below(32);
        if what == 0 {
            let n = r.size(12);
            (0..n).for_each(|_| out.push(self.code(r)));
            return out;
        }
        self.sentence(g, r, &mut out);
        if what < 10 {
            return out;
        }
        if what < 14 {
            // followed by the beginning of another
            let n = out.len();
            self.fuel = fuel / 2;
            self.sentence(g, r, &mut out);
            let cut = n + r.below(out.len() - n + 1);
            out.truncate(cut);
            return out;
        }
        if what < 17 {
            let n = r.range(1, 3);
            (0..n).for_each(|_| out.push(self.code(r)));
            return out;
        }
        if what < 21 {
            let n = r.below(out.len() + 1);
            out.truncate(n);
            return out;
        }
        let n = 1 + r.size(4).min(5);
        for _ in 0..n {
            self.mutate(r, &mut out);
        }
        out
    }
    fn mutate(&mut self, r: &mut Rng, out: &mut Vec<u32>) {
        let i = r.below(out.len() + 1);
        let c = self.code(r);
        match r.below(9) {
            7 if i < out.len() => {
                // something like it
                let x = out[i];
                let y = match r.below(6) {
                    0 => x ^ 0x20,
                    1 => x.wrapping_add(1),
                    2 => x.wrapping_sub(1),
                    3 => x ^ 0x80,
                    4 => x + 0x100,
                    _ => x + 0x1_0000,
                };
                let fits = match self.kind {
                    Kind::Text => std::char::from_u32(y).is_some(),
                    Kind::Bytes => y < 0x100,
                    Kind::Tok => y < 0x1_0000,
                };
                if fits {
                    out[i] = y;
                }
            }
            6 => {
                let v = self.special(&|_| true, r);
                out.splice(i..i, v.into_iter().take(8));
            }
            0 => out.insert(i, c),
            1 if i < out.len() => {
                out.remove(i);
            }
            2 if i < out.len() => out[i] = c,
            3 if i + 1 < out.len() => out.swap(i, i + 1),
            4 if i < out.len() => {
                // twice the same piece
                let j = (i + 1 + r.below(4)).min(out.len());
                let piece: Vec<u32> = out[i..j].to_vec();
                for (k, c) in piece.into_iter().enumerate() {
                    out.insert(j + k, c);
                }
            }
            5 if i < out.len() => {
                let j = (i + 1 + r.below(4)).min(out.len());
                out.drain(i..j);
            }
            _ => out.push(c),
        }
    }

    /// Ignored tokens put where the model says they are skipped
    pub fn with_ignored(&mut self, g: &G, input: &[u32], r: &mut Rng, amount: usize) -> Option<(Vec<u32>, usize)> {
        let mut cx = Cx::new(input);
        cx.trace_bounds = true;
        match cx.run(g, 0) {
            R::Ok(..) => {}
            _ => return None,
        }
        let mut bounds = std::mem::take(&mut cx.bounds);
        if bounds.is_empty() {
            return None;
        }
        bounds.sort_by_key(|b| b.0);
        let mut out = input.to_vec();
        let mut put = 0;
        let mut many = 1 + r.below(amount);
        for (at, types) in bounds.iter().rev() {
            if many == 0 || !r.chance(1, 2) {
                continue;
            }
            many -= 1;
            let mut piece = vec![];
            let n = match r.below(1_200) {
                0 => 66_000,
                1..=99 => r.range(20, 300),
                _ => r.range(1, 4),
            };
            self.work = 0;
            for _ in 0..n {
                self.thrift(n, &piece);
                let t = r.pick(types);
                self.sentence(t, r, &mut piece);
            }
            put += n;
            let at = *at;
            out.splice(at..at, piece);
        }
        if put == 0 {
            return None;
        }
        Some((out, put))
    }
}
