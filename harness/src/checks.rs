//! One function per property: what is run on each case, and what must be observed.
use crate::engine::{brief, Case, Model};
use crate::exec::{How, Op, Out, HAVE_MON};
use crate::model::{chain_says, Kind, G, R};
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Check {
    pub run: fn(&mut Case),
    /// entries of a group are run together
    pub groups: bool,
}

pub fn find(prop: &str) -> Check {
    let one = |run| Check { run, groups: false };
    let group = |run| Check { run, groups: true };
    match prop {
        "C01" | "C02h" => one(crate::bufplay::history),
        "C02" => one(lazy),
        "C03" => one(peek_parse),
        "C04" | "C05" | "C06" | "C07" | "C08" | "C15" | "C19" => one(by_model),
        "C09" => one(memory),
        "C10" => one(terminates),
        "C11" => one(errors),
        "C12" => one(terminated),
        "C13" => one(any_buffer),
        "C14" | "C22" => group(alike),
        "C16" => one(digest),
        "C17" => one(zero_width),
        "C20" => one(ignored),
        "C21" => one(inverts),
        "C23" => one(function),
        _ => panic!("no check {}", prop),
    }
}

fn fuel(r: &mut Rng) -> i64 {
    match r.below(200) {
        0..=159 => 30,
        160..=197 => 150,
        _ => 1500,
    }
}

/// Somewhere to parse `input` from
pub fn any_how(r: &mut Rng, kind: Kind, s: &crate::sample::Sampler) -> How {
    let _ = kind;
    let n = r.size(40);
    let n = match r.below(900) {
        0 => 140_000,
        1..=4 => 300,
        5..=300 => 0,
        _ => n,
    };
    let look = match r.below(1_800) {
        0 => 66_000,
        1..=4 => 1_030,
        5..=900 => r.size(60),
        _ => 0,
    };
    How {
        mon: HAVE_MON && r.chance(1, 5),
        pre: (0..n).map(|_| s.code(r)).collect(),
        depth: r.below(4),
        look,
        ff: r.chance(1, 2),
        hint: r.below(5) as u8,
        endless: r.chance(1, 3),
    }
}

fn case_input(c: &mut Case) -> (Vec<u32>, Model) {
    if !c.args.small && c.r.chance(1, 500) {
        let input = c.s.large(c.g, &mut c.r);
        if input.len() < 400_000 {
            c.budget = 4_000_000;
            let m = c.model(&input);
            c.budget = 25_000;
            if let Some(m) = m {
                c.cov.add("cases of very many parts or very deep nesting", 1);
                c.cov.max("longest input", input.len() as u64);
                return (input, m);
            }
        }
    }
    for _ in 0..20 {
        let f = fuel(&mut c.r);
        c.s.max = if f > 1000 { 600 } else if f > 100 { 60 } else { 20 };
        let input = c.s.input(c.g, &mut c.r, f);
        if input.len() > 20_000 {
            continue;
        }
        if let Some(m) = c.model(&input) {
            return (input, m);
        }
    }
    let m = c.model(&[]).expect("the empty input is within the budget");
    (vec![], m)
}

/// All short words over a few of the elements that the parser knows
fn words(c: &mut Case) -> Vec<Vec<u32>> {
    let mut letters = c.s.alphabet[..c.s.own].to_vec();
    for i in (1..letters.len()).rev() {
        let j = c.r.below(i + 1);
        letters.swap(i, j);
    }
    letters.truncate(4);
    let longest = [0, 24, 9, 6, 5][letters.len()];
    let mut all: Vec<Vec<u32>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..longest {
        let to = all.len();
        for k in from..to {
            for x in &letters {
                let mut w = all[k].clone();
                w.push(*x);
                all.push(w);
            }
        }
        from = to;
    }
    c.cov.add("short words, all of them, over up to four elements", all.len() as u64);
    all
}
/// Every element there is, or very many of them, alone and in the middle of a sentence
fn elements(c: &mut Case) -> Vec<Vec<u32>> {
    let all: Vec<u32> = match c.e.kind {
        Kind::Text => (0..0x300)
            .chain(0x1e00..0x1f00)
            .chain(0x2000..0x2070)
            .chain(0x3000..0x3100)
            .chain(0xd780..0xd800)
            .chain(0xe000..0xe010)
            .chain(0xfe00..0x10000)
            .chain(0x1_0000..0x1_0080)
            .chain(0x1_f600..0x1_f640)
            .chain(0x10_ffe0..0x11_0000)
            .chain(c.s.alphabet.iter().flat_map(|x| vec![x ^ 0x20, x + 0x80, x + 0x100, x + 0x1_0000]).filter(|x| std::char::from_u32(*x).is_some()))
            .collect(),
        _ => (0..256).collect(),
    };
    let mut out = vec![];
    c.s.fuel = 10;
    c.s.max = 4;
    for x in all {
        out.push(vec![x]);
        let mut w = vec![];
        c.s.sentence(c.g, &mut c.r, &mut w);
        let i = c.r.below(w.len() + 1);
        if i < w.len() && c.r.chance(1, 2) {
            w[i] = x;
        } else {
            w.insert(i, x);
        }
        out.push(w);
    }
    c.cov.add("elements tried, alone and within sentences", out.len() as u64 / 2);
    out
}
fn systematic(c: &mut Case) -> Vec<Vec<u32>> {
    match c.i {
        _ if c.args.small => vec![],
        0 => words(c),
        1 if c.args.prop == "C05" => elements(c),
        _ => vec![],
    }
}

/// The value and consumption are those of the specification
fn by_model(c: &mut Case) {
    for input in systematic(c) {
        if c.failed {
            return;
        }
        if let Some(m) = c.model(&input) {
            for op in [Op::Parse, Op::Peek].iter() {
                let o = c.observe(&m, &input, &How::default(), *op);
                c.judge(&m, &input, &How::default(), *op, &o);
            }
        }
    }
    let (input, m) = case_input(c);
    model_case(c, &input, &m);
}
fn model_case(c: &mut Case, input: &[u32], m: &Model) {
    let plain = How { hint: c.r.below(5) as u8, ..How::default() };
    let o = c.observe(m, input, &plain, Op::Parse);
    c.judge(m, input, &plain, Op::Parse, &o);
    let o = c.observe(m, input, &plain, Op::Peek);
    c.judge(m, input, &plain, Op::Peek, &o);
    if c.r.chance(1, 4) {
        let how = any_how(&mut c.r, c.e.kind, c.s);
        let op = if c.r.chance(2, 3) { Op::Parse } else { Op::Peek };
        let o = c.observe(m, input, &how, op);
        c.judge(m, input, &how, op, &o);
    }
}

/// C03
fn peek_parse(c: &mut Case) {
    for input in systematic(c) {
        if c.failed {
            return;
        }
        if let Some(m) = c.model(&input) {
            if !m.conv_fail {
                peek_parse_on(c, input, m, 1);
            }
        }
    }
    let (input, m) = case_input(c);
    peek_parse_on(c, input, m, 2)
}
fn peek_parse_on(c: &mut Case, input: Vec<u32>, m: Model, ways: usize) {
    if m.conv_fail {
        c.cov.add("cases with a failed conversion, not compared", 1);
        return;
    }
    for k in 0..ways {
        let how = if k == 0 { How::default() } else { any_how(&mut c.r, c.e.kind, c.s) };
        let a = c.observe(&m, &input, &how, Op::Parse);
        let b = c.observe(&m, &input, &how, Op::Peek);
        let strange = |o: &Out| matches!(o, Out::Panic(_) | Out::Hang);
        if a.out.good() != b.out.good() || a.used != b.used || strange(&a.out) != strange(&b.out) || a.out == Out::Hang {
            c.fail(&input, format!("{}: parse {}, but peek {}", brief(&how), a.brief(), b.brief()));
        }
        c.lawful(&input, &how, Op::Parse, &a);
        c.lawful(&input, &how, Op::Peek, &b);
    }
}

/// C02
fn lazy(c: &mut Case) {
    let f = fuel(&mut c.r);
    let mut input = c.s.input(c.g, &mut c.r, f);
    if input.len() > 5_000 {
        return;
    }
    // there is always more to come
    let more = 40 + c.r.below(200);
    for _ in 0..more {
        let x = if c.r.chance(1, 8) { c.s.code(&mut c.r) } else { 0x7e };
        input.push(x);
    }
    let m = match c.model(&input) {
        Some(m) => m,
        None => return,
    };
    let n = c.r.size(30);
    let pre: Vec<u32> = (0..n).map(|_| c.s.code(&mut c.r)).collect();
    let depth = c.r.below(3);
    for op in [Op::Parse, Op::Peek, Op::Term].iter() {
        let how = match op {
            Op::Term => How { hint: c.r.below(5) as u8, ..How::default() },
            _ => How { pre: pre.clone(), depth, ff: c.r.chance(1, 2), hint: c.r.below(5) as u8, endless: c.r.chance(1, 3), ..How::default() },
        };
        let o = c.observe(&m, &input, &how, *op);
        let mut may = how.pre.len() + m.reach;
        if *op == Op::Term {
            if let R::Ok(_, end) = m.r {
                may = may.max(end + 1);
            }
        }
        if let Out::Panic(_) | Out::Hang = o.out {
            if !m.may_panic(*op) {
                c.fail(&input, format!("{:?} {}: {}", op, brief(&how), o.brief()));
            }
            continue;
        }
        if *op == Op::Peek && m.conv_fail {
            continue;
        }
        c.cov.add("sources whose demand was compared", 1);
        if o.pulled == may {
            c.cov.add("of which pulled exactly as far as the specification looks", 1);
        }
        if o.pulled > may {
            c.fail(
                &input,
                format!("{:?} {}: {} elements were asked for, when looking at {} is enough", op, brief(&how), o.pulled, may),
            );
        }
        if c.e.kind == Kind::Tok && *op != Op::Term {
            // what was consumed at the root is no longer needed
            let gone = if how.depth == 0 {
                how.pre.len() + o.used.unwrap_or(0)
            } else {
                how.pre.len() / (how.depth + 1)
            };
            let outstanding = o.pulled.saturating_sub(gone) as i64;
            c.cov.add("buffers whose retained elements were counted", 1);
            c.cov.max("most elements retained beyond the outstanding", (o.kept - outstanding).max(0) as u64);
            if o.kept > outstanding + 16 {
                c.fail(
                    &input,
                    format!("{:?} {}: {} elements are alive with {} outstanding", op, brief(&how), o.kept, outstanding),
                );
            }
        }
        c.lawful(&input, &how, *op, &o);
    }
    // a long run at the root must not pile up
    if c.e.kind == Kind::Tok && c.i % 50 == 0 {
        if let G::Many(p) | G::Many1(p) = c.g {
            let p = p.clone();
            let mut input = vec![];
            while input.len() < 20_000 {
                let before = input.len();
                c.s.fuel = 20;
                c.s.sentence(&p, &mut c.r, &mut input);
                if before == input.len() {
                    break;
                }
            }
            let m = match c.model(&input) {
                Some(m) => m,
                None => return,
            };
            let end = match m.r {
                R::Ok(_, end) => end,
                _ => return,
            };
            if end < 10_000 {
                return;
            }
            // the items as they are taken, which may be other than those put in
            let mut at = 0;
            let mut longest = 0;
            let mut cx = crate::model::Cx::new(&input);
            while let R::Ok(_, to) = cx.run(&p, at) {
                if to == at {
                    break;
                }
                longest = longest.max(to - at);
                at = to;
            }
            if longest > 1_000 {
                return;
            }
            let o = c.observe(&m, &input, &How::default(), Op::Parse);
            c.cov.add("long runs whose peak was measured", 1);
            c.cov.max("highest peak of live elements in a long run", o.peak.max(0) as u64);
            if o.peak > 64 + 8 * longest as i64 {
                c.fail(
                    &input,
                    format!("up to {} elements were alive while parsing {} items of at most {} elements", o.peak, end, longest),
                );
            }
        }
    }
}

/// C09 (the process itself runs under a sanitizer or memcheck)
fn memory(c: &mut Case) {
    let f = if c.r.chance(1, 10) { 300 } else { 30 };
    c.s.max = 40;
    let input = c.s.input(c.g, &mut c.r, f);
    if input.len() > 3_000 {
        return;
    }
    let m = match c.model(&input) {
        Some(m) => m,
        None => return,
    };
    let e = c.e;
    for op in [Op::Parse, Op::Peek, Op::Term].iter() {
        let how = if *op == Op::Term { How::default() } else { any_how(&mut c.r, c.e.kind, c.s) };
        let mut how = How { mon: false, endless: false, ..how };
        how.pre.truncate(300);
        how.look = how.look.min(300);
        crate::exec::arm(u64::MAX);
        let o = c.observe(&m, &input, &how, *op);
        let points = crate::exec::faults();
        c.cov.add("executions with the ledger and allocator balanced", 1);
        if *op == Op::Parse {
            // memory errors show in values, too
            c.judge(&m, &input, &how, *op, &o);
        } else {
            c.lawful(&input, &how, *op, &o);
        }
        if let Out::Panic(s) = &o.out {
            if !m.may_panic(*op) {
                let s = s.clone();
                c.fail(&input, format!("{:?} {}: panic {:?}", op, brief(&how), s));
            }
        }
        drop(o);
        leak(c, &input, &how, *op, u64::MAX);
        // a panic at each point where user code runs
        let mut ks: Vec<u64> = (1..=points).collect();
        while ks.len() > 12 {
            let i = c.r.below(ks.len());
            ks.swap_remove(i);
        }
        for k in ks {
            crate::exec::arm(k);
            let o = crate::exec::exec_dyn(e, &input, &how, *op);
            c.cov.add("panics injected", 1);
            c.lawful(&input, &how, *op, &o);
            drop(o);
            if c.r.chance(1, 3) {
                leak(c, &input, &how, *op, k);
            }
        }
        crate::exec::arm(u64::MAX);
    }
}
fn leak(c: &mut Case, input: &[u32], how: &How, op: Op, k: u64) {
    // whatever is allocated once (by the runtime or eyre) is not a leak
    let mut lost = (0, 0);
    for _ in 0..3 {
        crate::exec::arm(k);
        let before = crate::alloc::balance();
        drop(crate::exec::exec_dyn(c.e, input, how, op));
        let after = crate::alloc::balance();
        lost = (after.0 - before.0, after.1 - before.1);
        if lost == (0, 0) {
            break;
        }
    }
    crate::exec::arm(u64::MAX);
    if lost != (0, 0) {
        c.fail(
            input,
            format!("{:?} {}: {} bytes in {} blocks are leaked (fault at {})", op, brief(how), lost.0, lost.1, k),
        );
    }
}

/// C10
fn terminates(c: &mut Case) {
    let long = c.i % 4 == 0;
    c.budget = if long { 200_000 } else { 25_000 };
    c.s.max = if long { 2_000 } else { 60 };
    let f = if long { 3_000 } else { 60 };
    let mut input = c.s.input(c.g, &mut c.r, f);
    input.truncate(12_000);
    let mut inputs = vec![];
    if input.len() <= 24 {
        // every place to end
        for n in 0..=input.len() {
            inputs.push(input[..n].to_vec());
        }
    } else {
        for _ in 0..2 {
            let n = c.r.below(input.len());
            inputs.push(input[..n].to_vec());
        }
        inputs.push(input);
    }
    for input in inputs {
        let m = match c.model(&input) {
            Some(m) => m,
            None => continue,
        };
        if m.r == R::Zero {
            continue;
        }
        for op in [Op::Parse, Op::Peek].iter() {
            let mut hows = vec![How::default()];
            if HAVE_MON {
                let depth = c.r.below(3);
                hows.push(How { mon: true, depth, ..How::default() });
            }
            for how in hows {
                let o = c.observe(&m, &input, &how, *op);
                c.cov.add("executions within their budget of steps", 1);
                match &o.out {
                    Out::Panic(s) => {
                        let s = s.clone();
                        c.fail(&input, format!("{:?} {}: panic {:?}", op, brief(&how), s));
                        continue;
                    }
                    Out::Hang => {
                        c.fail(
                            &input,
                            format!("{:?} {}: more than {} steps, and no end (plain descent takes {})", op, brief(&how), o.steps, m.reads),
                        );
                        continue;
                    }
                    _ => {}
                }
                let may = 400 + 16 * m.reads;
                if m.reads > 50 {
                    c.cov.max("most reads per read of plain descent, in percent", o.steps * 100 / m.reads);
                }
                if o.steps > may {
                    c.fail(
                        &input,
                        format!("{:?} {}: {} reads, where plain descent takes {}", op, brief(&how), o.steps, m.reads),
                    );
                }
                if o.polls_after_end > may {
                    c.fail(&input, format!("{:?}: the exhausted source was polled {} times", op, o.polls_after_end));
                }
                c.lawful(&input, &how, *op, &o);
            }
        }
    }
}

/// C11
fn errors(c: &mut Case) {
    let mut some = systematic(c);
    for _ in 0..6 + some.len() {
        let again = !some.is_empty();
        let (input, m) = match some.pop() {
            None => case_input(c),
            Some(w) => match c.model(&w) {
                None => continue,
                Some(m) => (w, m),
            },
        };
        let want = match &m.r {
            R::Err(w) => w.clone(),
            _ => continue,
        };
        let how = if c.r.chance(1, 3) { any_how(&mut c.r, c.e.kind, c.s) } else { How::default() };
        let o = c.observe(&m, &input, &how, Op::Parse);
        if o.out != Out::Fail {
            c.fail(&input, format!("{}: got {}, expected an error saying {:?}", brief(&how), o.brief(), want));
            return;
        }
        c.cov.add("errors checked", 1);
        c.cov.add("messages of their chains checked", want.len() as u64);
        c.cov.max("longest chain of causes", want.len() as u64);
        if let Err(s) = chain_says(&o.chain, &want) {
            c.fail(&input, format!("{}: {} (of {:?})", brief(&how), s, o.chain));
        }
        if again && !c.failed {
            continue;
        }
        return;
    }
}

/// C12
fn terminated(c: &mut Case) {
    let (mut input, _) = case_input(c);
    if c.r.chance(1, 3) {
        // leave it at exactly what it parses
        let e = c.e;
        let o = c.observe_as(e, 1_000_000, &input, &How::default(), Op::Parse);
        if let Some(n) = o.used {
            input.truncate(n);
            if c.r.chance(1, 2) {
                let n = if c.r.chance(1, 4) { 300 } else { 1 };
                (0..n).for_each(|_| input.push(c.s.code(&mut c.r)));
            }
        }
    }
    let m = match c.model(&input) {
        Some(m) => m,
        None => return,
    };
    let hint = c.r.below(5) as u8;
    let how = How { hint, ..How::default() };
    let a = c.observe(&m, &input, &how, Op::Parse);
    let t = c.observe(&m, &input, &how, Op::Term);
    let f = c.observe(&m, &input, &how, Op::Free);
    let ctx = ["unknown length", "known length", "roughly known length", "bounded length", "length of at least that"][hint as usize];
    if f.out != a.out || f.chain != a.chain {
        c.fail(&input, format!("{}: nommy::parse {}, but P::parse {}", ctx, f.brief(), a.brief()));
    }
    let all = a.used == Some(input.len());
    let ok = match (&a.out, &t.out) {
        (Out::Ok(v), Out::Ok(w)) => all && v == w,
        (Out::Ok(_), Out::Fail) => !all,
        (Out::Fail, Out::Fail) => a.chain == t.chain,
        (Out::Panic(p), Out::Panic(q)) => p == q,
        _ => false,
    };
    c.cov.add(
        match (&a.out, all) {
            (Out::Ok(_), true) => "parsed to the end",
            (Out::Ok(_), false) => "parsed with something left",
            _ => "not parsed",
        },
        1,
    );
    if !ok {
        c.fail(
            &input,
            format!("{}: parse {} of {}, but parse_terminated {}", ctx, a.brief(), input.len(), t.brief()),
        );
    }
    c.lawful(&input, &how, Op::Term, &t);
}

/// C13
fn any_buffer(c: &mut Case) {
    let (input, m) = case_input(c);
    for op in [Op::Parse, Op::Peek].iter() {
        let a = c.observe(&m, &input, &How::default(), *op);
        c.lawful(&input, &How::default(), *op, &a);
        let mut hows = vec![];
        for _ in 0..3 {
            hows.push(any_how(&mut c.r, c.e.kind, c.s));
        }
        if HAVE_MON {
            hows.push(How { mon: true, hint: c.r.below(5) as u8, endless: c.r.chance(1, 2), ..How::default() });
        }
        for how in hows {
            let b = c.observe(&m, &input, &how, *op);
            c.cov.add("pairs of buffers compared", 1);
            if a.out != b.out || a.used != b.used || a.chain != b.chain {
                c.fail(
                    &input,
                    format!("{:?}: fresh buffer {}, but {} {}", op, a.brief(), brief(&how), b.brief()),
                );
            }
            c.lawful(&input, &how, *op, &b);
        }
    }
}

/// C14, C22
fn alike(c: &mut Case) {
    let k = c.r.below(c.group.len());
    let g = (c.group[k].g)();
    let f = fuel(&mut c.r);
    c.s.max = if f > 1000 { 600 } else if f > 100 { 60 } else { 20 };
    let mut input = c.s.input(&g, &mut c.r, f);
    let bytes = c.group.iter().any(|e| e.kind == Kind::Bytes);
    if bytes {
        input.retain(|x| *x < 0x80);
    }
    if c.group.iter().any(|e| e.name.ends_with("one")) {
        input.iter_mut().for_each(|x| *x = 0x61);
        c.cov.add("inputs of elements without size", 1);
    }
    if input.len() > 10_000 {
        return;
    }
    let m = match c.model(&input) {
        Some(m) => m,
        None => return,
    };
    for op in [Op::Parse, Op::Peek].iter() {
        let first = c.group[0];
        let a = c.observe_as(first, m.reads, &input, &How::default(), *op);
        c.lawful(&input, &How::default(), *op, &a);
        for k in 1..c.group.len() {
            let e = c.group[k];
            let b = c.observe_as(e, m.reads, &input, &How::default(), *op);
            c.cov.add("pairs of declarations compared", 1);
            if a.out != b.out || a.used != b.used {
                let (x, y) = (a.brief(), b.brief());
                c.fail(&input, format!("{:?}: {}, but {} (written {}) {}", op, x, e.name, e.decl, y));
            }
            c.lawful(&input, &How::default(), *op, &b);
        }
    }
}

/// C16
fn digest(c: &mut Case) {
    let (input, m) = case_input(c);
    if m.r == R::Zero {
        return;
    }
    let mut d = 0;
    for op in [Op::Parse, Op::Peek, Op::Term].iter() {
        let how = if *op != Op::Term && c.i % 3 == 0 { any_how(&mut c.r, c.e.kind, c.s) } else { How::default() };
        let o = c.observe(&m, &input, &how, *op);
        d = crate::rng::mix(d ^ o.digest());
        c.lawful(&input, &how, *op, &o);
        if c.args.only.is_some() {
            println!("{:?} {} on {:?}: {}", op, brief(&how), crate::engine::show(&input, c.e.kind), o.brief());
        }
    }
    c.cov.digests.push((c.e.name.to_string(), c.i, d));
}

/// C17
fn zero_width(c: &mut Case) {
    for input in systematic(c) {
        if c.failed {
            return;
        }
        if let Some(m) = c.model(&input) {
            zero_width_on(c, input, m);
        }
    }
    let (input, m) = case_input(c);
    zero_width_on(c, input, m)
}
fn zero_width_on(c: &mut Case, input: Vec<u32>, m: Model) {
    for op in [Op::Parse, Op::Peek].iter() {
        let how = if c.r.chance(1, 3) { any_how(&mut c.r, c.e.kind, c.s) } else { How::default() };
        let o = c.observe(&m, &input, &how, *op);
        let ok = match &o.out {
            Out::Panic(s) => m.may_panic(*op) && s.contains("0 elements"),
            Out::Hang => false,
            _ => !m.must_panic(*op),
        };
        c.cov.add(if m.r == R::Zero { "zero-width repetitions met" } else { "without a zero-width repetition" }, 1);
        if !ok {
            let want = if m.may_panic(*op) { "a panic about 0 elements" } else { "no panic" };
            c.fail(&input, format!("{:?} {}: got {}, expected {}", op, brief(&how), o.brief(), want));
        }
        c.lawful(&input, &how, *op, &o);
    }
}

/// C20
fn ignored(c: &mut Case) {
    c.s.max = 20;
    c.s.ignorable = c.r.below(6);
    c.s.fuel = 40;
    let mut base = vec![];
    let g = c.g;
    c.s.sentence(g, &mut c.r, &mut base);
    if base.len() > 3_000 {
        return;
    }
    let m0 = match c.model(&base) {
        Some(m) => m,
        None => return,
    };
    model_case(c, &base, &m0);
    for _ in 0..3 {
        let (more, n) = match c.s.with_ignored(g, &base, &mut c.r, 6) {
            Some(x) => x,
            None => return,
        };
        c.budget = if more.len() > 10_000 { 2_000_000 } else { 25_000 };
        let m1 = match c.model(&more) {
            Some(m) => m,
            None => return,
        };
        c.cov.add("inputs with ignored tokens put in", 1);
        c.cov.add("ignored tokens put in", n as u64);
        if let (R::Ok(v, a), R::Ok(w, b)) = (&m0.r, &m1.r) {
            if v == w && *b as i64 - *a as i64 == more.len() as i64 - base.len() as i64 {
                c.cov.add("of which the specification takes all for ignored", 1);
            }
        }
        model_case(c, &more, &m1);
    }
    // where they are not skipped: before the first part
    if c.r.chance(1, 4) {
        let mut types = vec![];
        let mut cx = crate::model::Cx::new(&base);
        cx.trace_bounds = true;
        cx.run(g, 0);
        if let Some((_, t)) = cx.bounds.first() {
            types.extend(t.iter().cloned());
        }
        if let Some(t) = types.first() {
            let mut more = vec![];
            c.s.sentence(t, &mut c.r, &mut more);
            more.extend_from_slice(&base);
            if let Some(m1) = c.model(&more) {
                model_case(c, &more, &m1);
            }
        }
    }
}

/// C21
fn inverts(c: &mut Case) {
    let g = c.g;
    c.s.max = 12;
    let size = match c.i % 10 {
        0..=5 => 40,
        6..=8 => 300,
        _ => 1500,
    };
    c.s.fuel = size;
    c.s.ignorable = c.r.below(7);
    let mut input = vec![];
    c.s.deep = 0;
    c.s.burst = 0;
    if c.i % 100 == 39 {
        c.budget = 4_000_000;
        c.s.fuel = 30;
        if c.r.chance(2, 3) {
            c.s.deep = *c.r.pick(&[130, 260, 520, 1_030, 2_050]);
        } else {
            c.s.burst = *c.r.pick(&[260, 1_030, 33_000, 66_000]);
            c.s.ignorable = 1;
        }
    }
    let v = match c.s.sentence(g, &mut c.r, &mut input) {
        Some(v) => v,
        None => return,
    };
    c.s.deep = 0;
    c.s.burst = 0;
    if input.len() > 400_000 {
        return;
    }
    let m = match c.model(&input) {
        Some(m) => m,
        None => return,
    };
    // the printing has to be of this value and no other
    if m.r != R::Ok(v.clone(), input.len()) {
        c.cov.add("ambiguous printings, not used", 1);
        return;
    }
    c.cov.max("largest printing", input.len() as u64);
    c.cov.max("deepest value", depth(&v));
    c.cov.add("values printed and parsed back", 1);
    model_case(c, &input, &m);
    let o = c.observe(&m, &input, &How::default(), Op::Term);
    if o.out != Out::Ok(v) {
        c.fail(&input, format!("parse_terminated: {}", o.brief()));
    }
}
fn depth(v: &crate::val::V) -> u64 {
    use crate::val::V;
    match v {
        V::Yes(v) => depth(v),
        V::List(vs) | V::Seq(vs) | V::Var(_, vs) => 1 + vs.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// C23: the same again, after something else, and while other threads parse
fn function(c: &mut Case) {
    let mut cases = vec![];
    for _ in 0..4 {
        let (input, m) = case_input(c);
        let how = if c.r.chance(1, 2) { any_how(&mut c.r, c.e.kind, c.s) } else { How::default() };
        let op = *c.r.pick(&[Op::Parse, Op::Parse, Op::Peek, Op::Term]);
        cases.push((input, m, how, op));
    }
    let mut first = vec![];
    for (input, m, how, op) in &cases {
        let o = c.observe(m, input, how, *op);
        c.cov.digests.push((format!("{}", c.e.name), c.i * 4 + first.len(), o.digest()));
        first.push(o);
    }
    for round in 0..3 {
        let mut order: Vec<usize> = (0..cases.len()).collect();
        for i in (1..order.len()).rev() {
            let j = c.r.below(i + 1);
            order.swap(i, j);
        }
        for k in order {
            let (input, m, how, op) = &cases[k];
            if c.r.chance(1, 2) && input.len() < 5_000 {
                // after another parser has been at the same input
                let me = c.all.iter().position(|e| e.name == c.e.name).unwrap_or(0);
                let all = c.all;
                let other = if c.r.chance(3, 4) {
                    &all[(me + all.len() + c.r.below(7) - 3.min(all.len())) % all.len()]
                } else {
                    c.r.pick(all)
                };
                if other.kind == c.e.kind {
                    c.observe_as(other, 1_000, input, &How::default(), *op);
                    c.cov.add("after another parser was used on the same input", 1);
                }
            }
            let o = c.observe(m, input, how, *op);
            c.cov.add("parses repeated", 1);
            if o.out != first[k].out || o.used != first[k].used || o.chain != first[k].chain {
                c.fail(
                    input,
                    format!("{:?} {}: first {}, then (round {}) {}", op, brief(how), first[k].brief(), round, o.brief()),
                );
            }
        }
    }
}
