//! Elements that parsers read, and user-written parsers that work on all of them.
//! Everything that can be created here is entered in a ledger, so that a value which is
//! dropped twice, never, or without having been made does not go unnoticed.
use crate::exec::fault_point;
use nommy::{eyre, Buffer, Parse};
use std::cell::Cell;
use std::convert::TryFrom;
use std::mem::ManuallyDrop;

thread_local! {
    static LIVE: Cell<i64> = Cell::new(0);
    static MADE: Cell<u64> = Cell::new(0);
    static BAD: Cell<u64> = Cell::new(0);
    static TOKS: Cell<i64> = Cell::new(0);
    static TOKS_PEAK: Cell<i64> = Cell::new(0);
}

/// elements alive now, and most elements alive since the last mark
pub fn toks() -> (i64, i64) {
    (TOKS.with(Cell::get), TOKS_PEAK.with(Cell::get))
}
fn tok_made() {
    let n = TOKS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    TOKS_PEAK.with(|c| c.set(c.get().max(n)));
}

/// live values, values ever made, drops of something that was not a live value
pub fn ledger() -> (i64, u64, u64) {
    (LIVE.with(Cell::get), MADE.with(Cell::get), BAD.with(Cell::get))
}
pub fn ledger_reset() {
    LIVE.with(|c| c.set(0));
    REGISTER.with(|r| r.borrow_mut().clear());
    TOKS.with(|c| c.set(0));
    TOKS_PEAK.with(|c| c.set(0));
    MADE.with(|c| c.set(0));
    BAD.with(|c| c.set(0));
}
/// From now on the peak is counted afresh
pub fn ledger_mark() {
    TOKS_PEAK.with(|c| c.set(TOKS.with(Cell::get)));
}

const MAGIC: u64 = 0x5afe_c0de_1234_9876;
const DEAD: u64 = 0xdead_dead_dead_dead;

/// A value whose construction and drop are counted, and that notices being garbage
pub struct Counted {
    id: u64,
    magic: u64,
    heap: ManuallyDrop<Box<u64>>,
}

impl Counted {
    pub fn new() -> Self {
        let id = MADE.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        LIVE.with(|c| c.set(c.get() + 1));
        Counted {
            id,
            magic: MAGIC ^ id,
            heap: ManuallyDrop::new(Box::new(id)),
        }
    }
    pub fn intact(&self) -> bool {
        self.magic == MAGIC ^ self.id && **self.heap == self.id
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        unsafe {
            let magic = std::ptr::read_volatile(&self.magic);
            let id = std::ptr::read_volatile(&self.id);
            if magic != MAGIC ^ id {
                BAD.with(|c| c.set(c.get() + 1));
                return;
            }
            if **self.heap != id {
                BAD.with(|c| c.set(c.get() + 1));
            }
            std::ptr::write_volatile(&mut self.magic, DEAD);
            ManuallyDrop::drop(&mut self.heap);
        }
        LIVE.with(|c| c.set(c.get() - 1));
    }
}

/// A user-defined element: neither Copy nor Default nor comparable, with drop glue. No larger than a
/// pointer; what it stands for is in a register, so that any use of a dead one can be told
pub struct Tok(usize);
thread_local!(static REGISTER: std::cell::RefCell<Vec<(u32, bool)>> = Default::default());
const SALT: usize = 0x5afe_0000_0000;

impl Tok {
    fn new(code: u32) -> Self {
        tok_made();
        MADE.with(|c| c.set(c.get() + 1));
        LIVE.with(|c| c.set(c.get() + 1));
        REGISTER.with(|r| {
            let mut r = r.borrow_mut();
            r.push((code, true));
            Tok(SALT + r.len() - 1)
        })
    }
    fn look(&self) -> Option<u32> {
        let me = unsafe { std::ptr::read_volatile(&self.0) };
        let e = REGISTER.with(|r| r.borrow().get(me.wrapping_sub(SALT)).copied());
        match e {
            Some((code, true)) => Some(code),
            _ => {
                BAD.with(|c| c.set(c.get() + 1));
                None
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        fault_point();
        Tok::new(self.look().unwrap_or(0))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        TOKS.with(|c| c.set(c.get() - 1));
        LIVE.with(|c| c.set(c.get() - 1));
        if self.look().is_some() {
            REGISTER.with(|r| r.borrow_mut()[self.0 - SALT].1 = false);
        }
    }
}
impl Elem for Tok {
    fn of(code: u32) -> Self {
        Tok::new(code)
    }
    fn code(&self) -> u32 {
        self.look().unwrap_or(0)
    }
}

/// A large element, part of it on the heap
pub struct Fat {
    code: u32,
    c: Counted,
    pad: [u64; 12],
}
impl Clone for Fat {
    fn clone(&self) -> Self {
        if !self.c.intact() || self.pad != [u64::from(self.code); 12] {
            BAD.with(|c| c.set(c.get() + 1));
        }
        Fat::of(self.code)
    }
}
impl Drop for Fat {
    fn drop(&mut self) {
        TOKS.with(|c| c.set(c.get() - 1));
    }
}
impl Elem for Fat {
    fn of(code: u32) -> Self {
        tok_made();
        Fat {
            code,
            c: Counted::new(),
            pad: [u64::from(code); 12],
        }
    }
    fn code(&self) -> u32 {
        if !self.c.intact() || self.pad != [u64::from(self.code); 12] {
            BAD.with(|c| c.set(c.get() + 1));
        }
        self.code
    }
}

/// Elements that differ in size and alignment, without drop glue
impl Elem for (u8, u32, u8) {
    fn of(code: u32) -> Self {
        (code as u8, code, !(code as u8))
    }
    fn code(&self) -> u32 {
        if self.0 != self.1 as u8 || self.2 != !self.0 {
            BAD.with(|c| c.set(c.get() + 1));
        }
        self.1
    }
}
#[derive(Clone)]
#[repr(align(64))]
pub struct Wide(u32);
impl Elem for Wide {
    fn of(code: u32) -> Self {
        Wide(code)
    }
    fn code(&self) -> u32 {
        if self as *const Self as usize % 64 != 0 {
            BAD.with(|c| c.set(c.get() + 1));
        }
        self.0
    }
}

/// The only element of its kind
#[derive(Clone)]
pub struct One;
impl Elem for One {
    fn of(_: u32) -> Self {
        One
    }
    fn code(&self) -> u32 {
        0x61
    }
}

pub trait Elem: Clone + 'static {
    fn of(code: u32) -> Self;
    fn code(&self) -> u32;
}
impl Elem for char {
    fn of(code: u32) -> Self {
        std::char::from_u32(code).expect("code is a char")
    }
    fn code(&self) -> u32 {
        *self as u32
    }
}
impl Elem for u8 {
    fn of(code: u32) -> Self {
        u8::try_from(code).expect("code is a byte")
    }
    fn code(&self) -> u32 {
        u32::from(*self)
    }
}
/// Matches the characters of `S`, over any elements
pub struct XTag<const S: &'static str>(pub Counted);
impl<T: Elem, const S: &'static str> Parse<T> for XTag<S> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        // read as many elements as the tag has, however they compare; in one of the ways to do so
        let mut same = true;
        match S.chars().map(|c| c as u32).sum::<u32>() % 3 {
            0 => {
                for c in S.chars() {
                    same &= input.next().map(|t| t.code()) == Some(c as u32);
                }
            }
            1 => {
                for (i, c) in S.chars().enumerate() {
                    same &= input.peek_ahead(i).map(|t| t.code()) == Some(c as u32);
                }
                if same {
                    input.fast_forward(S.chars().count());
                }
            }
            _ => {
                let mut cursor = input.cursor();
                for c in S.chars() {
                    same &= cursor.next().map(|t| t.code()) == Some(c as u32);
                }
                let pos = cursor.position();
                if same {
                    input.fast_forward(pos);
                }
            }
        }
        if same {
            Ok(XTag(Counted::new()))
        } else {
            Err(eyre::eyre!("not {:?}", S))
        }
    }
}

/// Matches one of the characters of `S`, over any elements
pub struct XOne<const S: &'static str>(pub u32, pub Counted);
impl<T: Elem, const S: &'static str> Parse<T> for XOne<S> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        match input.next() {
            Some(t) if S.chars().any(|c| c as u32 == t.code()) => Ok(XOne(t.code(), Counted::new())),
            _ => Err(eyre::eyre!("none of {:?}", S)),
        }
    }
    fn peek(input: &mut impl Buffer<T>) -> bool {
        fault_point();
        match input.next() {
            Some(t) => S.chars().any(|c| c as u32 == t.code()),
            None => false,
        }
    }
}

/// Matches a run of at least one of the characters of `S`, over any elements
pub struct XRun1<const S: &'static str>(pub Vec<u32>, pub Counted);
impl<T: Elem, const S: &'static str> Parse<T> for XRun1<S> {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        let mut out = vec![];
        loop {
            match input.peek_ahead(0) {
                Some(t) if S.chars().any(|c| c as u32 == t.code()) => out.push(t.code()),
                _ => break,
            }
            input.fast_forward(1);
        }
        if out.is_empty() {
            Err(eyre::eyre!("no run of {:?}", S))
        } else {
            Ok(XRun1(out, Counted::new()))
        }
    }
}

/// Matches the end of the input, consuming nothing
pub struct XEof(pub Counted);
impl<T: Elem> Parse<T> for XEof {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        match input.next() {
            None => Ok(XEof(Counted::new())),
            Some(_) => Err(eyre::eyre!("not at the end")),
        }
    }
}

/// Matches anything, consuming nothing
pub struct XNothing(pub Counted);
impl<T: Elem> Parse<T> for XNothing {
    fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        Ok(XNothing(Counted::new()))
    }
}

/// Matches nothing at all, and does not even look
pub struct XNever(pub Counted);
impl<T: Elem> Parse<T> for XNever {
    fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fault_point();
        Err(eyre::eyre!("never"))
    }
}

/// Any value can be converted to this
pub struct Kept<P>(pub P, pub Counted);
impl<P> From<P> for Kept<P> {
    fn from(p: P) -> Self {
        fault_point();
        Kept(p, Counted::new())
    }
}

/// Runs of at most three can be converted to this
pub struct Short(pub Vec<u32>, pub Counted);
#[derive(Debug)]
pub struct TooLong;
impl std::fmt::Display for TooLong {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "too long")
    }
}
impl std::error::Error for TooLong {}
impl<const S: &'static str> TryFrom<XRun1<S>> for Short {
    type Error = TooLong;
    fn try_from(r: XRun1<S>) -> Result<Self, TooLong> {
        fault_point();
        if r.0.len() <= 3 {
            Ok(Short(r.0, Counted::new()))
        } else {
            Err(TooLong)
        }
    }
}
impl<const S: &'static str> TryFrom<nommy::text::AnyOf1<S>> for Short {
    type Error = TooLong;
    fn try_from(r: nommy::text::AnyOf1<S>) -> Result<Self, TooLong> {
        fault_point();
        let s: String = r.into();
        if s.chars().count() <= 3 {
            Ok(Short(s.chars().map(|c| c as u32).collect(), Counted::new()))
        } else {
            Err(TooLong)
        }
    }
}
