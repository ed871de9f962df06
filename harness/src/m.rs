//! What each parser type stands for: its grammar, and its values in the model's terms.
use crate::model::{id, Conv, Kind, LDef, Trail, G};
use crate::tok::{Counted, Elem, Kept, Short, XEof, XNever, XNothing, XOne, XRun1, XTag};
use crate::val::{IntoV, V};
use nommy::{bytes, eyre, text, vec, Buffer, Parse, Vec1};
use std::convert::TryInto;
use std::marker::PhantomData;
use std::rc::Rc;

pub trait M<T>: Parse<T> + IntoV + 'static {
    fn g() -> G;
    /// What stands behind a grammar that is given lazily
    fn real() -> G {
        Self::g()
    }
}

fn cs(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn bs(s: &[u8]) -> Vec<u32> {
    s.iter().map(|c| u32::from(*c)).collect()
}

macro_rules! text {
    ($($t:ident => |$s:ident| $g:expr;)*) => { $(
        impl<const S: &'static str> M<char> for text::$t<S> {
            fn g() -> G { let $s = cs(S); $g }
        }
    )* };
}
text! {
    Tag => |s| G::Tag(s, Kind::Text);
    OneOf => |s| G::OneOf(s, Kind::Text);
    AnyOf => |s| G::AnyOf(s);
    AnyOf1 => |s| G::AnyOf1(s);
    WhileNot1 => |s| G::WhileNot1(s);
}
impl M<char> for text::LineEnding {
    fn g() -> G {
        G::LineEnding
    }
}
impl M<char> for text::Space {
    fn g() -> G {
        G::Space
    }
}
impl M<char> for text::WhiteSpace {
    fn g() -> G {
        G::WhiteSpace
    }
}
impl<const S: &'static [u8]> M<u8> for bytes::Tag<S> {
    fn g() -> G {
        G::Tag(bs(S), Kind::Bytes)
    }
}
impl<const S: &'static [u8]> M<u8> for bytes::OneOf<S> {
    fn g() -> G {
        G::OneOf(bs(S), Kind::Bytes)
    }
}
impl<const S: &'static [u8]> M<u8> for bytes::AnyOf1<S> {
    fn g() -> G {
        G::AnyOf1(bs(S))
    }
}

fn intact(c: &Counted) {
    assert!(c.intact(), "a value was handed out that is not intact");
}
impl<const S: &'static str> IntoV for XTag<S> {
    fn v(self) -> V {
        intact(&self.0);
        V::Unit
    }
}
impl<const S: &'static str> IntoV for XOne<S> {
    fn v(self) -> V {
        intact(&self.1);
        V::Ch(self.0)
    }
}
impl<const S: &'static str> IntoV for XRun1<S> {
    fn v(self) -> V {
        intact(&self.1);
        V::Str(self.0)
    }
}
impl IntoV for XEof {
    fn v(self) -> V {
        intact(&self.0);
        V::Unit
    }
}
impl IntoV for XNever {
    fn v(self) -> V {
        unreachable!("it never matches")
    }
}
impl<T: Elem> M<T> for XNever {
    fn g() -> G {
        G::Never
    }
}
impl IntoV for XNothing {
    fn v(self) -> V {
        intact(&self.0);
        V::Unit
    }
}
impl IntoV for Short {
    fn v(self) -> V {
        intact(&self.1);
        V::Str(self.0)
    }
}
impl<P: IntoV> IntoV for Kept<P> {
    fn v(self) -> V {
        intact(&self.1);
        self.0.v()
    }
}
impl<T: Elem, const S: &'static str> M<T> for XTag<S> {
    fn g() -> G {
        G::Tag(cs(S), Kind::Tok)
    }
}
impl<T: Elem, const S: &'static str> M<T> for XOne<S> {
    fn g() -> G {
        G::OneOf(cs(S), Kind::Tok)
    }
}
impl<T: Elem, const S: &'static str> M<T> for XRun1<S> {
    fn g() -> G {
        G::AnyOf1(cs(S))
    }
}
impl<T: Elem> M<T> for XEof {
    fn g() -> G {
        G::Eof
    }
}
impl<T: Elem> M<T> for XNothing {
    fn g() -> G {
        G::Nothing
    }
}

impl<T: 'static, P: M<T>> M<T> for Option<P> {
    fn g() -> G {
        G::Opt(Rc::new(P::g()))
    }
}
impl<T: 'static, P: M<T>> M<T> for Vec<P> {
    fn g() -> G {
        G::Many(Rc::new(P::g()))
    }
}
impl<T: 'static, P: M<T>> M<T> for Vec1<P> {
    fn g() -> G {
        G::Many1(Rc::new(P::g()))
    }
}
impl<T: 'static, P: M<T>, const N: usize> M<T> for [P; N] {
    fn g() -> G {
        G::Arr(N, Rc::new(P::g()))
    }
}
impl<T: 'static, P: M<T>> M<T> for Box<P> {
    fn g() -> G {
        P::g()
    }
}

/// How the value of a parser becomes that of a field
pub trait CV<Q> {
    const C: Conv;
    const FALLIBLE: bool = false;
}
impl<P: IntoV> CV<P> for P {
    const C: Conv = id;
}
impl<P: IntoV> CV<Kept<P>> for P {
    const C: Conv = id;
}
impl<const S: &'static str> CV<char> for text::OneOf<S> {
    const C: Conv = id;
}
impl<const S: &'static [u8]> CV<u8> for bytes::OneOf<S> {
    const C: Conv = id;
}
impl<const S: &'static str> CV<String> for text::AnyOf<S> {
    const C: Conv = id;
}
impl<const S: &'static str> CV<String> for text::AnyOf1<S> {
    const C: Conv = id;
}
impl<const S: &'static str> CV<String> for text::WhileNot1<S> {
    const C: Conv = id;
}
fn str_to_list(v: V) -> Option<V> {
    match v {
        V::Str(s) => Some(V::List(s.into_iter().map(V::Ch).collect())),
        _ => None,
    }
}
impl<const S: &'static [u8]> CV<Vec<u8>> for bytes::AnyOf1<S> {
    const C: Conv = str_to_list;
}
/// What usize::from_str is documented to do: an optional +, then decimal digits
pub fn to_usize(v: V) -> Option<V> {
    let s = match v {
        V::Str(s) => s,
        _ => return None,
    };
    let digits = if s.first() == Some(&0x2b) { &s[1..] } else { &s[..] };
    if digits.is_empty() {
        return None;
    }
    let mut n: u128 = 0;
    for d in digits {
        if !(0x30..=0x39).contains(d) {
            return None;
        }
        n = n * 10 + u128::from(*d - 0x30);
        if n > usize::MAX as u128 {
            return None;
        }
    }
    Some(V::Num(n))
}
impl<const S: &'static str> CV<usize> for text::AnyOf1<S> {
    const C: Conv = to_usize;
    const FALLIBLE: bool = true;
}
fn short(v: V) -> Option<V> {
    match v {
        V::Str(s) if s.len() <= 3 => Some(V::Str(s)),
        _ => None,
    }
}
impl<const S: &'static str> CV<Short> for text::AnyOf1<S> {
    const C: Conv = short;
    const FALLIBLE: bool = true;
}
impl<const S: &'static str> CV<Short> for XRun1<S> {
    const C: Conv = short;
    const FALLIBLE: bool = true;
}

/// A parser written by calling one of the list functions
pub struct ListFn<P, Q, S, I, const MODE: usize, const MAX: usize>(Vec<Q>, PhantomData<(P, S, I)>);

impl<T, P, Q, S, I, const MODE: usize, const MAX: usize> Parse<T> for ListFn<P, Q, S, I, MODE, MAX>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: std::error::Error + Send + Sync + 'static,
    S: Parse<T>,
    I: Parse<T>,
{
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        let out = match MODE {
            0 => vec::parse_vec::<P, Q, I, T, _>(MAX, input),
            1 => vec::parse_vec_seperated_by::<P, Q, S, I, T, _>(MAX, input),
            2 => vec::parse_vec_seperated_by_trailing::<P, Q, S, I, T, _>(MAX, input),
            _ => vec::parse_vec_seperated_by_maybe_trailing::<P, Q, S, I, T, _>(MAX, input),
        }?;
        Ok(ListFn(out, PhantomData))
    }
}
impl<P, Q: IntoV, S, I, const MODE: usize, const MAX: usize> IntoV for ListFn<P, Q, S, I, MODE, MAX> {
    fn v(self) -> V {
        self.0.v()
    }
}
impl<T, P, Q, S, I, const MODE: usize, const MAX: usize> M<T> for ListFn<P, Q, S, I, MODE, MAX>
where
    T: 'static,
    P: M<T> + TryInto<Q> + CV<Q>,
    <P as TryInto<Q>>::Error: std::error::Error + Send + Sync + 'static,
    Q: IntoV + 'static,
    S: M<T>,
    I: M<T>,
{
    fn g() -> G {
        G::List(Rc::new(LDef {
            p: P::g(),
            conv: <P as CV<Q>>::C,
            sep: if MODE == 0 { None } else { Some(S::g()) },
            trail: match MODE {
                0 | 1 => Trail::No,
                2 => Trail::Yes,
                _ => Trail::Maybe,
            },
            max: MAX,
            ignore: vec![I::g()],
        }))
    }
}
