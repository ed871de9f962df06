//! Values, in a form that the reference interpreter and the real parsers share.
//! Names do not appear, so that renamed declarations can be compared.
use nommy::{bytes, text, Vec1};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Unit,
    Ch(u32),
    Str(Vec<u32>),
    Num(u128),
    No,
    Yes(Box<V>),
    List(Vec<V>),
    /// a struct's fields in declaration order
    Seq(Vec<V>),
    /// a variant's index and fields
    Var(usize, Vec<V>),
}

pub trait IntoV {
    fn v(self) -> V;
}

impl IntoV for () {
    fn v(self) -> V {
        V::Unit
    }
}
impl IntoV for char {
    fn v(self) -> V {
        V::Ch(self as u32)
    }
}
impl IntoV for u8 {
    fn v(self) -> V {
        V::Ch(u32::from(self))
    }
}
impl IntoV for usize {
    fn v(self) -> V {
        V::Num(self as u128)
    }
}
impl IntoV for String {
    fn v(self) -> V {
        V::Str(self.chars().map(|c| c as u32).collect())
    }
}
/// A byte string (a list field of bytes would be a `List`)
pub struct Bytes(pub Vec<u8>);
impl IntoV for Bytes {
    fn v(self) -> V {
        V::Str(self.0.into_iter().map(u32::from).collect())
    }
}
impl<P: IntoV> IntoV for Option<P> {
    fn v(self) -> V {
        match self {
            None => V::No,
            Some(p) => V::Yes(Box::new(p.v())),
        }
    }
}
impl<P: IntoV> IntoV for Vec<P> {
    fn v(self) -> V {
        V::List(self.into_iter().map(IntoV::v).collect())
    }
}
impl<P: IntoV> IntoV for Vec1<P> {
    fn v(self) -> V {
        let n = self.as_ref().len();
        let v: Vec<P> = self.into();
        assert_eq!(n, v.len(), "Vec1::as_ref and Vec::from disagree");
        v.v()
    }
}
impl<P: IntoV, const N: usize> IntoV for [P; N] {
    fn v(self) -> V {
        let mut out = Vec::with_capacity(N);
        for p in std::array::IntoIter::new(self) {
            out.push(p.v());
        }
        V::List(out)
    }
}
impl<P: IntoV> IntoV for Box<P> {
    fn v(self) -> V {
        (*self).v()
    }
}

impl<const S: &'static str> IntoV for text::Tag<S> {
    fn v(self) -> V {
        V::Unit
    }
}
impl<const S: &'static [u8]> IntoV for bytes::Tag<S> {
    fn v(self) -> V {
        V::Unit
    }
}
impl<const S: &'static str> IntoV for text::OneOf<S> {
    fn v(self) -> V {
        let c: char = self.into();
        c.v()
    }
}
impl<const S: &'static [u8]> IntoV for bytes::OneOf<S> {
    fn v(self) -> V {
        let c: u8 = self.into();
        c.v()
    }
}
impl<const S: &'static str> IntoV for text::AnyOf<S> {
    fn v(self) -> V {
        let s: String = self.into();
        s.v()
    }
}
impl<const S: &'static str> IntoV for text::AnyOf1<S> {
    fn v(self) -> V {
        let s: String = self.into();
        s.v()
    }
}
impl<const S: &'static str> IntoV for text::WhileNot1<S> {
    fn v(self) -> V {
        let s: String = self.into();
        s.v()
    }
}
impl<const S: &'static [u8]> IntoV for bytes::AnyOf1<S> {
    fn v(self) -> V {
        let s: Vec<u8> = self.into();
        Bytes(s).v()
    }
}
impl IntoV for text::Space {
    fn v(self) -> V {
        V::Unit
    }
}
impl IntoV for text::WhiteSpace {
    fn v(self) -> V {
        V::Unit
    }
}
impl IntoV for text::LineEnding {
    fn v(self) -> V {
        V::Unit
    }
}
