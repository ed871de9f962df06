#![feature(const_generics)]
#![allow(incomplete_features)]
//! Runtime monitors for nommy.
pub mod alloc;
pub mod bufplay;
pub mod checks;
pub mod engine;
pub mod exec;
pub mod m;
pub mod model;
pub mod rng;
pub mod sample;
pub mod tok;
pub mod val;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub mod prelude {
    //! What generated programs use
    pub use crate::engine::Entry;
    pub use nommy;
    pub use crate::exec::exec;
    pub use crate::m::{ListFn, CV, M};
    pub use crate::model::{EDef, FDef, Kind, SDef, Trail, FV, G};
    pub use crate::tok::{Elem, Fat, One, Wide, Kept, Short, Tok, XEof, XNever, XNothing, XOne, XRun1, XTag};
    pub use crate::val::{IntoV, V};
    pub use nommy::{bytes, text, Vec1};
    pub use std::rc::Rc;
}
