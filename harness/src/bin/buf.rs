//! The checks that need no parsers: histories of buffer operations
use nmon::engine::{main as engine, Entry};
use nmon::exec::exec;
use nmon::model::{Kind, G};
use nmon::tok::{Tok, XNothing};

fn main() {
    let entry = |name| Entry {
        name,
        decl: "",
        kind: Kind::Tok,
        group: "",
        g: || G::Nothing,
        exec: exec::<Tok, XNothing>,
    };
    engine(vec![entry("history-1"), entry("history-2"), entry("history-3"), entry("history-4")])
}
