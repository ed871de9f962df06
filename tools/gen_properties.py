#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os

B = "nommy/src/buffer.rs"; I = "nommy/src/impls.rs"; V = "nommy/src/vec.rs"; L = "nommy/src/lib.rs"
TXT = ["nommy/src/text/mod.rs", "nommy/src/text/tag.rs", "nommy/src/text/one_of.rs", "nommy/src/text/many.rs"]
BYT = ["nommy/src/bytes/tag.rs", "nommy/src/bytes/one_of.rs", "nommy/src/bytes/many.rs"]
FN = "nommy-derive/src/fn_impl.rs"; AT = "nommy-derive/src/attr.rs"
EN = ["nommy-derive/src/enum_impl/mod.rs", "nommy-derive/src/enum_impl/named.rs", "nommy-derive/src/enum_impl/unnamed.rs", "nommy-derive/src/enum_impl/unit.rs"]
ST = ["nommy-derive/src/struct_impl/named.rs", "nommy-derive/src/struct_impl/unnamed.rs", "nommy-derive/src/struct_impl/unit.rs"]

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Buffers and cursors read the source transparently",
 "For any source and any interleaving of next, peek-ahead, fast-forward and (nested) cursor operations, a buffer yields exactly the source's remaining elements in order, fast-forwarding by n skips exactly the next n of them, and peeking ahead by i returns the element i places further on without moving. Reading, fast-forwarding or resetting a cursor, and dropping it, never changes what its parent yields next. A cursor's position is the number of elements it has read or skipped since it was made (or reset), so fast-forwarding the parent by it moves the parent exactly to where the cursor stood.",
 ["histories", "inputs"], "all sources (empty, short, long, infinite), all sequences of buffer and cursor operations, all nesting depths",
 "The two buffer unit tests run one fixed sequence of about ten operations each over one source, with at most two cursors and a fast-forward of 2 on a fresh buffer; every branch that depends on how much is buffered relative to the operation is reached by at most one history.",
 [B], [("Buf::next / fast_forward / peek_ahead over the VecDeque and the source", B), ("Cursor::{next, peek_ahead, fast_forward, cursor, position, reset_internal}", B)],
 ["values returned by every operation at the public Buffer/Iterator interface"],
 state=[("Buf.buffer", "elements pulled from the source and not yet consumed", B), ("Cursor.base/index", "offset from the root buffer and progress since creation", B)])

prop("C02", "Lookahead is lazy, and what is consumed is released",
 "The source is asked for its elements in order, each once, and never for one beyond the furthest that an operation or parser has to look at to give its result, so parsing works on infinite and interactive sources. Elements that were consumed are dropped rather than kept, so that memory is bounded by the outstanding lookahead. Every element, and every copy of one, is dropped exactly once by the time the buffer is gone.",
 ["histories", "inputs"], "all operation histories on buffers and cursors, and all parsers on all inputs, including unbounded sources",
 "No test counts what is pulled from the source, and none observes drops or how much is retained; the tests' sources are short strings whose length hides over-reading.",
 [B, I, V] + TXT + BYT, [("peek_ahead pulls only up to the requested index; fast_forward drops the skipped elements", B), ("parsers read through cursors and commit with fast_forward", I)],
 ["calls to the source iterator's next", "construction, clone and drop of every element"],
 "cfg(nommy_monitor): a public constructor of a Cursor over any Buffer, so that a monitoring Buffer can stand in for Buf")

prop("C03", "peek agrees with parse",
 "For every parser (built-in, combinator or derived), whatever the input, peek returns true exactly when parse would succeed, and both then consume the same elements; failures to convert a successfully parsed value into a field's type are the only exception.",
 ["inputs", "programs"], "all built-in parsers, all compositions of combinators, all derived types and attribute configurations, all inputs",
 "Peek is exercised by a handful of unit tests on one matching input each; no test peeks a derived type at all, or compares the two on a rejected input.",
 TXT + BYT + [I, V, FN] + EN + ST, [("paired parse/peek bodies in every impl", I), ("derive builds peek_impl and parse_impl side by side", FN)],
 ["result of peek and parse on equal inputs", "elements left in the buffer after each"])

prop("C04", "A failed attempt leaves no trace",
 "When an optional part, a further repetition, an enum variant, a list element or separator, or an ignored token is tried and does not match, whatever it had read before failing is still there for whatever is parsed next. Parsing continues exactly after the last part that matched, and an Option or Vec that matches nothing consumes nothing.",
 ["inputs", "programs"], "all nestings of Option, Vec, Vec1, derived enums, list fields and ignore types, over all inputs in which an attempt fails after having read some elements",
 "The tests' alternatives and repetitions use one-character tags, which fail on their first element: no test makes an attempt read several elements before it fails and then looks at what is left.",
 [I, V, FN, "nommy/src/text/many.rs", "nommy/src/bytes/many.rs"], [("attempt on a cursor, fast_forward only on success", I), ("cursor.reset_internal between variants", FN), ("separator and element are committed together", V)],
 ["elements left in the buffer after success", "value parsed by what follows the failed attempt"])

prop("C05", "Basic text and byte parsers match exactly what they say",
 "A tag matches exactly its own characters or bytes, whatever they are; one-of matches one member of its set; any-of, at-least-one-of and while-not take the longest run of members (non-members), the last two failing on an empty run; line ending, space and white space match \"\\n\" or \"\\r\\n\", a tab or space, and either of those. On success each consumes exactly what it matched and yields it unchanged.",
 ["inputs"], "all sets and tags (ASCII and not, short and long, with repeated elements), all char and byte inputs",
 "Each parser is tested on one or two ASCII inputs of under ten characters; non-ASCII tags, long runs, ends of input and near misses are never tried.",
 TXT + BYT, [("Tag, OneOf, AnyOf, AnyOf1, WhileNot1, LineEnding, Space, WhiteSpace", "nommy/src/text"), ("Tag, OneOf, AnyOf1", "nommy/src/bytes")],
 ["value returned", "elements left in the buffer"])

prop("C06", "Repetition and wrapper combinators yield all matches in order",
 "Vec yields the longest sequence of consecutive matches, Vec1 the same but fails without at least one, an array of N yields exactly N consecutive matches or fails, Option yields the match or none without failing, and Box is transparent. The elements are the values the inner parser returned, in input order, none lost, duplicated or reordered.",
 ["inputs", "programs"], "all inner parsers that consume at least one element where repeated, all nestings, all inputs, all lengths (including thousands of repetitions and arrays of 0 to many)",
 "The unit tests repeat only the one-character tag \".\", whose values carry no information, at most three times; order, loss and duplication cannot be seen with it.",
 [I], [("Option/Vec/Vec1/[P; N]/Box impls of Parse", I)], ["value returned", "elements left in the buffer"])

prop("C07", "A derived struct parses its parts in order",
 "A derived struct parses its prefix, then for each field in declaration order the field's prefix, value and suffix, then its suffix, skipping as many ignored tokens as there are after each of these parts, and fails if and only if one of them fails. Each field gets the value that its own parser returned.",
 ["programs", "inputs"], "all structs (named, tuple, unit, generic, nested) with any combination of the documented attributes and any number of fields, all inputs",
 "The example programs cover about fifteen struct shapes with one accepted input each; combinations of attributes, field counts above four and rejected inputs are hardly touched.",
 [FN, AT, "nommy-derive/src/parsers.rs", "nommy-derive/src/ty.rs"] + ST, [("Builder::add_fix / add_field / ignore in order", FN)],
 ["value returned", "accept or reject", "elements left in the buffer"])

prop("C08", "A derived enum returns its first matching variant",
 "A derived enum parses its prefix, then the first variant in declaration order whose own parts all parse from that same place, then its suffix, and fails if no variant parses; a variant that fails part-way never affects the ones after it, and later variants are not considered once one has matched. Ignored tokens declared on the enum or on the variant are skipped after each part of the variant.",
 ["programs", "inputs"], "all enums (named, tuple and unit variants, any number, overlapping or common beginnings, nested and recursive), all inputs",
 "The tests' enums have variants that are told apart by their first character, so order, overlap and backtracking between variants are never decided by an observed result.",
 [FN, AT] + EN, [("start_variants / add_variant / finish_variants", FN), ("reset_internal before each variant", FN), ("extend_with inherits the enum's ignore types", AT)],
 ["variant and field values returned", "elements left in the buffer"])

prop("C09", "No memory error, and every parsed value is dropped exactly once",
 "No parse or peek, successful or not, reads uninitialised or freed memory, writes out of bounds, or leaks. Every value that an inner parser returns is moved to the caller or dropped, exactly once, also when a later part fails or when a user's parser, conversion or source panics half-way.",
 ["inputs", "fault_sequences"], "all element types with and without drop glue, arrays and collections of all sizes, a failure or panic injected at every point",
 "The one array test uses a zero-sized element without drop glue, and never a failing one; tests run without any sanitizer, leak check or injected panic.",
 [I, B, V], [("construction of [P; N] and of vectors", I), ("VecDeque buffering", B)],
 ["AddressSanitizer and memcheck reports", "ledger of constructed and dropped values", "balance of the allocator after each parse"])

prop("C10", "Parsing and peeking terminate without panicking",
 "On every finite input every parse and peek returns, provided repeated and ignored parts cannot match nothing, and it never panics. The number of elements it reads is within a constant factor of what plain recursive descent over the same input reads, and it does not keep polling an exhausted source.",
 ["inputs", "programs"], "all finite inputs (in particular those that end anywhere), all built-in parsers and derived types",
 "A hang or panic needs an input that ends at an unusual place or a particular mismatch; the tests run a few dozen well-formed inputs.",
 TXT + BYT + [I, V, B, FN], [("loops end on a mismatch or at the end of input", "nommy/src/text/many.rs"), ("repetition loops break on failure", I)],
 ["reads at the buffer interface, polls of the source, counted as logical steps", "panics crossing the public API"],
 "cfg(nommy_monitor): constructor of a Cursor over a monitoring Buffer, for counting steps")

prop("C11", "An error names the part that failed",
 "When a derived parser fails, the error message names the field, or the prefix or suffix of which field, struct or enum, that was the first not to parse, and its chain of causes goes on to name the parts that failed inside it, down to the basic parser's own report. An array's error names the index of the first element that failed, a tag's or one-of's what was expected and what was found, and an enum's the enum when none of its variants parsed.",
 ["inputs", "programs"], "all derived types, all nestings, all points of failure",
 "The tests look at five error messages, all of a failure at depth one.",
 [FN, I, "nommy/src/text/tag.rs", "nommy/src/bytes/tag.rs", "nommy/src/text/one_of.rs", "nommy/src/bytes/one_of.rs"], [("wrap_err on each field; eyre! for prefix, suffix and enum", FN), ("wrap_err_with element index", I)],
 ["eyre::Report::chain of the returned error"])

prop("C12", "parse_terminated accepts exactly the fully consumed inputs",
 "For every parser and input, parse_terminated succeeds exactly when parse succeeds and has consumed the whole input, and then returns the same value; when parse fails it reports the same error. parse itself does not care what follows.",
 ["inputs", "programs"], "all parsers, all inputs, with and without trailing elements, including sources whose remaining length is unknown",
 "One doc test tries it with a single tag on two inputs.",
 [L], [("parse_terminated's look at buffer.next() after parsing", L)], ["Ok/Err and value of parse and parse_terminated on equal inputs"])

prop("C13", "A parser behaves the same on every buffer and at every offset",
 "Parsing gives the same result, error and consumption whether it runs on a fresh buffer, on one that has already been read from or looked ahead in, on a cursor of any depth, or on any other lawful implementation of the buffer interface, and regardless of what precedes the current position. Parsing from a cursor leaves the parent untouched until it is fast-forwarded.",
 ["inputs", "histories"], "all parsers and inputs, all prior states of the buffer (consumed prefix, amount looked ahead), all cursor depths, other Buffer implementations",
 "Tests parse almost only from the start of a fresh buffer, with a cursor of depth one in three cases.",
 [B, I, V, FN] + TXT + BYT, [("parsers use only the Buffer interface", L), ("Cursor composes offsets (base + index)", B)],
 ["result and consumption on each kind of buffer, compared with each other"],
 "cfg(nommy_monitor): constructor of a Cursor over any Buffer")

prop("C14", "Attribute layout and names do not change a derived parser",
 "Any valid combination of the documented attributes compiles, and attributes mean the same whether they are written in one block or several, in any order; several ignore types that cannot begin alike mean the same in whatever order. The names of the type, its fields and its variants, and the choice between named and tuple form, never change what is accepted, consumed or yielded.",
 ["programs", "configurations"], "all attribute sets, their partitions into blocks and permutations, all identifiers, attribute types with generic arguments",
 "The example programs use a few layouts and never compare two layouts of the same declaration.",
 [AT, FN, "nommy-derive/src/parsers.rs", "nommy-derive/src/lib.rs"] + EN + ST, [("parse_attrs accumulates over attributes and comma-separated arguments", AT), ("generated bindings and helper names", FN)],
 ["whether the generated program compiles", "outcome of the variants of one declaration on equal inputs"])

prop("C15", "Field conversions give exactly the parsed value or an error",
 "A field with its own parser holds exactly the conversion of what that parser returned: text as the matched string, digits as the number they denote. A conversion that is impossible (such as a number too large) makes the parse return an error, and never panics, wraps around or yields a default.",
 ["inputs"], "all matched texts, in particular digit strings of every length around the limits of usize, for plain fields and list fields",
 "Two tests convert a few small numbers; no conversion ever fails in a test.",
 ["nommy/src/text/many.rs", "nommy/src/bytes/many.rs", "nommy/src/text/one_of.rs", "nommy/src/bytes/one_of.rs", V, FN], [("From/TryFrom impls of the basic parsers", "nommy/src/text/many.rs"), ("try_into()? in derived parse and in vec.rs", FN)],
 ["value of the field or the error"])

prop("C16", "Debug and release builds parse alike",
 "With optimisation and debug assertions on or off, the same program gives the same result, value, error and consumption for the same input, for all parsers whose repeated parts cannot match nothing.",
 ["configurations", "inputs", "programs"], "both build modes, all parsers and inputs",
 "The test suite is only ever run in debug mode, while the code branches on debug assertions.",
 [I, FN, B, V], [("cfg!(debug_assertions) only guards panics", I), ("cfg!(debug_assertions) in generated ignore code", FN)],
 ["stream of outcome digests of one workload, from both builds"])

prop("C17", "Debug builds detect zero-width repetition instead of looping",
 "In debug builds, when the inner parser of Vec, Vec1 or Option, or an ignore type, succeeds without consuming anything, parse and peek panic at that point with a message that says so, instead of looping forever; and they do not panic otherwise. This also holds when the inner parser has only looked at the end of the input.",
 ["inputs", "programs"], "all inner parsers that can match nothing, nested to any depth, all inputs (with or without something to match first), parse and peek",
 "One should_panic doc test shows it for Vec of Option of a tag.",
 [I, FN, B], [("cursor.position() == 0 check under cfg!(debug_assertions)", I), ("the same check in the generated ignore code", FN)],
 ["panic or return of parse and peek, within a budget of steps"])

prop("C18", "Derive reports every malformed attribute",
 "A nommy attribute that is unknown, misplaced or malformed makes the derive emit a compile error located at that item; the macro never panics and never accepts it silently. Unsupported items such as unions are reported likewise.",
 ["programs"], "all token streams in a nommy attribute that are not of a documented form, on types, variants and fields",
 "No test derives on an invalid declaration.",
 [AT, "nommy-derive/src/lib.rs"], [("parse_attr / parse_arg / parse_type / parse_trailing return syn::Error", AT), ("to_compile_error", "nommy-derive/src/lib.rs")],
 ["the compiler's JSON diagnostics, per declaration"])

prop("C19", "List parsing takes the right elements, separators and ignored tokens",
 "The list functions, and derived fields with inner_parser, yield consecutive elements up to the maximum: plain lists have optional ignored tokens between elements; separated lists a separator (ignored tokens around it) between elements, a trailing separator being left alone by default, required after every element with trailing \"yes\", and taken if present with \"maybe\". Everything up to the end of the last element (or of its trailing separator, as the mode demands) is consumed, and a following incomplete element or stray separator is left in place; a derived field then skips ignored tokens like any other.",
 ["inputs", "programs"], "all element, separator and ignore parsers, all maxima, all four modes, all inputs, including separators and elements that fail after reading several elements",
 "Seven tests parse two variants of one three-element list; maxima of 0 and 1, empty lists, doubled separators, ignored tokens at the edges and multi-character separators are not tried.",
 [V, FN], [("parse_vec, parse_vec_seperated_by, .._trailing, .._maybe_trailing", V), ("selection of the function from the attributes", FN)],
 ["list returned", "elements left in the buffer"])

prop("C20", "Ignored tokens never change what is parsed",
 "Wherever a derived type skips ignored tokens, which is after each of its parts and between the elements and separators of its lists, any number of them, of any of its ignore types in any order and mixture, gives the same value as none, and all of them are consumed, on parse and on peek alike. They are skipped nowhere else: not before the first part, nor inside a part whose own type does not ignore them.",
 ["inputs", "programs"], "all derived types with ignore, all accepted inputs whose following part cannot be mistaken for an ignored token, all places, all mixtures and amounts",
 "The tests contain single spaces and newlines in a few fixed places, and never the same input with and without them.",
 [FN, I, AT], [("__ParseIgnore and Vec<__ParseIgnore>::peek after each part", FN)],
 ["values and consumption of an input and of its variants with ignored tokens added"])

prop("C21", "Recursive derived grammars invert printing",
 "For recursive derived types (JSON-like values, s-expressions, XML-like trees, HTTP-like messages, nested type declarations), parsing any printing of a value, with any layout the grammar allows, returns that value and consumes all of it. Nothing depends on the depth or size of the value.",
 ["inputs"], "all values of the types up to several hundred nodes and nesting of some hundred levels, all layouts",
 "Each example program parses one fixed document, and some never look at the result.",
 [FN, I, V, B, "nommy-derive/src/ty.rs"] + EN + ST, [("derive with parse_type for recursive types", FN), ("cursors nested through Vec, Box, enum and list fields", B)],
 ["value returned for a printed value", "elements left in the buffer"])

prop("C22", "Parsing does not depend on the element type",
 "The combinators and derived types behave the same over chars, bytes and user-defined elements: for inputs that correspond element by element the results correspond, and text and byte parsers agree on ASCII. A derived type without parse_type works for every element type that its parts can parse.",
 ["inputs", "programs"], "all combinators and derived shapes instantiated for char, u8 and a user-defined element with a non-trivial Clone and Drop, all inputs",
 "All tests but two parse chars, and no test derives over bytes or user-defined elements.",
 [I, V, FN, L] + BYT, [("impls generic in T", I), ("__ParseGenericType", FN)], ["outcomes on corresponding inputs, compared with each other"])

prop("C23", "Parsing is a function of its input",
 "Parsing the same input with the same parser gives the same result, error and consumption every time, whatever was parsed before, in whatever order, on whichever thread, and while other parses of any kind are under way on other threads.",
 ["schedules", "histories"], "all sequences and concurrent schedules of parses of any parsers on any inputs",
 "Each test parses an input once; the parses that do run in parallel in the test runner are never compared.",
 [L, B, I, V, FN] + TXT + BYT, [("no global or thread-local state anywhere in the crate", L)],
 ["outcome digests of the same cases across repetitions, orders and threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
