#!/usr/bin/env python3
"""Generates packs of parsers: Rust programs that use nommy's combinators and derive, each with the
grammar it stands for (harness/src/model.rs). The declaration and the grammar are written from the same
description, by separate code, and neither is derived from what nommy does.

gen.py PACK SEED SHARD COUNT OUTDIR

What a pack always has is in its shard 0; the rest is random."""
import glob, os, random, re, sys

KINDS = {"char": ("char", "Text"), "u8": ("u8", "Bytes"), "tok": ("Tok", "Tok"),
         # elements of other sizes; of "one" there is only one, which takes no space
         "fat": ("Fat", "Tok"), "wide": ("Wide", "Tok"), "trip": ("(u8, u32, u8)", "Tok"), "one": ("One", "Tok")}

# ---------------------------------------------------------------- parsers
# ("tag", s) ("one", s) ("run", s) exist over every kind; ("anyof", s) ("until", s) ("le",) ("sp",) ("ws",)
# over chars; a trailing "x" marks the user-written version. ("opt"|"vec"|"vec1"|"box", p) ("arr", n, p)
# ("eof",) ("nothing",) ("never",) ("decl", D) ("param", i) ("listfn", p, target, sep, ignore, mode, max)


def rstr(s):
    out = '"'
    for c in s:
        if c == '"' or c == "\\":
            out += "\\" + c
        elif 0x20 <= ord(c) < 0x7F:
            out += c
        else:
            out += "\\u{%x}" % ord(c)
    return out + '"'


def rbytes(s):
    out = 'b"'
    for b in s.encode("latin-1"):
        if b in (0x22, 0x5C):
            out += "\\" + chr(b)
        elif 0x20 <= b < 0x7F:
            out += chr(b)
        else:
            out += "\\x%02x" % b
    return out + '"'


LEAF = {"tag": "Tag", "one": "OneOf", "run": "AnyOf1", "anyof": "AnyOf", "until": "WhileNot1"}
UNIT = {"le": "LineEnding", "sp": "Space", "ws": "WhiteSpace"}
USER = {"tagx": "XTag", "onex": "XOne", "runx": "XRun1"}


def rust(p, kind):
    """The Rust type of a parser"""
    t = p[0]
    if t in LEAF:
        if kind == "char":
            return "text::%s<%s>" % (LEAF[t], rstr(p[1]))
        if kind == "u8":
            return "bytes::%s<%s>" % (LEAF[t], rbytes(p[1]))
        return "%s<%s>" % (USER[t + "x"], rstr(p[1]))
    if t in USER:
        return "%s<%s>" % (USER[t], rstr(p[1]))
    if t in UNIT:
        return "text::%s" % UNIT[t]
    if t == "eof":
        return "XEof"
    if t == "nothing":
        return "XNothing"
    if t == "never":
        return "XNever"
    if t == "opt":
        return "Option<%s>" % rust(p[1], kind)
    if t == "vec":
        return "Vec<%s>" % rust(p[1], kind)
    if t == "vec1":
        return "Vec1<%s>" % rust(p[1], kind)
    if t == "box":
        return "Box<%s>" % rust(p[1], kind)
    if t == "arr":
        return "[%s; %d]" % (rust(p[2], kind), p[1])
    if t == "decl":
        return p[1].path(kind)
    if t == "param":
        return p[1]
    if t == "me":
        # a recursive type within its own declaration, by its name or as Self
        return "Self" if p[2] else p[1].name + p[1].generics()
    if t == "listfn":
        _, q, target, sep, ign, mode, mx = p
        return "ListFn<%s, %s, %s, %s, %d, %s>" % (
            rust(q, kind), target_rust(target, q, kind), rust(sep, kind), rust(ign, kind), mode,
            "{usize::MAX}" if mx is None else mx)
    raise ValueError(p)


def kids(p):
    t = p[0]
    if t in ("opt", "vec", "vec1", "box"):
        return [p[1]]
    if t == "arr":
        return [p[2]]
    if t == "listfn":
        return [p[1], p[3], p[4]]
    return []


def nullable(p):
    t = p[0]
    if t in ("tag", "tagx"):
        return p[1] == ""
    if t in ("anyof", "opt", "vec", "eof", "nothing", "listfn"):
        return True
    if t in ("vec1", "box"):
        return nullable(p[1])
    if t == "arr":
        return p[1] == 0 or nullable(p[2])
    if t == "decl":
        return p[1].nullable()
    if t == "param":
        return nullable(p[2])
    return False


def fallible(p):
    """May fail to convert"""
    t = p[0]
    if t == "decl":
        return p[1].fallible()
    if t == "param":
        return fallible(p[2])
    if t == "listfn" and p[2] in ("usize", "short"):
        return True
    return any(fallible(k) for k in kids(p))


def first(p):
    """Elements it may begin with; None: unknown or anything"""
    t = p[0]
    if t in ("tag", "tagx"):
        return set(p[1][:1]) or None
    if t in ("one", "onex", "run", "runx"):
        return set(p[1])
    if t == "le":
        return set("\r\n")
    if t == "sp":
        return set(" \t")
    if t == "ws":
        return set(" \t\r\n")
    if t in ("vec1", "box"):
        return first(p[1])
    return None


# conversions: how the field's type relates to the parser
def target_rust(target, p, kind):
    if target == "same":
        return rust(p, kind)
    return {"kept": "Kept<%s>" % rust(p, kind), "string": "String", "usize": "usize", "short": "Short",
            "char": "char", "byte": "u8", "bytes": "Vec<u8>"}[target]


def targets(p, kind, fall):
    """Targets a parser's value converts to"""
    out = ["kept"]
    t = p[0]
    if kind == "char" and t in ("run", "anyof", "until"):
        out += ["string"] * 3
        if t == "run" and fall:
            out.append("short")
            if set("0123456789") <= set(p[1]):
                out += ["usize"] * 3
    if t == "runx" and fall:
        out.append("short")
    if kind == "char" and t == "one":
        out += ["char"] * 2
    if kind == "u8" and t == "one":
        out += ["byte"] * 2
    if kind == "u8" and t == "run":
        out += ["bytes"] * 2
    return out


# ---------------------------------------------------------------- declarations
class Field:
    def __init__(self, name, p, prefix=None, suffix=None, target=None, lst=None):
        # target None: the field's type is the parser itself; lst: (sep or None, trailing or None)
        self.name, self.p, self.prefix, self.suffix, self.target, self.lst = name, p, prefix, suffix, target, lst

    def nullable(self):
        return (self.lst is not None or nullable(self.p)) and all(
            nullable(x) for x in (self.prefix, self.suffix) if x)

    def fallible(self):
        return self.target in ("usize", "short") or fallible(self.p)


class Variant:
    def __init__(self, name, style, fields, prefix=None, suffix=None, ignore=()):
        self.name, self.style, self.fields, self.prefix, self.suffix = name, style, fields, prefix, suffix
        self.ignore = list(ignore)

    def nullable(self):
        return all(f.nullable() for f in self.fields) and all(nullable(x) for x in (self.prefix, self.suffix) if x)


class Decl:
    """A derived type. kind: what its basic parsers are written for; typed: has parse_type.
    kinds: element types it can be used over. A struct is a Decl with one variant and enum False."""

    def __init__(self, name, kind, typed, enum, variants, prefix=None, suffix=None, ignore=(), params=(), module=None):
        self.name, self.kind, self.typed, self.enum, self.variants = name, kind, typed, enum, variants
        self.prefix, self.suffix, self.ignore, self.params, self.module = prefix, suffix, list(ignore), list(params), module
        # refers to itself: its grammar is given lazily
        self.rec = False
        # how types are written in the declaration, if not plainly; in_macro: types as the arguments of a macro
        self.spell = None
        self.aliases = []
        self.in_macro = False

    def path(self, kind):
        base = ("%s::" % self.module if self.module else "") + self.name
        if self.params:
            base += "<%s>" % ", ".join(rust(p, kind) for _, p in self.params)
        return base

    def nullable(self):
        if self.rec:
            return False
        own = all(nullable(x) for x in (self.prefix, self.suffix) if x)
        return own and any(v.nullable() for v in self.variants)

    def fallible(self):
        if self.rec:
            return False
        return any(f.fallible() for v in self.variants for f in v.fields)

    # -------- the declaration
    def say(self, p):
        """A type, as it is written in the declaration"""
        text = rust(p, self.kind) if isinstance(p, tuple) else p
        return self.spell(text) if self.spell else text

    def attrs(self, pairs, r):
        """pairs of (key, text) as attribute blocks"""
        def noise():
            # what any item may carry besides
            if r is None or r.random() < 0.6:
                return ""
            return r.choice(['/// Documented, "as" it #[nommy(should)] be\n', "/** in a block */\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n",
                             "#[rustfmt::skip]\n", "#[cfg(all())]\n", "#[doc = \"prefix = Tag\"]\n", "#[allow(clippy::all, unused)]\n"])
        if not pairs:
            return noise()
        pairs = list(pairs)
        if r is not None:
            # ignore keeps its own order: whether that matters is for the caller to say
            ign = [p for p in pairs if p[0] == "ignore"]
            oth = [p for p in pairs if p[0] != "ignore"]
            r.shuffle(oth)
            out = []
            while ign or oth:
                src = ign if (ign and (not oth or r.random() < 0.5)) else oth
                out.append(src.pop(0))
            pairs = out
        blocks = [[]]
        for p in pairs:
            if blocks[-1] and r is not None and r.random() < 0.5:
                blocks.append([])
            blocks[-1].append(p)
        return noise() + "".join("#[nommy(%s)]\n%s" % (", ".join("%s = %s" % p for p in b), noise()) for b in blocks)

    def field_attrs(self, f, r):
        pairs = []
        if f.prefix:
            pairs.append(("prefix", self.say(f.prefix)))
        if f.suffix:
            pairs.append(("suffix", self.say(f.suffix)))
        if f.lst is not None:
            sep, trailing = f.lst
            pairs.append(("inner_parser", self.say(f.p)))
            if sep:
                pairs.append(("seperated_by", self.say(sep)))
            if trailing is not None:
                pairs.append(("trailing", '"%s"' % trailing))
        elif f.target is not None:
            pairs.append(("parser", self.say(f.p)))
        return self.attrs(pairs, r)

    def field_type(self, f):
        k = self.kind
        if f.lst is not None:
            return self.say("Vec<%s>" % target_rust(f.target or "same", f.p, k))
        return self.say(target_rust(f.target or "same", f.p, k))

    def body(self, v, r, outer, extra=()):
        pairs = [(w, self.say(x)) for w, x in (("prefix", v.prefix), ("suffix", v.suffix)) if x]
        pairs += [("ignore", self.say(x)) for x in v.ignore]
        a = self.attrs(pairs + list(extra), r)
        fs = []
        for f in v.fields:
            fs.append("%s%s%s%s" % (
                self.field_attrs(f, r), "pub " if outer else "", f.name + ": " if v.style == "named" else "",
                self.field_type(f)))
        if v.style == "unit":
            b = ";" if outer else ""
        elif v.style == "tuple":
            b = "(%s)%s" % (", ".join(fs), ";" if outer else "")
        else:
            b = " {%s}" % ", ".join(fs)
        return a, b

    def generics(self, bound=""):
        if not self.params:
            return ""
        return "<%s>" % ", ".join(n + bound for n, _ in self.params)

    def rust_decl(self, r=None):
        if self.in_macro:
            # the declaration comes out of a macro, which is given some of its types, attributes and names
            args = []
            whole = self.spell
            def spell(text):
                if r.random() < 0.4:
                    return whole(text) if whole else text
                args.append(("ty", whole(text) if whole else text))
                return "$t%d" % (len(args) - 1)
            self.spell = spell
            text = self.rust_decl_(r)
            self.spell = whole
            if r.random() < 0.5:
                text = re.sub(r"\bpub (struct|enum) %s\b" % re.escape(self.name), lambda m: "pub %s $t%d" % (m.group(1), len(args)), text, 1)
                args.append(("ident", self.name))
            name = "make_it"
            return "macro_rules! %s { (%s) => {\n%s} }\n%s!{%s}\n" % (
                name, ", ".join("$t%d:%s" % (i, k) for i, (k, _) in enumerate(args)), text, name, ", ".join(t for _, t in args))
        return self.rust_decl_(r)

    def rust_decl_(self, r=None):
        extra = [("parse_type", KINDS[self.kind][0])] if self.typed else []
        if not self.enum:
            v = self.variants[0]
            a, b = self.body(v, r, True, extra)
            return "#[derive(nommy::Parse)]\n%spub struct %s%s%s\n" % (a, self.name, self.generics(), b)
        pairs = [(w, self.say(x)) for w, x in (("prefix", self.prefix), ("suffix", self.suffix)) if x]
        pairs += [("ignore", self.say(x)) for x in self.ignore] + extra
        out = "#[derive(nommy::Parse)]\n%spub enum %s%s {\n" % (self.attrs(pairs, r), self.name, self.generics())
        for v in self.variants:
            a, b = self.body(v, r, False)
            out += "%s%s%s,\n" % (a, v.name, b)
        return out + "}\n"

    # -------- what it stands for
    def pattern(self, v, head):
        if v.style == "unit":
            return head, []
        names = ["x%d" % i for i in range(len(v.fields))]
        if v.style == "tuple":
            return "%s(%s)" % (head, ", ".join(names)), names
        return "%s { %s }" % (head, ", ".join("%s: %s" % (f.name, n) for f, n in zip(v.fields, names))), names

    def rust_model(self, kinds):
        me = self.name + self.generics()
        out = "impl%s IntoV for %s { fn v(self) -> V {" % (self.generics(": IntoV"), me)
        if self.enum:
            arms = []
            for i, v in enumerate(self.variants):
                pat, names = self.pattern(v, "%s::%s" % (self.name, v.name))
                arms.append("%s => V::Var(%d, vec![%s])," % (pat, i, ", ".join(n + ".v()" for n in names)))
            out += " match self { %s }" % " ".join(arms)
        else:
            pat, names = self.pattern(self.variants[0], self.name)
            out += " let %s = self; V::Seq(vec![%s])" % (pat, ", ".join(n + ".v()" for n in names))
        out += " } }\n"
        for k in kinds:
            T = KINDS[k][0]
            out += "impl%s M<%s> for %s { fn g() -> G {" % (self.generics(": M<%s>" % T), T, me)
            if self.rec:
                out += " G::Lazy(<Self as M<%s>>::real) } fn real() -> G {" % T
            if self.enum:
                out += " G::Enum(Rc::new(EDef { name: %s, ignore: %s, prefix: %s, suffix: %s, variants: vec![%s] }))" % (
                    rstr(self.name), self.gs(self.ignore, k), self.go(self.prefix, k), self.go(self.suffix, k),
                    ", ".join(self.sdef(v, v.name, v.prefix, v.suffix, v.ignore, k) for v in self.variants))
            else:
                v = self.variants[0]
                out += " G::Struct(Rc::new(%s))" % self.sdef(v, self.name, v.prefix, v.suffix, v.ignore, k)
            out += " } }\n"
        return out

    def gg(self, p, k):
        return "<%s as M<%s>>::g()" % (rust(p, self.kind), KINDS[k][0])

    def go(self, p, k):
        return "Some(%s)" % self.gg(p, k) if p else "None"

    def gs(self, ps, k):
        return "vec![%s]" % ", ".join(self.gg(p, k) for p in ps)

    def sdef(self, v, name, prefix, suffix, ignore, k):
        fs = []
        for i, f in enumerate(v.fields):
            shown = f.name if v.style == "named" else "elem%d" % i
            conv = "<%s as CV<%s>>::C" % (rust(f.p, self.kind), target_rust(f.target or "same", f.p, self.kind))
            if f.lst is not None:
                sep, trailing = f.lst
                val = "FV::List { p: %s, conv: %s, sep: %s, trail: Trail::%s }" % (
                    self.gg(f.p, k), conv, self.go(sep, k),
                    {None: "No", "no": "No", "yes": "Yes", "maybe": "Maybe"}[trailing])
            else:
                val = "FV::Plain(%s, %s)" % (self.gg(f.p, k), conv)
            fs.append("FDef { name: %s, prefix: %s, suffix: %s, val: %s }" % (
                rstr(shown), self.go(f.prefix, k), self.go(f.suffix, k), val))
        return "SDef { name: %s, ignore: %s, prefix: %s, suffix: %s, fields: vec![%s] }" % (
            rstr(name), self.gs(ignore, k), self.go(prefix, k), self.go(suffix, k), ", ".join(fs))


# ---------------------------------------------------------------- random parsers
WORDS = ["a", "b", "ab", "abc", "aab", "ba", "bb", "(", ")", "[", "]", "{", "}", "let", "letter", "=", "=>", "->",
         "-", ".", "..", "...", "::", "&&", "abab", "abababab"]
ODD = ["\u00e9", "\u65e5\u672c", "\U0001f600x", "a\u0301", "\r\n", "\"\\", "\n", "\t", "\u00e9\u00e9", "'", "\u0130",
       "// ", "x" * 300]
SETS = ["ab", "abc", "0123456789", "xyz", "a", "abcdefghijklmnopqrstuvwxyz", "+-0123456789", "01", "({[", "ba", "aab",
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"]
ODDSETS = ["\u00e9\u65e5\U0001f600", ".?!", "\n\r", "\"\\'", "\u0660\u0661a", " \t", "\u00e9e", "\u0000\u007f"]


# what could be taken for some other notation
META = ["0-9", "+0-9", "a-z", "a-zA-Z0-9_", "-a-", "^ab", "^0-9", "[a-c]", "[^a]", "\\d", "\\n", "\\w", "\\x61", "\\u{61}", ".*", "a*", "a?", "a+",
        "a|b", "(a)", "a{2}", "%61", "&lt;", "$a", "{}", "{0}", "!a", "~", "/a/", "a,b", "a b", " a", "a ", "a..z", "a..=z", "b'a'", "#", "//", "\\s", "$"]
PRINTABLE = "".join(chr(i) for i in range(0x20, 0x7f))


class Gen:
    def __init__(self, seed, pack, shard):
        self.r = random.Random("%s/%s/%s" % (seed, pack, shard))
        self.shard = shard
        self.items = []  # (declaration text, model text)
        self.entries = []  # (name, decl text, kind, group, type)
        self.n = 0
        self.odd = 0.2
        self.user = 0.25
        self.arr0 = False
        self.shift = 0
        self.decls = {"char": [], "u8": [], "tok": []}

    def fresh(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    def twist(self, s):
        """Another text of the same length"""
        out = ""
        for c in s:
            for row in ("abcdefghijklmnopqrstuvwxyz", "0123456789", "(){}[]<>", "+-*/&|!#%", ".,;:"):
                if c in row:
                    c = row[(row.index(c) + self.shift) % len(row)]
            out += c
        return out

    def word(self, kind):
        return self.twist(self.word_(kind))

    def set(self, kind):
        return self.twist(self.set_(kind))

    def word_(self, kind):
        r = self.r
        if r.random() < self.odd / 2:
            return r.choice(META)
        if r.random() < self.odd and kind == "char":
            return r.choice(ODD)
        if r.random() < self.odd and kind == "u8":
            return r.choice(["\x00", "\xff\xfe", "\xc3\xa9", "\r\n", "\"\\", "x" * 300])
        return r.choice(WORDS)

    def set_(self, kind):
        r = self.r
        if r.random() < self.odd / 2:
            return r.choice([r.choice(META), "".join(r.sample(PRINTABLE, r.choice([1, 2, 3, 4, 6, 9, 20, 60])))])
        if r.random() < self.odd and kind == "char":
            return r.choice(ODDSETS)
        if r.random() < self.odd and kind == "u8":
            return r.choice(["\x00\xff", "\xc3\xa9", " \t", "".join(chr(i) for i in range(0x80, 0x100))])
        return r.choice(SETS)

    def leaf(self, kind, null=False):
        """A basic parser; null: may match nothing"""
        r = self.r
        if r.random() < 0.01:
            return ("never",)
        t = r.choice(["tag", "tag", "tag", "one", "one", "run"] + (["until", "le", "ws", "sp"] if kind == "char" else [])
                     + (["anyof", "anyof"] if null and kind == "char" else []))
        if t == "tag":
            p = ("tag", self.word(kind))
        elif t in ("one", "run", "anyof"):
            p = (t, self.set(kind))
        elif t == "until":
            p = (t, self.twist(r.choice([".?!", "\"", "\r\n", ")", "ab", "\u00e9", ">"])))
        else:
            p = (t,)
        if (kind == "tok" or r.random() < self.user) and p[0] in ("tag", "one", "run"):
            s = p[1]
            if kind == "u8" and any(ord(c) > 0x7F for c in s):
                return p
            p = (p[0] + "x", s)
        return p

    def parser(self, kind, depth=2, null=True, decl=0.2, fall=True):
        """A parser; null: may match nothing; fall: may fail to convert"""
        r = self.r
        for _ in range(60):
            p = self.parser_(kind, depth, null, decl, fall)
            if (null or not nullable(p)) and (fall or not fallible(p)):
                return p
        return ("tagx" if kind == "tok" else "tag", "a")

    def parser_(self, kind, depth, null, decl, fall):
        r = self.r
        if self.decls[kind] and r.random() < decl:
            return ("decl", r.choice(self.decls[kind][-12:]))
        if depth == 0 or r.random() < 0.4:
            return self.leaf(kind, null)
        t = r.choice(["opt", "vec", "vec1", "arr", "box"])
        if t in ("opt", "vec", "vec1"):
            return (t, self.parser(kind, depth - 1, False, decl, fall))
        if t == "arr":
            # (an enum over empty arrays of aligned elements crashes this compiler)
            return (t, r.choice(([0] if self.arr0 else []) + [1, 2, 2, 3, 3, 4, 7]), self.parser(kind, depth - 1, null, decl, fall))
        return (t, self.parser(kind, depth - 1, null, decl, fall))

    def listfn(self, kind, mode=None, mx=-1):
        r = self.r
        p = self.parser(kind, 1, False, 0.25)
        t = r.choice(["same"] + targets(p, kind, True))
        if mode is None:
            mode = r.randrange(4)
        if mx == -1:
            mx = r.choice([None, None, None, 0, 1, 2, 3, 10])
        sep = self.sep(kind)
        ign = self.ignorable(kind)
        return ("listfn", p, t, sep, ign, mode, mx)

    def sep(self, kind):
        r = self.r
        s = r.choice([",", ",", ";", "and", "=>", "aa", "..", ",,", "b"])
        p = ("tag", s)
        q = r.random()
        if q < 0.2:
            p = ("one", ",;")
        if kind == "tok" or r.random() < self.user:
            p = (p[0] + "x", p[1])
        if q > 0.9:
            p = ("vec1", p)
        return p

    def ignorable(self, kind):
        r = self.r
        q = r.random()
        if kind == "char" and q < 0.45:
            return r.choice([("ws",), ("sp",), ("le",), ("ws",)])
        p = r.choice([("tag", "_"), ("tag", "#-"), ("one", " _"), ("run", "_ "), ("tag", "/**/"), ("one", " \t"),
                      ("vec1", ("one", "_"))])
        if kind == "tok" or r.random() < self.user:
            p = ("vec1", ("onex", "_")) if p[0] == "vec1" else (p[0] + "x", p[1])
        return p

    def alike(self, kind):
        """Ignored tokens that begin alike, so that one often fails part-way where another matches"""
        x = "x" if kind == "tok" else ""
        return self.r.choice([
            [("tag" + x, w) for w in ["_-_", "_-", "__", "_"]],
            [("tag" + x, "//"), ("tag" + x, "/**/"), ("tag" + x, "/*"), ("arr", 2, ("tag" + x, "/"))],
            [("vec1", ("tag" + x, "_-")), ("arr", 3, ("one" + x, "_-")), ("tag" + x, "_-#"), ("tag" + x, "_")],
            [("arr", 2, ("tag" + x, "#-")), ("tag" + x, "#-"), ("tag" + x, "#"), ("run" + x, "_#")],
        ])

    def ignores(self, kind, most=3):
        r = self.r
        out = []
        alike = self.alike(kind) if r.random() < 0.25 else None
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]) if alike is None else most):
            p = self.ignorable(kind) if alike is None else r.choice(alike)
            if p not in out and len(out) < most:
                out.append(p)
        if self.decls[kind] and r.random() < 0.1:
            for _ in range(5):
                d = ("decl", r.choice(self.decls[kind]))
                if not nullable(d) and not fallible(d):
                    out.append(d)
                    break
        return out

    # ------------------------------------------------------------ random declarations
    def fix(self, kind, prob):
        r = self.r
        if r.random() >= prob:
            return None
        if r.random() < 0.7:
            p = ("tag", self.word(kind))
            return (p[0] + "x", p[1]) if kind == "tok" else p
        return self.parser(kind, 1, True, 0.15, False)

    def field(self, kind, name, lists=0.15, fixes=0.2, fall=True, plain=0.5, depth=2):
        r = self.r
        prefix, suffix = self.fix(kind, fixes), self.fix(kind, fixes)
        if r.random() < lists:
            p = self.parser(kind, 1, False, 0.25, fall)
            t = r.choice([None] + targets(p, kind, fall))
            sep = self.sep(kind) if r.random() < 0.75 else None
            tr = r.choice([None, None, "no", "yes", "yes", "maybe", "maybe"]) if sep else None
            return Field(name, p, prefix, suffix, t, (sep, tr))
        p = self.parser(kind, depth, True, 0.25, fall)
        t = None
        if p[0] in LEAF or p[0] in USER or r.random() < 0.15:
            if r.random() > plain:
                t = r.choice(targets(p, kind, fall))
        return Field(name, p, prefix, suffix, t)

    def names(self, n):
        r = self.r
        if n > 20:
            return ["f%d" % i for i in range(n)]
        pool = ["a", "b", "c", "foo", "bar", "name", "value", "input", "cursor", "pos", "result", "left", "right", "ty",
                "buffer", "output", "elem", "first", "second", "x1", "y_2", "key", "body", "head", "tail"]
        return r.sample(pool, n)

    def variant(self, kind, name, ign, fixes=0.25, lists=0.15, nf=None, fall=True, depth=2, style=None):
        r = self.r
        style = style or r.choice(["named", "tuple", "named", "tuple", "unit"])
        if nf is None:
            nf = r.choice([1, 1, 2, 2, 3, 4])
        if style == "unit":
            nf = 0
        if nf > 1 and nf < 20 and r.random() < 0.15:
            # a row of parts of one type
            nf = r.choice([3, 3, 4, 6])
            p = self.parser(kind, 1, True, 0.15, fall)
            fields = [Field(n, p) for n in self.names(nf)]
        else:
            fields = [self.field(kind, n, lists, fixes * 0.8, fall, depth=depth) for n in self.names(nf)]
        return Variant(name, style, fields, self.fix(kind, fixes), self.fix(kind, fixes), ign)

    def usable(self, d):
        """Kinds a declaration can be used over, given how it is written"""
        if d.typed or d.kind != "tok":
            return [d.kind]
        return ["tok"]

    def struct(self, kind, ign=0.5, **kw):
        r = self.r
        name = self.fresh("S")
        ig = self.ignores(kind) if r.random() < ign else []
        v = self.variant(kind, name, ig, **kw)
        d = Decl(name, kind, r.random() < 0.5, False, [v])
        self.parametrise(d)
        return d

    def parametrise(self, d):
        """Type parameters instead of some fields' parsers"""
        r = self.r
        if d.typed or r.random() >= 0.25:
            return
        fs = [f for v in d.variants for f in v.fields if f.target is None and f.lst is None]
        names = r.sample(["P", "Q", "Item", "Rest", "A1"], 3)
        for f in r.sample(fs, min(len(fs), r.choice([1, 1, 2, 3]))):
            name = names[len(d.params)]
            d.params.append((name, f.p))
            f.p = ("param", name, f.p)

    def vnames(self, n):
        """Names of variants"""
        r = self.r
        q = r.random()
        if q < 0.5:
            return ["V%d" % i for i in range(n)]
        if q < 0.65:
            return ["V%d" % (n - i) for i in range(n)]
        pool = ["V", "V0", "V1", "V10", "V_1", "V11", "V01", "v1", "X1", "X", "V1_", "V111", "V1V", "B", "A", "Zed", "One", "Two1", "Two"]
        return r.sample(pool, n) if n <= len(pool) else ["V%d" % i for i in range(n)]

    def enum(self, kind, ign=0.5, nv=None, **kw):
        r = self.r
        name = self.fresh("E")
        ig = self.ignores(kind) if r.random() < ign else []
        nv = nv or r.choice([1, 2, 2, 3, 3, 4, 6])
        vs = []
        for vn in self.vnames(nv):
            vi = self.ignores(kind, 2) if r.random() < 0.15 else []
            vs.append(self.variant(kind, vn, vi, nf=r.choice([0, 1, 1, 2, 2, 3]), **kw))
        fixes = kw.get("fixes", 0.25)
        d = Decl(name, kind, r.random() < 0.5, True, vs, self.fix(kind, fixes), self.fix(kind, fixes), ig)
        self.parametrise(d)
        return d

    # ------------------------------------------------------------ collecting
    def add_decl(self, d, entry=True, kinds=None, group="", layout=None, remember=True):
        kinds = kinds or self.usable(d)
        text = d.rust_decl(layout)
        text += "".join(d.aliases)
        model = d.rust_model(kinds)
        if d.module:
            self.items.append("pub mod %s { use super::*;\n%s%s}\n" % (d.module, text, model))
        else:
            self.items.append(text + model)
        if remember:
            for k in kinds:
                self.decls[k].append(d)
        if entry:
            for k in kinds:
                self.entries.append((("%s::" % d.module if d.module else "") + d.name + ("" if len(kinds) == 1 else "/" + k),
                                     text, k, group, d.path(k)))

    def add_parser(self, p, kind, group="", name=None):
        t = rust(p, kind)
        self.entries.append((name or self.fresh("p"), t, kind, group, t))

    def write(self, out, without=()):
        """The program, without the items and entries in `without`. Returns what each line belongs to."""
        os.makedirs(os.path.join(out, "src"), exist_ok=True)
        src = ("#![feature(const_generics)]\n#![allow(incomplete_features, dead_code, unused, non_snake_case, "
               "non_camel_case_types, uncommon_codepoints, confusable_idents, mixed_script_confusables, unreachable_code)]\n"
               "use nmon::prelude::*;\n\n")
        lines = {}

        def block(text, what):
            nonlocal src
            if what in without:
                return
            at = src.count("\n") + 1
            src += text
            for k in range(at, src.count("\n") + 1):
                lines.setdefault(k, what)

        for i, text in enumerate(self.items):
            block(text + "\n", ("item", i))
        src += "fn main() {\n    nmon::engine::main(vec![\n"
        for i, (n, text, k, group, ty) in enumerate(self.entries):
            block("        Entry { name: %s, decl: %s, kind: Kind::%s, group: %s, g: <%s as M<%s>>::g, exec: exec::<%s, %s> },\n" % (
                rstr(n), rstr(text), KINDS[k][1], rstr(group), ty, KINDS[k][0], KINDS[k][0], ty), ("entry", i))
        src += "    ]);\n}\n"
        put(os.path.join(out, "src/main.rs"), src)
        put(os.path.join(out, "Cargo.toml"),
            '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\npublish = false\n\n[dependencies]\n'
            'nommy = { path = "/repo/nommy" }\nnmon = { path = "/verif/harness" }\n' % os.path.basename(out))
        return lines


def put(path, text):
    """Written only if it differs, so that nothing is rebuilt without need"""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


# ---------------------------------------------------------------- packs
def basic(g, n):
    """Every basic parser, over ordinary and odd sets"""
    if g.shard == 0:
        for w in ["", "a", "ab", "aab", "\u00e9", "\u65e5\u672c\u8a9e", "\U0001f600", "e\u0301", "\r\n", "\"\\'", "\u0000", "x" * 300,
                  "caf\u00e9 cr\u00e8me", "a*", "[ab]", "a|b", "%61", "\\n"]:
            g.add_parser(("tag", w), "char")
        for w in ["", "a", "ab", "\x00", "\xff\xfe", "\xc3\xa9", "x" * 300, "\r\n"]:
            g.add_parser(("tag", w), "u8")
        for s in ["", "a", "ab", "aab", "0123456789", "\u00e9\u65e5\U0001f600", "\u0660a", "\"\\'", "\n\r", "\u0000",
                  "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"]:
            for t in ["one", "run", "anyof", "until"]:
                g.add_parser((t, s), "char")
        for s in ["", "a", "ab", "0123456789", "\x00\xff", "\xc3\xa9", "".join(chr(i) for i in range(256))]:
            for t in ["one", "run"]:
                g.add_parser((t, s), "u8")
        for t in ["le", "sp", "ws"]:
            g.add_parser((t,), "char")
    if g.shard == 1:
        for i, s in enumerate(META):
            for t in [["one", "run", "anyof", "until"][i % 4], "one"][:1 + (i % 4 > 0)]:
                g.add_parser((t, s), "char")
            g.add_parser((["one", "run"][i % 2], s), "u8")
    while len(g.entries) < n:
        k = g.r.choice(["char", "char", "u8"])
        g.user = 0
        g.odd = 0.5
        p = g.leaf(k, True)
        g.add_parser(p, k)


def comb(g, n):
    g.arr0 = True
    for k in ["char", "tok"]:
        for _ in range(3):
            d = fussy(g, k)
            g.add_decl(d, entry=False)
            for p in [("vec", ("decl", d)), ("vec1", ("decl", d)), ("opt", ("decl", d)), ("arr", 2, ("decl", d)),
                      ("vec", ("vec1", ("decl", d))), ("box", ("vec1", ("decl", d)))]:
                g.add_parser(p, k)
    if g.shard == 0:
        for k in ["char", "tok"]:
            x = "x" if k == "tok" else ""
            one = ("one" + x, "abc")
            for c in [0, 1, 2, 17, 32, 33, 100, 300]:
                g.add_parser(("arr", c, one), k)
            for p in [("vec", one), ("vec1", one), ("opt", one), ("box", one), ("vec", ("tag" + x, "ab")),
                      ("vec1", ("tag" + x, "abc")), ("opt", ("tag" + x, "abc")), ("vec", ("arr", 3, one)),
                      ("arr", 3, ("vec1", ("tag" + x, "ab"))), ("vec", ("vec1", ("tag" + x, "aab"))),
                      ("arr", 2, ("opt", ("tag" + x, "ab"))), ("vec1", ("run" + x, "ab")),
                      ("vec", ("box", ("arr", 2, one))), ("opt", ("never",)), ("vec", ("never",)), ("vec1", ("never",)),
                      ("arr", 0, ("never",)), ("arr", 2, ("never",)), ("opt", ("box", ("never",)))]:
                g.add_parser(p, k)
    while len(g.entries) < n:
        k = g.r.choice(["char", "char", "u8", "tok"])
        p = g.parser(k, 4, True, 0.3 if len(g.entries) % 3 == 0 else 0)
        if kids(p):
            g.add_parser(p, k)


def fussy(g, kind):
    """A part that peek accepts and parse may refuse, as its conversion can fail"""
    r = g.r
    x = "x" if kind == "tok" else ""
    name = g.fresh("F")
    p = ("runx", "abc") if kind == "tok" else ("run", r.choice(["ab", "0123456789"]))
    f = Field("n", p, r.choice([None, None, ("tag" + x, "(")]), r.choice([None, ("tag" + x, ";"), ("tag" + x, "a")]), "short")
    if kind == "char" and len(p[1]) == 10 and r.random() < 0.5:
        f.target = "usize"
    if r.random() < 0.7:
        return Decl(name, kind, r.random() < 0.5, False, [Variant(name, r.choice(["named", "tuple"]), [f])])
    return Decl(name, kind, r.random() < 0.5, True, [Variant("V0", r.choice(["named", "tuple"]), [f]),
                Variant("V1", "unit", [], ("tag" + x, "b"))])


def prelude_decls(g, kinds=("char", "tok"), n=3):
    """A few declarations for others to use"""
    for k in kinds:
        for _ in range(n):
            g.add_decl(g.r.choice([g.struct, g.enum])(k, fixes=0.15), entry=False)


def structs(g, n):
    prelude_decls(g, ("char", "u8", "tok"), 2)
    if g.shard == 0:
        # many fields
        for k, n_, style in [("char", 11, "tuple"), ("char", 14, "named"), ("tok", 13, "tuple"), ("tok", 27, "named"), ("u8", 34, "tuple")]:
            name = g.fresh("S")
            fs = [g.field(k, "f%d" % i, 0.1, 0.1, depth=1) for i in range(n_)]
            g.add_decl(Decl(name, k, g.r.random() < 0.5, False, [Variant(name, style, fs, ignore=g.ignores(k))]))
    while len(g.entries) < n:
        k = g.r.choice(["char", "char", "char", "u8", "tok"])
        g.add_decl(g.struct(k, fixes=g.r.choice([0.1, 0.4, 0.8]), nf=g.r.choice([None] * 6 + [5, 7, 9, 12])))


def enums(g, n):
    prelude_decls(g, ("char", "u8", "tok"), 2)
    g.odd = 0.1
    if g.shard == 0:
        for k in ["char", "tok"]:
            name = g.fresh("E")
            vs = [g.variant(k, vn, [], nf=1, depth=1) for vn in g.vnames(13)]
            g.add_decl(Decl(name, k, True, True, vs))
            # many variants, told apart late
            name = g.fresh("E")
            x = "x" if k == "tok" else ""
            vs = [Variant("V%d" % i, g.r.choice(["named", "tuple"]), [
                  Field("a", ("tag" + x, "ab"[i & 1] + "ab"[i >> 1 & 1] + "ab"[i >> 2 & 1])), Field("b", ("tag" + x, "ab"[i >> 3 & 1] + "ab"[i >> 4 & 1]))])
                  for i in range(27)]
            vs.insert(20, Variant("U", "unit", [], ("tag" + x, "c")))
            g.add_decl(Decl(name, k, False, True, vs))
            # variants of many fields
            name = g.fresh("E")
            vs = [Variant("V%d" % i, style, [g.field(k, "f%d" % j, 0.1, 0.1, depth=1) for j in range(n_)])
                  for i, (n_, style) in enumerate([(11, "tuple"), (13, "named"), (12, "tuple")])]
            g.add_decl(Decl(name, k, False, True, vs))
    while len(g.entries) < n:
        k = g.r.choice(["char", "char", "char", "u8", "tok"])
        q = g.r.random()
        if q < 0.15:
            g.add_decl(numbers(g))
        elif q < 0.55:
            g.add_decl(overlapping(g, k))
        else:
            g.add_decl(g.enum(k, fixes=g.r.choice([0.1, 0.4])))


def numbers(g):
    """An enum whose variants read the same and convert it, or fail to"""
    r = g.r
    vs = []
    for i in range(r.choice([2, 3, 4])):
        p, t = r.choice([(("run", "0123456789"), "usize"), (("run", "0123456789"), "usize"), (("run", "0123456789"), "short"),
                         (("run", "+0123456789"), "usize"), (("run", "0123456789"), "string"), (("run", "0123456789abcdef"), "usize"),
                         (("vec1", ("one", "0123456789")), None)])
        lst = None
        if r.random() < 0.25 and p[0] == "run":
            lst = (("tag", ","), r.choice([None, "yes", "maybe"]))
        f = Field("n", p, target=t, lst=lst, suffix=r.choice([None, None, ("tag", ";")]))
        fs = [f] if r.random() < 0.7 else [f, Field("m", ("opt", ("tag", "%")))]
        vs.append(Variant("V%d" % i, r.choice(["named", "tuple"]), fs, r.choice([None, None, None, ("tag", "#")])))
    name = g.fresh("E")
    return Decl(name, "char", r.random() < 0.5, True, vs, ignore=[("sp",)] if r.random() < 0.3 else [])


def overlapping(g, k):
    """An enum whose variants begin alike"""
    r = g.r
    x = "x" if k == "tok" else ""
    name = g.fresh("E")
    parts = [("tag" + x, w) for w in ["a", "ab", "abc", "b", "aab"]] + [
        ("one" + x, "ab"), ("run" + x, "ab"), ("opt", ("tag" + x, "ab")), ("vec", ("tag" + x, "ab")),
        ("vec1", ("tag" + x, "a")), ("arr", 2, ("one" + x, "ab"))]
    vs = []
    for i in range(r.choice([2, 3, 4, 5])):
        style = r.choice(["named", "tuple"])
        fs = [Field(n, r.choice(parts)) for n in g.names(r.choice([1, 2, 2, 3, 4]))]
        if all(f.nullable() for f in fs):
            fs.append(Field("last", ("tag" + x, "a")))
        if r.random() < 0.2:
            style, fs = "unit", []
        v = Variant("V%d" % i, style, fs, g.fix(k, 0.15) if style != "unit" else ("tag" + x, r.choice(["a", "abb", "ba"])),
                    ("tag" + x, r.choice("ab")) if r.random() < 0.3 else None,
                    g.ignores(k, 1) if r.random() < 0.15 else [])
        vs.append(v)
    return Decl(name, k, r.random() < 0.5, True, vs, ("tag" + x, "a") if r.random() < 0.15 else None,
                ("tag" + x, r.choice(["a", "b"])) if r.random() < 0.3 else None, g.ignores(k) if r.random() < 0.3 else [])


def back(g, n):
    """Attempts that fail after having read something, each followed by a part that shows what is left"""
    r = g.r
    g.odd = 0.05
    while len(g.entries) < n:
        k = r.choice(["char", "char", "tok", "u8"])
        x = "x" if k == "tok" else ""
        if len(g.decls[k]) % 4 == 3:
            g.add_decl(fussy(g, k), entry=False) if k != "u8" else None
        late = lambda: r.choice([
            ("tag" + x, r.choice(["ab", "abc", "aab", "abab", "bba"])),
            ("arr", r.choice([2, 3]), ("one" + x, "ab")),
            ("arr", 2, ("tag" + x, "ab")),
            ("vec1", ("tag" + x, "ab")),
            ("decl", r.choice(g.decls[k])) if g.decls[k] else ("tag" + x, "abc"),
        ])
        nn = lambda: next(p for p in iter(late, None) if not nullable(p) and (not fallible(p) or r.random() < 0.5))
        att = lambda: r.choice([("opt", nn()), ("vec", nn()), ("vec1", nn()), ("box", ("opt", nn())),
                                ("opt", ("vec1", nn())), ("vec", ("arr", 2, nn())), ("arr", 2, ("opt", nn()))])
        rest = lambda: r.choice([("run" + x, "abc"), ("vec", ("one" + x, "abc")), ("tag" + x, "ab"), ("opt", ("one" + x, "ab"))])
        name = g.fresh("B")
        ign = [r.choice([("tag" + x, "aba"), ("tag" + x, "bb"), ("arr", 2, ("tag" + x, "b"))])] if r.random() < 0.3 else []
        if r.random() < 0.25:
            ign = r.sample([("tag" + x, w) for w in ["bba", "bb", "ba", "baab", "aba", "abb"]] + [("arr", 2, ("tag" + x, "b"))], r.choice([2, 3]))
        elif r.random() < 0.2:
            ign = r.sample(g.alike(k), r.choice([2, 3]))
        def fields():
            fs = [Field(nm, att()) for nm in g.names(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.3:
                fs.append(Field("list", nn(), lst=(r.choice([None, ("tag" + x, "ba"), ("tag" + x, "aa")]), None), target=None))
                if fs[-1].lst[0]:
                    fs[-1].lst = (fs[-1].lst[0], r.choice([None, "yes", "maybe", "no"]))
            fs.append(Field("rest", rest()))
            return fs
        if r.random() < 0.6:
            d = Decl(name, k, r.random() < 0.5, False, [Variant(name, r.choice(["named", "tuple"]), fields(), ignore=ign)])
        else:
            d = Decl(name, k, r.random() < 0.5, True, [
                Variant("V%d" % i, r.choice(["named", "tuple"]), fields(), None, r.choice([None, ("tag" + x, "b")]))
                for i in range(r.choice([2, 3]))], ignore=ign)
        g.add_decl(d)
        if r.random() < 0.3:
            g.add_parser(att(), k)


def lists(g, n):
    prelude_decls(g, ("char", "tok"), 2)
    g.odd = 0.05
    if g.shard == 0:
        for mode in range(4):
            for mx in [None, 0, 1, 2]:
                k = g.r.choice(["char", "tok", "u8"])
                g.add_parser(g.listfn(k, mode, mx), k)
    while len(g.entries) < n:
        k = g.r.choice(["char", "char", "tok", "u8"])
        q = g.r.random()
        if q < 0.35:
            g.add_parser(g.listfn(k), k)
        elif q < 0.8:
            d = g.struct(k, ign=0.7, lists=0.8, nf=g.r.choice([1, 2, 2, 3]), style=g.r.choice(["named", "tuple"]), fixes=0.3)
            g.add_decl(d)
        else:
            g.add_decl(g.enum(k, ign=0.7, nv=2, lists=0.7, fixes=0.3))


def ignore(g, n):
    r = g.r
    prelude_decls(g, ("char", "tok"), 3)
    g.odd = 0.05
    while len(g.entries) < n:
        k = r.choice(["char", "char", "tok", "u8"])
        if r.random() < 0.6:
            d = g.struct(k, ign=1, fixes=0.35, lists=0.25)
            v = d.variants[0]
        else:
            d = g.enum(k, ign=1, fixes=0.35, lists=0.2)
            v = d
        while not v.ignore:
            v.ignore = g.ignores(k)
        g.add_decl(d)


def conv(g, n):
    r = g.r
    g.user = 0.1
    digits = ["0123456789", "9876543210", "+-0123456789", "0123456789abcdef", "0123456789\u0660", "0123456789_", "0123456789_,.' ",
              "+-.0123456789eE", "0123456789xXbBoO_abcdefABCDEF", "-0123456789", "+0123456789u", "0123456789\u0660\u0664\u0662\uff11\u00b2\u0967", "0123456789 \t\r\n",
              "0123456789KMG%", PRINTABLE]
    if g.shard == 0:
        for s in digits:
            name = g.fresh("S")
            g.add_decl(Decl(name, "char", True, False, [Variant(name, "named", [Field("n", ("run", s), target="usize")])]))
            name = g.fresh("S")
            g.add_decl(Decl(name, "char", True, False, [Variant(name, "tuple", [
                Field("n", ("run", s), target="usize", lst=(("tag", ","), r.choice([None, "yes", "maybe"])))], ignore=[("sp",)])]))
            g.add_parser(("listfn", ("run", s), "usize", ("tag", ","), ("sp",), r.randrange(4), r.choice([None, 3])), "char")
        # one of each conversion, plain and listed
        for k, p, t in [("char", ("anyof", "abc"), "string"), ("char", ("run", "\u00e9\u65e5a"), "string"),
                        ("char", ("until", "."), "string"), ("char", ("one", "a\u00e9\U0001f600"), "char"),
                        ("u8", ("one", "a\xff\x00"), "byte"), ("u8", ("run", "a\xff\x00"), "bytes"),
                        ("char", ("run", "abc"), "short"), ("tok", ("runx", "abc"), "short"),
                        ("char", ("run", "abc"), "kept"), ("u8", ("run", "abc"), "kept"), ("tok", ("onex", "abc"), "kept")]:
            x = "x" if k == "tok" else ""
            name = g.fresh("S")
            g.add_decl(Decl(name, k, r.random() < 0.5, False, [Variant(name, r.choice(["named", "tuple"]), [
                Field("a", p, target=t, suffix=("tag" + x, ";"))])]))
            if not nullable(p):
                name = g.fresh("S")
                g.add_decl(Decl(name, k, r.random() < 0.5, False, [Variant(name, "named", [
                    Field("a", p, target=t, lst=(("tag" + x, ","), r.choice([None, "yes", "maybe"])))])]))
    while len(g.entries) < n:
        # a failing conversion among other parts
        k = r.choice(["char", "char", "tok"])
        x = "x" if k == "tok" else ""
        def f(nm):
            p = ("run", r.choice(digits)) if k == "char" else ("runx", "ab")
            t = r.choice(["usize", "usize", "short"]) if k == "char" else "short"
            if k == "char" and r.random() < 0.35:
                # any text becomes a string, as it is
                t = "string"
                sets = ["abc", " \t\r\n", "\r\n", "a\r\nb", "\u00e9\u0301e\U0001f468\u200d", "\u0130i\u00df\ufb01", "\0\ufeffa", "aA", "\\n\"", "0123456789+-"]
                p = (r.choice(["anyof", "run", "until", "until"]), r.choice(sets))
                if p[0] == "until":
                    p = ("until", r.choice([";", ",;", "\"", "\n", "."]))
            if r.random() < 0.3 and not nullable(p):
                return Field(nm, p, target=t, lst=(r.choice([None, ("tag" + x, ",")]), None))
            return Field(nm, p, target=t, suffix=r.choice([None, ("tag" + x, ";")]))
        if r.random() < 0.5:
            name = g.fresh("S")
            d = Decl(name, k, r.random() < 0.5, False, [Variant(name, r.choice(["named", "tuple"]),
                     [f(nm) for nm in g.names(r.choice([1, 2, 3]))], ignore=g.ignores(k, 1))])
        else:
            name = g.fresh("E")
            vs = [Variant("V%d" % i, r.choice(["named", "tuple"]), [f(nm) for nm in g.names(r.choice([1, 2]))]) for i in range(2)]
            vs.append(Variant("Text", "tuple", [Field("s", ("run", "0123456789+-") if k == "char" else ("runx", "ab"),
                              target="string" if k == "char" else "kept")]))
            d = Decl(name, k, r.random() < 0.5, True, vs)
        g.add_decl(d)
        q = r.random()
        if q < 0.4 and not d.nullable():
            g.add_parser(r.choice([("vec", ("decl", d)), ("opt", ("decl", d)), ("vec1", ("decl", d)), ("arr", 2, ("decl", d))]), k)


HOSTILE = ["input", "cursor", "pos", "result", "elems", "output", "parse", "peek", "p", "q", "t", "b", "e", "x", "buffer", "ok",
           "err", "elem0", "elem1", "r#type", "r#match", "__input", "generic", "cache", "Upper", "\u00fcn\u00ef", "_a", "name", "self_"]
HOSTILE_TYPES = ["Ok", "Err", "Result", "Cursor", "Buffer", "Buf", "Parse", "T", "P", "B", "Input", "Report", "Context", "Error", "Tag", "WrapErr",
                 "TryInto", "Wrap", "r#struct", "\u00dcber", "lower", "__X", "Ignore", "Parser"]
HOSTILE_VARIANTS = ["Ok", "Err", "Some", "None", "Foo", "foo", "FOO", "fOO", "r#type", "Result", "Cursor", "parse", "__V", "Input",
                    "\u00c9t\u00e9", "\u00e9t\u00e9", "V", "v"]


def relayout(g, d, module, swap_ignore, style, rename):
    """The same declaration, written differently"""
    r = g.r
    def fields(v):
        names = [f.name for f in v.fields]
        if rename:
            names = r.sample(HOSTILE, len(names))
        return [Field(n, me(f.p), f.prefix, f.suffix, f.target, f.lst) for n, f in zip(names, v.fields)]
    own = []
    def me(p):
        # what refers to itself refers to the new one
        t = p[0]
        if t == "me":
            return ("me", Own(own), r.random() < 0.5)
        if t in ("opt", "vec", "vec1", "box"):
            return (t, me(p[1]))
        if t == "arr":
            return (t, p[1], me(p[2]))
        return p
    def restyle(v):
        if not style:
            return v.style
        if not v.fields:
            return r.choice(["unit", "named", "tuple"])
        return {"named": "tuple", "tuple": "named"}[v.style]
    def ig(xs):
        xs = list(xs)
        if swap_ignore:
            xs.reverse()
        return xs
    names = [v.name for v in d.variants]
    name = d.name
    if rename:
        name = r.choice([x for x in HOSTILE_TYPES if x not in [n for n, _ in d.params]])
        if d.enum:
            names = r.sample(HOSTILE_VARIANTS, len(names))
    vs = [Variant(n, restyle(v), fields(v), v.prefix, v.suffix, ig(v.ignore)) for n, v in zip(names, d.variants)]
    if not d.enum:
        vs[0].name = name
    e = Decl(name, d.kind, d.typed, d.enum, vs, d.prefix, d.suffix, ig(d.ignore), d.params, module)
    e.rec = d.rec
    own.append(e)
    return e


class Own:
    """The declaration that is being made"""
    def __init__(self, own):
        self.own = own
    name = property(lambda self: self.own[0].name)
    generics = property(lambda self: self.own[0].generics)


def speller(g, d):
    """Other ways to write the same type"""
    r = g.r
    own = [n for n, _ in d.params]
    def spell(text):
        q = r.random()
        if q < 0.4:
            return text
        if q < 0.55:
            return "(%s)" % text
        if q < 0.75:
            return re.sub(r"\b(text|bytes)::(?=[A-Z])", r"::nommy::\1::", text)
        if q < 0.9 and not re.search(r"\bSelf\b|\b%s\b" % re.escape(d.name), text):
            if not any(re.search(r"\b%s\b" % n, text) for n in own):
                a = g.fresh("Alias")
                d.aliases.append("pub type %s = %s;\n" % (a, text))
                return a
        if q < 0.95:
            return re.sub(r"\bVec<", "::std::vec::Vec<", re.sub(r"\bOption<", "::core::option::Option<", text))
        return text.replace("Box<", "std::boxed::Box<")
    d.aliases = []
    d.spell = spell


def disjoint(ps):
    fs = [first(p) for p in ps]
    if any(f is None for f in fs):
        return False
    return all(not (fs[i] & fs[j]) for i in range(len(fs)) for j in range(i))


KEYWORDS = set(
    "as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true "
    "type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try".split())


def known_words():
    """Every name that occurs in the crates' own sources, as a name for something else"""
    words = set()
    for f in sorted(glob.glob("/repo/nommy*/src/**/*.rs", recursive=True)):
        text = re.sub(r"//.*", "", open(f, errors="replace").read())
        words |= {w for w in re.findall(r"[A-Za-z_]\w*", text) if len(w) < 24 and not w.startswith("__")}
    words -= {"crate", "self", "Self", "super", "_"}
    return [("r#" if w in KEYWORDS else "") + w for w in sorted(words)]


def every_word(g):
    words = known_words()
    tags = ["ab"[i % 2] for i in range(len(words))]
    for j, names in enumerate([words, ["f%d" % i for i in range(len(words))]]):
        fs = [Field(n, ("opt", ("tag", t))) for n, t in zip(names, tags)]
        g.add_decl(Decl("Fields", "char", False, False, [Variant("Fields", "named", fs)], module="words_f%d" % j), group="words f", remember=False)
        vs = [Variant(n, "tuple", [Field("a", ("tag", "%s%d." % (t, i)))]) for i, (n, t) in enumerate(zip(names, tags))]
        g.add_decl(Decl("Variants", "char", True, True, vs, module="words_v%d" % j), group="words v", remember=False)
    for i, w in enumerate(words):
        g.items.append(
            "pub mod word_%d {\n#[derive(::nommy::Parse)]\n#[nommy(ignore = ::nommy::text::Space)]\npub struct %s { pub a: ::nommy::text::Tag<\"a\">,\n"
            "#[nommy(inner_parser = ::nommy::text::Tag<\"b\">, seperated_by = ::nommy::text::Tag<\",\">)]\npub b: ::std::vec::Vec<::nommy::text::Tag<\"b\">> }\n}\n" % (i, w)
            if i % 2 else
            "pub mod word_%d {\n#[derive(::nommy::Parse)]\npub enum %s { A(::nommy::text::Tag<\"a\">),\n#[nommy(prefix = ::nommy::text::Space)]\nB }\n}\n" % (i, w))


def layout(g, n):
    r = g.r
    prelude_decls(g, ("char", "tok"), 2)
    if g.shard == 1:
        every_word(g)
    i = 0
    while i < n:
        k = r.choice(["char", "char", "tok", "u8"])
        q = r.random()
        d = tree(g, k, q < 0.08) if q < 0.15 else g.struct(k, fixes=0.5, lists=0.25) if q < 0.6 else g.enum(k, fixes=0.4, lists=0.2)
        if g.shard == 0 and i < 2:
            # names that could be mistaken for one another's and for numbers
            names = ["V1", "V", "V0", "V10", "V_1", "V11", "V01", "v1", "X1", "X", "V1_", "V111", "V1V"]
            if i:
                r.shuffle(names)
            d = Decl(g.fresh("E"), k, r.random() < 0.5, True, [g.variant(k, vn, [], nf=1, depth=1, style="tuple") for vn in names])
        if any(len(v.fields) > 6 for v in d.variants):
            continue
        i += 1
        d.module = "g%d_0" % i
        group = "g%d" % i
        g.add_decl(d, group=group, remember=False)
        allig = [d.ignore] + [v.ignore + d.ignore for v in d.variants]
        swap = any(len(x) > 1 for x in allig) and all(disjoint(x) for x in allig)
        for j, (s, st, rn, lay) in enumerate([(False, False, False, True), (False, True, False, False),
                                              (False, False, True, False), (swap, True, True, True)]):
            e = relayout(g, d, "g%d_%d" % (i, j + 1), s, st, rn)
            if lay:
                speller(g, e)
                e.in_macro = r.random() < 0.4
            g.add_decl(e, group=group, layout=r if lay else None, remember=False)


def elem(g, n):
    """One shape over chars, bytes and user-defined elements"""
    r = g.r
    g.odd = 0
    def retype(p, x):
        t = p[0]
        if t in ("tag", "one", "run"):
            return (t + "x", p[1]) if x else p
        if t in ("opt", "vec", "vec1", "box"):
            return (t, retype(p[1], x))
        if t == "arr":
            return (t, p[1], retype(p[2], x))
        if t == "listfn":
            return (t, retype(p[1], x), p[2], retype(p[3], x), retype(p[4], x), p[5], p[6])
        if t == "decl":
            return ("decl", p[1].copies[x if x else "n"])
        if t == "param":
            return ("param", p[1], retype(p[2], x))
        return p
    i = 0
    while i < n:
        i += 1
        group = "g%d" % i
        g.user = 0
        # shapes are made of the parsers that exist over every kind of element
        save = Gen.leaf
        g.leaf = lambda kind, null=False: r.choice([("tag", r.choice(WORDS)), ("tag", r.choice(WORDS)), ("one", r.choice(SETS)), ("run", r.choice(SETS))])
        g.ignorable = lambda kind: r.choice([("tag", "_"), ("tag", "#-"), ("one", " _"), ("run", "_ "), ("one", " \t")])
        others = [r.choice(["fat", "wide", "trip"])]
        if i % 4 == 1:
            # all the elements are alike
            others = ["one"]
            g.leaf = lambda kind, null=False: r.choice([("tag", "a" * r.choice([1, 1, 2, 3, 5])), ("one", r.choice(["a", "ab"])), ("one", "a"), ("tag", "b"), ("run", "ba")])
            g.ignorable = lambda kind: r.choice([("tag", "a"), ("tag", "aa"), ("tag", "aaaa"), ("tag", "_")])
        q = r.random()
        if q < 0.3:
            p = g.parser("char", 3, True, 0)
            for k in ["char", "u8", "tok"]:
                g.add_parser(p, k, group, "%s/%s" % (group, k))
            for k in others:
                g.add_parser(retype(p, True), k, group, "%s/user-%s" % (group, k))
            g.add_parser(retype(p, True), "char", group, "%s/user-char" % group)
            g.add_parser(retype(p, True), "u8", group, "%s/user-u8" % group)
            continue
        if q < 0.45:
            sep, ign = ("tag", r.choice([",", "ab"])), g.ignorable("char")
            p = ("listfn", g.parser("char", 1, False, 0), "same", sep, ign, r.randrange(4), r.choice([None, 2]))
            for k in ["char", "u8", "tok"]:
                g.add_parser(p, k, group, "%s/%s" % (group, k))
            continue
        targets_ = globals()["targets"]
        globals()["targets"] = lambda p, kind, fall: ["kept"]
        d = g.struct("char", fixes=0.3, lists=0.2, fall=False) if r.random() < 0.5 else g.enum("char", fixes=0.3, lists=0.15, fall=False)
        globals()["targets"] = targets_
        def copy(kind, x, typed, module):
            rt = lambda p: retype(p, x) if p else None
            vs = [Variant(v.name, v.style, [Field(f.name, rt(f.p), rt(f.prefix), rt(f.suffix), f.target,
                  (rt(f.lst[0]), f.lst[1]) if f.lst is not None else None) for f in v.fields], rt(v.prefix), rt(v.suffix),
                  [rt(y) for y in v.ignore]) for v in d.variants]
            params = [] if typed else [(n_, rt(p)) for n_, p in d.params]
            if typed:
                for v in vs:
                    for f in v.fields:
                        if f.p[0] == "param":
                            f.p = f.p[2]
            return Decl(d.name, kind, typed, d.enum, vs, rt(d.prefix), rt(d.suffix), [rt(y) for y in d.ignore], params, module)
        g.decls = {"char": [], "u8": [], "tok": []}
        for k, x, typed in [("char", False, True), ("u8", False, True), ("tok", True, True), ("char", False, False), ("u8", False, False)]:
            c = copy(k, x, typed, "g%d_%s_%s" % (i, k, "t" if typed else "u"))
            g.add_decl(c, group=group, remember=False)
        # without parse_type, over all three at once
        c = copy("tok", True, False, "g%d_any" % i)
        g.add_decl(c, group=group, kinds=["char", "u8", "tok"] + others, remember=False)


def zero(g, n):
    """Repetition and ignoring of parsers that can match nothing"""
    r = g.r
    g.odd = 0
    while len(g.entries) < n:
        k = r.choice(["char", "char", "tok", "u8"])
        x = "x" if k == "tok" else ""
        def null(depth):
            q = r.random()
            if q < 0.15:
                return ("nothing",)
            if q < 0.3:
                return ("eof",)
            if q < 0.4:
                return ("tag" + x, "")
            if q < 0.5 and k == "char":
                return ("anyof", "ab")
            if q < 0.65:
                return ("arr", r.choice([0, 0, 2]), r.choice([("one" + x, "ab"), ("eof",), ("nothing",)]))
            if q < 0.8:
                return (r.choice(["opt", "vec"]), ("tag" + x, r.choice(["a", "ab"])))
            if q < 0.9 and depth:
                return ("box", null(depth - 1))
            name = g.fresh("Z")
            d = Decl(name, k, r.random() < 0.5, False, [Variant(name, r.choice(["tuple", "named"]), [
                Field("a", ("opt", ("tag" + x, "a"))), Field("b", r.choice([("vec", ("tag" + x, "ab")), ("eof",), ("nothing",)]))])])
            g.add_decl(d, entry=False)
            return ("decl", d)
        q = r.random()
        if q < 0.3:
            # not at fault: nullable parts that are not repeated
            d = g.enum(k, fixes=0.4)
            while d.nullable():
                d = g.enum(k, fixes=0.4)
            g.add_decl(d, entry=False)
            few = r.choice([("tag" + x, "ab"), ("run" + x, "ab"), ("never",), ("decl", d), ("decl", d), ("arr", 2, ("one" + x, "ab")), ("box", ("decl", d))])
            p = r.choice([("arr", 3, null(1)), ("box", null(1)), ("opt", few), ("vec", few), ("vec1", few), ("opt", ("vec1", few))])
            g.add_parser(p, k)
        elif q < 0.5:
            p = (r.choice(["opt", "vec", "vec1"]), null(2))
            if r.random() < 0.3:
                p = r.choice([("box", p), ("arr", 2, p)])
            g.add_parser(p, k)
        elif q < 0.75:
            name = g.fresh("S")
            fs = [Field("a", ("tag" + x, r.choice(["a", "ab"]))), Field("b", (r.choice(["opt", "vec", "vec1"]), null(1))),
                  Field("c", ("opt", ("one" + x, "ab")))]
            r.shuffle(fs)
            g.add_decl(Decl(name, k, r.random() < 0.5, False, [Variant(name, r.choice(["named", "tuple"]), fs,
                       ignore=[r.choice([("tag" + x, "_")])] if r.random() < 0.3 else [])]))
        else:
            # an ignore type that can match nothing, alone or after another
            name = g.fresh("S")
            ig = [null(1)]
            if r.random() < 0.5:
                ig.insert(0, ("tag" + x, "_"))
            if r.random() < 0.3:
                fs = []
                v = Variant(name, "unit", fs, ("tag" + x, "ab"), None, ig)
            else:
                v = Variant(name, r.choice(["named", "tuple"]), [Field("a", ("tag" + x, "a")), Field("b", ("one" + x, "ab"))], None, None, ig)
            if r.random() < 0.3:
                e = g.fresh("E")
                v.name = "V0"
                d = Decl(e, k, r.random() < 0.5, True, [v, Variant("V1", "unit", [], ("tag" + x, "b"))])
            else:
                d = Decl(name, k, r.random() < 0.5, False, [v])
            g.add_decl(d)


def mix(g, n):
    """Some of everything"""
    r = g.r
    if g.shard == 0:
        for w, k in [("ab", "char"), ("\u00e9x", "char"), ("ab", "u8")]:
            g.add_parser(("tag", w), k)
        for s in ["ab", "\u00e9\u65e5a"]:
            for t in ["one", "run", "anyof", "until"]:
                g.add_parser((t, s), "char")
        g.add_parser(("run", "ab\xff"), "u8")
        g.add_parser(("one", "ab\xff"), "u8")
        for t in ["le", "sp", "ws"]:
            g.add_parser((t,), "char")
        for k in ["char", "tok"]:
            x = "x" if k == "tok" else ""
            for p in [("vec", ("tag" + x, "ab")), ("vec1", ("one" + x, "ab")), ("opt", ("tag" + x, "abc")), ("arr", 3, ("one" + x, "ab")), ("arr", 300, ("tag" + x, "ab")),
                      ("vec", ("vec1", ("tag" + x, "ab"))), ("box", ("opt", ("tag" + x, "ab")))]:
                g.add_parser(p, k)
        for mode in range(4):
            k = r.choice(["char", "tok"])
            g.add_parser(g.listfn(k, mode, r.choice([None, 2])), k)
    base = len(g.entries)
    while len(g.entries) < base + n:
        f = r.choice([structs1, enums1, back1, lists1, ignore1, comb1])
        f(g)


def twins(g, n):
    """Parsers and declarations of one shape with different words, side by side"""
    r = g.r
    while len(g.entries) < n:
        k = r.choice(["char", "char", "u8", "tok"])
        what = r.choice(["leaf", "leaf", "leaf", "parser", "listfn", "struct", "enum", "overlapping"])
        decls = [list(g.decls[x]) for x in ("char", "u8", "tok")]
        state = r.getstate()
        for g.shift in (0, 1, 3, 4):
            r.setstate(state)
            g.decls["char"], g.decls["u8"], g.decls["tok"] = map(list, decls)
            if what == "leaf":
                g.add_parser(g.leaf(k), k)
            elif what == "parser":
                g.add_parser(g.parser(k, decl=0), k)
            elif what == "listfn":
                g.add_parser(g.listfn(k), k)
            elif what == "overlapping":
                g.add_decl(overlapping(g, k))
            else:
                g.add_decl(g.struct(k, fixes=0.3) if what == "struct" else g.enum(k, fixes=0.25))
        g.shift = 0


def structs1(g):
    k = g.r.choice(["char", "char", "u8", "tok"])
    g.add_decl(g.struct(k, fixes=g.r.choice([0.1, 0.4])))


def enums1(g):
    k = g.r.choice(["char", "char", "u8", "tok"])
    g.add_decl(overlapping(g, k) if g.r.random() < 0.4 else g.enum(k, fixes=0.25))


def back1(g):
    back(g, len(g.entries) + 1)


def lists1(g):
    k = g.r.choice(["char", "char", "u8", "tok"])
    if g.r.random() < 0.3:
        g.add_parser(g.listfn(k), k)
    else:
        g.add_decl(g.struct(k, ign=0.7, lists=0.8, nf=g.r.choice([1, 2, 3]), style=g.r.choice(["named", "tuple"]), fixes=0.3))


def ignore1(g):
    ignore(g, len(g.entries) + 1)


def comb1(g):
    k = g.r.choice(["char", "u8", "tok"])
    g.add_parser(g.parser(k, 3, True, 0.2), k)


def mem(g, n):
    """Values with drop glue everywhere, over elements with drop glue"""
    r = g.r
    g.user = 1.0
    g.odd = 0
    if g.shard == 0:
        for k in ["tok", "char"]:
            for c in [0, 1, 2, 3, 8, 33]:
                g.add_parser(("arr", c, ("onex", "ab")), k)
            g.add_parser(("arr", 3, ("arr", 2, ("onex", "ab"))), k)
            g.add_parser(("arr", 2, ("runx", "ab")), k)
            g.add_parser(("arr", 3, ("box", ("tagx", "ab"))), k)
            g.add_parser(("arr", 2, ("vec1", ("onex", "a"))), k)
            g.add_parser(("vec", ("arr", 2, ("onex", "ab"))), k)
            g.add_parser(("opt", ("arr", 3, ("onex", "ab"))), k)
            for p in [("vec", ("tagx", "ab")), ("vec1", ("tagx", "ab")), ("opt", ("tagx", "ab")), ("box", ("tagx", "ab"))]:
                g.add_parser(p, k)
        # elements that are not dropped, too
        g.add_parser(("arr", 3, ("tag", "ab")), "char")
        g.add_parser(("arr", 3, ("run", "ab")), "char")
        g.add_parser(("arr", 5, ("one", "ab")), "u8")
        for mode in range(4):
            g.add_parser(g.listfn("tok", mode, r.choice([None, 2])), "tok")
    while len(g.entries) < n:
        k = r.choice(["tok", "tok", "char"])
        q = r.randrange(5)
        if q == 0:
            g.add_decl(g.struct(k, fixes=0.2, lists=0.3))
        elif q == 1:
            g.add_decl(g.enum(k, fixes=0.2, lists=0.2))
        elif q == 2:
            g.add_decl(overlapping(g, "tok"))
        elif q == 3:
            g.add_parser(g.listfn(k), k)
        else:
            g.add_parser(g.parser(k, 3, True, 0.2), k)


def rec(g, n):
    """Recursive types: languages people write parsers for, and random ones"""
    r = g.r
    WS = [("ws",)]
    name = ("run", "abcdefghijklmnopqrstuvwxyz_")
    tag = lambda s: ("tag", s)

    def typed(name, enum, variants, prefix=None, suffix=None, ignore=(), kind="char"):
        d = Decl(name, kind, True, enum, variants, prefix, suffix, ignore)
        d.rec = True
        return d
    def struct(name, fields, prefix=None, suffix=None, ignore=(), style="named", kind="char"):
        return typed(name, False, [Variant(name, style, fields, prefix, suffix, ignore)], kind=kind)

    # JSON
    strs = struct("JStr", [Field("s", ("anyof", "abcdefghijklmnopqrstuvwxyz0123456789 \u00e9{}[],:"), target="string")],
                  tag("\""), tag("\""))
    json = typed("Json", True, [], ignore=WS)
    pair = struct("JPair", [Field("key", ("decl", strs), suffix=tag(":")), Field("value", ("decl", json))], ignore=WS)
    json.variants = [
        Variant("Null", "unit", [], tag("null")),
        Variant("True", "unit", [], tag("true")),
        Variant("Number", "tuple", [Field("n", ("run", "0123456789"), target="string")]),
        Variant("Object", "tuple", [Field("m", ("decl", pair), lst=(tag(","), None))], tag("{"), tag("}")),
        Variant("List", "tuple", [Field("l", ("decl", json), lst=(tag(","), None))], tag("["), tag("]")),
        Variant("Str", "tuple", [Field("s", ("decl", strs))]),
    ]
    # S-expressions
    exp = typed("Exp", True, [], ignore=WS)
    exp.variants = [
        Variant("List", "tuple", [Field("l", ("vec", ("decl", exp)))], tag("("), tag(")")),
        Variant("Quote", "tuple", [Field("q", ("box", ("decl", exp)))], tag("'")),
        Variant("Number", "tuple", [Field("n", ("run", "0123456789"), target="string")]),
        Variant("Symbol", "tuple", [Field("s", ("until", " \t\r\n()'"), target="string")]),
    ]
    # XML
    xml = struct("Xml", [], tag("<"), tag("/>"), WS)
    attr = struct("XAttr", [Field("name", name, suffix=tag("="), target="string"),
                            Field("value", name, tag("\""), tag("\""), target="string")], ignore=WS)
    children = typed("XChildren", True, [
        Variant("Some", "tuple", [Field("c", ("vec1", ("decl", xml)))], tag(">"), tag("<")),
        Variant("None", "unit", []),
    ], ignore=WS)
    xml.variants[0].fields = [Field("name", name, target="string"), Field("attributes", ("vec", ("decl", attr))),
                              Field("children", ("decl", children))]
    # arithmetic, by levels of precedence
    sum_ = struct("Sum", [])
    prod = struct("Prod", [])
    atom = typed("Atom", True, [
        Variant("Num", "tuple", [Field("n", ("run", "0123456789"), target="string")]),
        Variant("Neg", "named", [Field("of", ("box", ("rec", "Atom")), tag("-"))]),
        Variant("Group", "tuple", [Field("e", ("box", ("decl", sum_)), tag("("), tag(")"))]),
        Variant("Call", "named", [Field("f", name, target="string"), Field("args", ("decl", sum_), tag("("), tag(")"), lst=(tag(","), "maybe"))]),
    ], ignore=[("sp",)])
    atom.variants[1].fields[0].p = ("box", ("decl", atom))
    muls = struct("Times", [Field("op", ("one", "*/"), target="char"), Field("by", ("decl", atom))], ignore=[("sp",)])
    adds = struct("Plus", [Field("op", ("one", "+-"), target="char"), Field("by", ("decl", prod))], ignore=[("sp",)])
    prod.variants[0] = Variant("Prod", "named", [Field("first", ("decl", atom)), Field("rest", ("vec", ("decl", muls)))], ignore=[("sp",)])
    sum_.variants[0] = Variant("Sum", "tuple", [Field("first", ("decl", prod)), Field("rest", ("vec", ("decl", adds)))], ignore=[("sp",)])
    # declarations of types, and a request
    ty = typed("Ty", True, [], ignore=WS)
    member = struct("Member", [Field("name", name, target="string", suffix=tag(":")), Field("ty", ("decl", ty))], suffix=tag(","), ignore=WS)
    ty.variants = [
        Variant("Struct", "named", [Field("members", ("vec", ("decl", member)), tag("{"), tag("}"))], tag("struct")),
        Variant("Ref", "tuple", [Field("to", ("box", ("decl", ty)))], tag("&")),
        Variant("Tuple", "tuple", [Field("of", ("decl", ty), tag("("), tag(")"), lst=(tag(","), "yes"))]),
        Variant("Array", "named", [Field("of", ("box", ("decl", ty)), tag("[")), Field("n", ("run", "0123456789"), tag(";"), tag("]"), target="usize")]),
        Variant("Name", "tuple", [Field("n", name, target="string"), Field("args", ("opt", ("rec", "")))]),
    ]
    args = struct("Args", [Field("a", ("decl", ty), lst=(tag(","), None))], tag("<"), tag(">"), WS)
    ty.variants[4].fields[1].p = ("opt", ("decl", args))
    header = struct("Header", [Field("name", name, target="string", suffix=tag(":")),
                               Field("values", ("until", ",\r\n"), target="string", lst=(tag(","), None))], suffix=("le",), ignore=[("sp",)])
    request = struct("Request", [
        Field("method", ("run", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"), target="string", suffix=tag(" ")),
        Field("path", ("run", "abcdefghijklmnopqrstuvwxyz/%0123456789"), target="string", suffix=tag(" ")),
        Field("major", ("run", "0123456789"), tag("HTTP/"), target="usize"),
        Field("minor", ("run", "0123456789"), tag("."), ("le",), target="usize"),
        Field("headers", ("vec", ("decl", header))),
        Field("end", ("le",))])
    if g.shard == 0:
        for d in [strs, json, pair, exp, attr, children, xml, atom, muls, adds, prod, sum_, ty, member, args, header, request]:
            g.add_decl(d, entry=d in (json, exp, xml, sum_, ty, request), remember=False)
    # trees over bytes and over user-defined elements
    while len(g.entries) < n:
        g.add_decl(tree(g, r.choice(["char", "u8", "tok"]), r.random() < 0.5), remember=False)


def tree(g, k, is_typed):
    """A random type that refers to itself"""
    r = g.r
    x = "x" if k == "tok" else ""
    tag = lambda s: ("tag" + x, s)
    nm = g.fresh("R")
    ign = [r.choice([("one" + x, " _"), ("tag" + x, "##"), ("run" + x, " "), ("tag" + x, "_-")])] if r.random() < 0.6 else []
    if ign and r.random() < 0.4:
        ign.append(("vec1", ("tag" + x, "%%")))
    one = r.random() < 0.25
    d = Decl(nm, k, is_typed, not one, [], ignore=ign)
    d.rec = True
    if not is_typed and r.random() < 0.4:
        d.params = [("P", ("run" + x, r.choice(["xyz", "ab", "0123456789"])))]
        if r.random() < 0.3:
            d.params.append(("Q", tag(r.choice(["$", "$$"]))))
    def me():
        return ("me", d, r.random() < 0.4)
    def nest(depth, nothing):
        """Itself within others; what a vector is of has to read something"""
        if depth == 0:
            return me()
        t = r.choice(["box", "arr", "arr", "vec1"] + (["opt", "vec", "vec"] if nothing else []))
        if t == "arr":
            return ("arr", r.choice([1, 2]), nest(depth - 1, nothing))
        return (t, nest(depth - 1, nothing and t not in ("vec", "vec1")))
    def sized(p):
        return p[0] in ("box", "vec", "vec1") or any(sized(k) for k in kids(p))
    openers = r.sample([("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("((", "))"), ("let", "."), ("if", "fi"), ("&", None), ("!", None)], 6)
    def inner(first):
        q = r.randrange(6)
        if q == 0:
            return Field("a", ("box", me()))
        if q == 1:
            return Field("b", ("vec", me()))
        if q == 2:
            return Field("c", ("opt", ("box", me())))
        if q == 3:
            return Field("d", me(), lst=(r.choice([None, tag(","), tag("and"), ("vec1", tag(";"))]), None))
        if q == 4:
            p = nest(r.choice([2, 2, 3]), True)
            return Field("e", p if sized(p) else ("box", p))
        return Field("f", ("run" + x, r.choice(["ab", "0123456789"])))
    vs = []
    for i in range(1 if one else r.choice([1, 2, 3, 4])):
        fs = []
        for f in [inner(j) for j in range(r.choice([1, 1, 2, 3]))]:
            if all(f.name != h.name for h in fs):
                fs.append(f)
        for f in fs:
            if f.lst is not None and f.lst[0]:
                f.lst = (f.lst[0], r.choice([None, "no", "yes", "maybe"]))
            # parts are told apart by what is between them
            if r.random() < 0.5 or f is not fs[-1]:
                f.suffix = tag(r.choice([";", "|", ":", "end"]))
        o, c = openers[i]
        vs.append(Variant("V%d" % i, r.choice(["named", "tuple"]), fs, tag(o), tag(c) if c else None))
    fs = [Field("p%d" % i, ("param", n, p)) for i, (n, p) in enumerate(d.params)]
    if one:
        # a struct has to have a way to end
        for f in vs[0].fields:
            if f.lst is None and not nullable(f.p) and f.name != "f":
                f.p = ("opt", f.p if sized(f.p) else ("box", f.p))
        vs[0].name = nm
        vs[0].fields = fs + vs[0].fields
        vs[0].ignore = ign
    else:
        vs.append(Variant("Leaf", "tuple", fs or [Field("s", ("run" + x, "xyz"))]))
        if r.random() < 0.5:
            r.shuffle(vs)
    d.variants = vs
    return d


PACKS = {f.__name__: f for f in (basic, comb, structs, enums, back, lists, ignore, conv, layout, elem, zero, mix, mem, rec, twins)}


def generate(pack, seed, shard, count):
    g = Gen(seed, pack, shard)
    PACKS[pack](g, count)
    return g


def main():
    pack, seed, shard, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    generate(pack, seed, shard, count).write(out)


if __name__ == "__main__":
    main()
