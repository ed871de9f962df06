"""C18: malformed declarations, and what the compiler says of each.

Every declaration is made valid first (its twin), then one attribute of it is spoilt in a way that no documented form
allows. One compilation reports on all of them; the monitor is the compiler's stream of diagnostics."""
import difflib, glob, json, os, random, re, subprocess, time

TYPES = ['text::Tag<".">', "text::Space", 'text::AnyOf1<"abc">', "Vec<text::WhiteSpace>", 'Vec1<text::OneOf<"ab">>',
         "[text::Space; 2]", "Option<text::LineEnding>", "(Box<text::Space>)", "nommy::text::Space", 'Vec<Vec1<text::Tag<"=">>>']
GLOBAL = ["ignore", "prefix", "suffix", "parse_type"]
VARIANT = ["ignore", "prefix", "suffix"]
FIELD = ["prefix", "suffix", "parser", "inner_parser", "seperated_by", "trailing"]
UNKNOWN = ["prefx", "Prefix", "separated_by", "ignored", "inner", "foo", "type", "self", "parse", "with", "_", "match", "ignore_type",
           "suffixes", "parsetype", "min_count", "r#prefix", "max_", "seperatedby", "trail", "ŝuffix", "preﬁx"]
NOT_TYPES = ['"abc"', "5", "+", "=", "..", "'a'", "A B", "text::Space;", "text::Space text::Space", "{ text::Space }", "#", "-1", "if",
             "text::Space +", "= text::Space", "text::Space = text::Space", "b\"x\"", "1..2", "text::Tag<\".\"", "text::Space>", "|x| x",
             "Vec<", "<>", "text::", "::", "text::Space.x", "text::Space!", "@", "$", "?", "text::Space?", "r\"x\"", "1.5", "fn", "[text::Space; ]",
             "text::Space => 1", "&", "dyn", "impl", "text::Tag<\".\">>", "text::Space/", "[text::Space; 2] x", "struct A", "let", "a.b"]
UNFINISHED = ("text::Tag<\".\"", "<", "::", "&", "dyn", "impl", "fn", "=", "let")
BAD_TRAILING = ['"Yes"', "yes", "true", "1", '"yes" "no"', "'y'", 'b"yes"', '"maybe" junk', '""', '" yes"', "maybe", '("yes")', '"none"',
                '"yes";', "text::Space", '"always"', '-"yes"', '"no" = "yes"', '["no"]', "{ \"yes\" }", '"trailing"', "=", '= "yes"']


class Deck:
    """Deals everything in a list once before anything again"""

    def __init__(self, r):
        self.r = r
        self.left = {}

    def deal(self, key, xs):
        if not self.left.get(key):
            self.left[key] = list(xs)
            self.r.shuffle(self.left[key])
        return self.left[key].pop()


class Attr:
    """key = value"""

    def __init__(self, key, value):
        self.key, self.value = key, value
        self.text = None

    def __str__(self):
        return self.text if self.text is not None else "%s = %s" % (self.key, self.value)


class Decl:
    """A declaration with one place to spoil"""

    def __init__(self, r, i):
        self.r = r
        self.name = "D%d" % i
        self.kind = r.choice(["struct", "struct", "tuple", "unit", "enum", "enum"])
        self.places = []  # (level, attrs)
        k = self.kind
        self.top = self.place("type", r.randint(0, 3))
        self.parts = []
        if k in ("struct", "tuple"):
            self.parts.append((None, k, [], self.fields(r.randint(1, 3))))
        elif k == "enum":
            for v in range(r.randint(1, 3)):
                vk = r.choice(["struct", "tuple", "unit"])
                a = self.place("variant", r.randint(0, 2))
                self.parts.append(("V%d" % v, vk, a, self.fields(r.randint(1, 2)) if vk != "unit" else []))
        self.union = False
        self.raw = None  # twin and spoilt, if written out
        self.noise = {}
        self.blocks = {}

    def place(self, level, n):
        r = self.r
        keys = {"type": ["ignore", "ignore", "prefix", "suffix"], "variant": ["ignore", "prefix", "suffix"],
                "field": ["prefix", "suffix", "parser"]}[level]
        a, used = [], set()
        if level == "type":
            # a parser for chars
            a.append(Attr("parse_type", "char"))
        for _ in range(n):
            k = r.choice(keys)
            if k in used and k != "ignore":
                continue
            used.add(k)
            a.append(Attr(k, r.choice(TYPES)))
        r.shuffle(a)
        self.places.append((level, a))
        return a

    def fields(self, n):
        r = self.r
        out = []
        for i in range(n):
            lst = r.random() < 0.3
            a = self.place("field", r.randint(0, 2))
            a[:] = [x for x in a if x.key != "parser"]
            if lst:
                a.append(Attr("inner_parser", "text::Space"))
                if r.random() < 0.6:
                    a.append(Attr("seperated_by", r.choice(TYPES)))
                    if r.random() < 0.6:
                        a.append(Attr("trailing", r.choice(['"yes"', '"no"', '"maybe"'])))
                ty = "Vec<text::Space>"
            elif r.random() < 0.4:
                a.append(Attr("parser", 'text::AnyOf1<"abc">'))
                ty = "String"
            else:
                ty = r.choice(["text::Space", 'text::Tag<"x">', "Vec<text::WhiteSpace>", "Option<text::LineEnding>"])
            r.shuffle(a)
            out.append((a, ty))
        return out

    # ------------------------------------------------------------ writing
    def attrs(self, a, indent):
        if not a:
            return ""
        # in one block, several, or one each; the same for the twin
        if id(a) not in self.blocks:
            cuts = []
            for i in range(len(a)):
                cuts.append(self.r.random() < 0.4)
            self.blocks[id(a)] = cuts
        cuts = self.blocks[id(a)]
        lines, cur = [], []
        for i, x in enumerate(a):
            if isinstance(x, Raw):
                if cur:
                    lines.append("#[nommy(%s)]" % ", ".join(cur))
                    cur = []
                lines.append(x.text)
                continue
            cur.append(str(x))
            if i < len(cuts) and cuts[i]:
                lines.append("#[nommy(%s)]" % ", ".join(cur))
                cur = []
        if cur:
            lines.append("#[nommy(%s)]" % ", ".join(cur))
        # what else may stand there, in the twin as well
        n = self.noise.setdefault(id(a), self.r.choice([0, 0, 0, 1, 2, 3]))
        extra = ["", "/// prefix = \"x\"", "#[allow(dead_code)]", "#[doc(hidden)]"][n]
        if extra:
            lines.insert(min(n - 1, len(lines)), extra)
        return "".join(indent + l + "\n" for l in lines)

    def __str__(self):
        s = "#[derive(nommy::Parse)]\n" + self.attrs(self.top, "")
        if self.union:
            return s + "pub union %s { a: u8, b: [u8; 1] }\n" % self.name
        if self.kind == "unit":
            return s + "pub struct %s;\n" % self.name
        if self.kind == "enum":
            s += "pub enum %s {\n" % self.name
            for n, k, a, fs in self.parts:
                s += self.attrs(a, "    ") + "    " + n + self.body(k, fs, "    ") + ",\n"
            return s + "}\n"
        n, k, a, fs = self.parts[0]
        return s + "pub struct " + self.name + self.body(k, fs, "") + (";\n" if k == "tuple" else "\n")

    def body(self, k, fs, indent):
        if k == "unit":
            return ""
        o, c = ("{", "}") if k == "struct" else ("(", ")")
        vis = "pub " if False else ""
        out = " " + o + "\n"
        for i, (a, ty) in enumerate(fs):
            out += self.attrs(a, indent + "    ") + indent + "    " + ("f%d: " % i if k == "struct" else "") + vis + ty + ",\n"
        return out + indent + c


class Raw:
    def __init__(self, text):
        self.text = text
        self.key = None


def spoil(d, deck):
    """Spoils one attribute; returns what was done"""
    r = d.r
    if r.random() < 0.02:
        d.union = True
        return "union"
    q = deck.deal("what", range(14))
    places = d.places
    if q in (10, 11):
        places = [p for p in d.places if p[0] == "field"]
        if not places:
            q = 0
            places = d.places
    level, a = r.choice(places)
    allowed = {"type": GLOBAL, "variant": VARIANT, "field": FIELD}[level]
    have = [x for x in a if isinstance(x, Attr)]
    ty = r.choice(TYPES)

    def put(x):
        a.insert(r.randint(0, len(a)), x)
        d.blocks.pop(id(a), None)

    def text(t):
        x = Attr("", "")
        x.text = t
        put(x)
        return t

    def plain(keys=None):
        # a parameter of this level that takes a type
        return r.choice([k for k in allowed if k not in ("trailing", "seperated_by", "inner_parser")])

    if q == 0:
        t = text("%s = %s" % (deck.deal("unknown", UNKNOWN), ty))
        return "unknown at %s: %s" % (level, t)
    if q == 13:
        x = deck.deal("generic", ["prefix = %s", "ignore = %s", "parser = %s", "bogus = %s", "parse_type = %s", "suffix = %s", "%s"]) % ty
        form = "#[derive(nommy::Parse)]\npub " + deck.deal("generic form", [
            "struct %s<\n%sG,\n>(Vec<G>);\n", "struct %s<\n%sG,\n> { g: [G; 2] }\n", "enum %s<\nA,\n%sG,\n> { V(A), W { g: G } }\n"])
        d.raw = form % (d.name, ""), form % (d.name, "#[nommy(%s)]\n" % x)
        return "misplaced at a type parameter: " + x
    if q == 1:
        bad = [k for k in set(GLOBAL + FIELD) if k not in allowed]
        k = deck.deal("bad " + level, sorted(bad))
        t = text("%s = %s" % (k, '"yes"' if k == "trailing" else ("char" if k == "parse_type" else ty)))
        return "misplaced at %s: %s" % (level, t)
    if q == 2:
        k = plain()
        t = text(deck.deal("punct", ["%s %s", "%s: %s", "%s(%s)", "%s == %s", "%s => %s", "%s += %s", "%s := %s", "%s . %s", "%s, = %s", "%s -> %s", "%s{%s}",
                           "%s[%s]", "%s - %s", "%s ! %s", "%s = = %s", "%s :: %s", "%s; %s"]) % (k, ty))
        return "punctuation at %s: %s" % (level, t)
    if q == 3:
        t = text(r.choice(["%s =", "%s"]) % plain())
        return "no value at %s: %s" % (level, t)
    if q == 4 or q == 5:
        t = text("%s = %s" % (plain(), deck.deal("not types", NOT_TYPES)))
        return "not a type at %s: %s" % (level, t)
    if q == 6:
        t = text("%s = %s %s = %s" % (plain(), ty, plain(), r.choice(TYPES)))
        return "no comma at %s: %s" % (level, t)
    if q == 7:
        t = text(r.choice([", %s = %s", "%s = %s,, prefix = text::Space"]) % (plain(), ty))
        return "empty parameter at %s: %s" % (level, t)
    if q == 8:
        k = plain()
        t = deck.deal("delims", ['#[nommy[%s = %s]]', '#[nommy{%s = %s}]', '#[nommy = "%s = text::Space%.0s"]', '#[nommy(%s = %s, "x")]', '#[nommy([%s = %s])]',
                      '#[nommy({%s = %s})]', '#[nommy((%s = %s))]', '#[nommy = %s!(%s)]']) % (k, ty)
        if "!" in t:
            t = '#[nommy = "x"]'
        put(Raw(t))
        return "delimiters at %s: %s" % (level, t)
    if q == 9:
        t = text(deck.deal("names", ['"%s" = %s', '5 %s = %s', '(%s) = %s', '= %s %s', '<%s> = %s', 'a::%s = %s', '%s::x = %s', "'%s = %s", "-%s = %s", "#%s = %s",
                           "[%s] = %s", "b\"%s\" = %s", "%s.x = %s", "&%s = %s", "!%s = %s", "*%s = %s", ".%s = %s", "?%s = %s"]) % (plain(), ty))
        return "name at %s: %s" % (level, t)
    if q == 10 and level == "field":
        for x in [x for x in a if x.key in ("parser", "trailing", "seperated_by", "inner_parser")]:
            a.remove(x)
        put(Attr("inner_parser", "text::Space"))
        put(Attr("seperated_by", ty))
        t = text(deck.deal("trailing", ["trailing = " + x for x in BAD_TRAILING] + ["trailing", "trailing =",
                           'trailing "yes"', 'trailing("yes")', 'trailing: "yes"', 'trailing == "yes"', 'trailing => "yes"', 'trailing + "yes"']))
        return "trailing: " + t
    if q == 11 and level == "field":
        for x in [x for x in a if x.key in ("parser", "trailing", "seperated_by", "inner_parser")]:
            a.remove(x)
        t = text(deck.deal("without", ["seperated_by = " + ty, 'trailing = "yes"', 'trailing = "maybe"', 'seperated_by = text::Space, trailing = "yes"']))
        return "without inner_parser: " + t
    if q == 12 and have:
        # an attribute that is there, with a token too many
        x = r.choice(have)
        x.text = "%s = %s %s" % (x.key, x.value, deck.deal("more", ["x", "=", "5", "\"x\"", ";", "text::Space", "?", "= text::Space"]))
        return "too much at %s: %s" % (level, x.text)
    t = text("%s = %s" % (r.choice(UNKNOWN), ty))
    return "unknown at %s: %s" % (level, t)


HEAD = ("#![allow(incomplete_features, dead_code, unused)]\n"
        "use nommy::{text, Vec1};\n")


def write(dr, crate, parts):
    """Returns the line range of each part"""
    src, at, ranges = HEAD, HEAD.count("\n") + 1, []
    for p in parts:
        p = "pub mod m%d { use super::*;\n%s}\n" % (len(ranges), p)
        n = p.count("\n")
        ranges.append((at, at + n - 1))
        src += p
        at += n
    d = os.path.join(dr.GEN, crate)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    dr.gen.put(os.path.join(d, "src/lib.rs"), src)
    dr.gen.put(os.path.join(d, "Cargo.toml"),
               '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\npublish = false\n\n[dependencies]\n'
               'nommy = { path = "/repo/nommy" }\n\n[workspace]\n' % crate)
    return ranges


def compile_(dr, crate, limit):
    e = dr.env(True)
    e["CARGO_TARGET_DIR"] = os.path.join(dr.TARGET, "t")
    p = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(dr.GEN, crate, "Cargo.toml")],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    msgs, own = [], False
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-message":
                if m["target"]["name"] == crate:
                    msgs.append(m["message"])
                elif m["message"]["level"] == "error":
                    raise dr.Inconclusive("nommy does not build")
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "nommy":
                own = True
    err = p.stderr.decode("utf-8", "replace")
    if not own:
        dr.say(err[-2000:])
        raise dr.Inconclusive("nommy does not build")
    return p.returncode == 0, msgs, err


def where(m, ranges, crate):
    """The parts that a message points into"""
    out = set()
    for s in m["spans"]:
        while s is not None:
            if s["file_name"].endswith("lib.rs"):
                for i, (a, b) in enumerate(ranges):
                    if a <= s["line_start"] <= b:
                        out.add(i)
            s = s["expansion"]["span"] if s.get("expansion") else None
    return out


def changed(twin, bad):
    """The lines of `bad` that are not in its twin"""
    a, b = twin.split("\n"), bad.split("\n")
    out = []
    for op, _, _, j, k in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
        if op != "equal":
            out += range(j, k)
        if op == "delete":
            # nothing to point to but the rest of what it was taken from
            while j > 0 and b[j - 1].strip().startswith("#["):
                j -= 1
            while k < len(b) and b[k].strip().startswith("#["):
                k += 1
            out += range(j, min(k + 1, len(b)))
    return out


def once(c, dr, seed, n):
    r = random.Random("C18/%s" % seed)
    deck = Deck(r)
    cases = []
    while len(cases) < n:
        d = Decl(r, len(cases))
        twin = str(d)
        what = spoil(d, deck)
        bad = str(d)
        if d.raw:
            twin, bad = d.raw
        if bad == twin:
            continue
        cases.append((twin, bad, what))
    # the twins have to be right, or nothing is known about their counterparts
    good = set(range(len(cases)))
    for attempt in range(6):
        order = sorted(good)
        ranges = write(dr, "mal_twins", [cases[i][0] for i in order])
        try:
            ok, msgs, err = compile_(dr, "mal_twins", 300)
        except subprocess.TimeoutExpired:
            raise dr.Inconclusive("valid declarations do not get compiled")
        if ok:
            break
        gone = set()
        for m in msgs:
            if m["level"] == "error":
                if "panicked" in m["message"]:
                    for k in where(m, ranges, "mal_twins"):
                        c.violation("the macro panics on a valid declaration", {"declaration": cases[order[k]][0], "message": m["rendered"]})
                gone |= {order[k] for k in where(m, ranges, "mal_twins")}
        if not gone:
            dr.say(err[-2000:])
            raise dr.Inconclusive("the valid declarations do not compile")
        good -= gone
    if len(good) < len(cases) * 0.5:
        raise dr.Inconclusive("most of the valid declarations do not compile")
    order = sorted(good)
    ranges = write(dr, "mal_bad", [cases[i][1] for i in order])
    try:
        ok, msgs, err = compile_(dr, "mal_bad", 300)
    except subprocess.TimeoutExpired:
        c.violation("the macro does not return on one of the malformed declarations", {"file": open(os.path.join(dr.GEN, "mal_bad/src/lib.rs")).read()})
        return
    told, precise = {}, set()
    elsewhere = 0
    for m in msgs:
        if m["level"] != "error" or not m["spans"]:
            continue
        at = where(m, ranges, "mal_bad")
        if "panicked" in m["message"] or "panicked" in str(m.get("children")):
            for k in at:
                c.violation("the macro panics: %s" % cases[order[k]][2], {"declaration": cases[order[k]][1], "message": m["rendered"]})
            continue
        if m.get("code"):
            continue
        if not at:
            elsewhere += 1
        for k in at:
            told.setdefault(k, m["message"])
            # is it at the attribute that was spoilt? Where something is missing at the end there may be nothing to point to
            twin, bad, what = cases[order[k]]
            lines = changed(twin, bad)
            first = ranges[k][0] + 1
            if what == "union" or "end of input" in m["message"] or what.endswith(UNFINISHED) or any(
                    s["file_name"].endswith("lib.rs") and any(s["line_start"] <= first + i <= s["line_end"] for i in lines) for s in m["spans"]):
                precise.add(k)
    kinds = c.notes.setdefault("malformed declarations reported, by what is wrong", {})
    for k, i in enumerate(order):
        c.evaluations += 1
        twin, bad, what = cases[i]
        if k in told and k not in precise:
            c.violation("reported, but elsewhere (%s): %s" % (told[k], what), {"declaration": bad, "valid": twin, "what": what})
        elif k in told:
            c.distinct_set.add(bad.replace("D%d" % i, "D"))
            w = what.split(":")[0]
            kinds[w] = kinds.get(w, 0) + 1
            c.notes.setdefault("messages", {})
            c.notes["messages"][told[k][:60]] = c.notes["messages"].get(told[k][:60], 0) + 1
            if len(c.samples) < 12 and i % 17 == 0:
                c.samples.append("%s -> %s" % (what, told[k]))
        elif not any(f[1].get("declaration") == bad for f in c.found):
            c.violation("not reported: %s" % what, {"declaration": bad, "valid": twin, "what": what})
    c.notes["valid counterparts compiled"] = c.notes.get("valid counterparts compiled", 0) + len(good)
    c.notes["valid counterparts that do not compile, left out"] = c.notes.get("valid counterparts that do not compile, left out", 0) + len(
        cases) - len(good)
    c.notes["errors that point to no declaration"] = c.notes.get("errors that point to no declaration", 0) + elsewhere


def slips(word):
    """What one may write for a word"""
    out = set()
    for i in range(len(word)):
        out.add(word[:i] + word[i + 1:])
        out.add(word[:i] + word[i] + word[i:])
        out.add(word[:i] + word[i].upper() + word[i + 1:])
        if i:
            out.add(word[:i - 1] + word[i] + word[i - 1] + word[i + 1:])
            out.add(word[:i] + "_" + word[i:])
    for form in ("%ss", "%s_", "_%s", "%sed", "%s_type", "%s_by", "un%s", "%s1", "no_%s", "is_%s", "%s_parser", "inner_%s", "nommy_%s", "%sr"):
        out.add(form % word)
    out |= {word.upper(), word.title(), word.replace("_", ""), word.split("_")[0], word.split("_")[-1], word[:3], word[:4]}
    return sorted(w for w in out if w and re.match(r"^[A-Za-z_]\w*$", w))


def sweep(c, dr):
    """Names that mean nothing: all slips of the pen, and every word that the derive's own source knows"""
    known = {"type": GLOBAL + ["debug"], "variant": VARIANT + ["debug"], "field": FIELD}
    words = set(UNKNOWN)
    for w in set(GLOBAL + FIELD + ["yes", "no", "maybe"]):
        words |= set(slips(w)) | {w}
    for f in sorted(glob.glob(os.path.join(dr.REPO, "nommy-derive/src/**/*.rs"), recursive=True)):
        words |= {w for w in re.findall(r"[A-Za-z_]\w*", open(f, errors="replace").read()) if len(w) < 25}
    cases = []
    for i, w in enumerate(sorted(words)):
        if w in ("crate", "self", "super", "Self") or not w.isascii() and not w.isidentifier():
            continue
        d = "#[derive(nommy::Parse)]\n"
        a = "#[nommy(%s = text::Space)]\n" % w
        if w not in known["type"]:
            cases.append((w + " at type", d + a + ["pub struct D(text::Space);\n", "pub enum D { V }\n", "pub struct D;\n"][i % 3]))
        if w not in known["variant"]:
            cases.append((w + " at variant", d + "pub enum D {\n" + a + ["V }\n", "V(text::Space), W }\n", "V { f: text::Space } }\n"][i % 3]))
        if w not in known["field"]:
            b = a if i % 2 else a + "#[nommy(inner_parser = text::Space, seperated_by = text::Space)]\n"
            t = "text::Space" if i % 2 else "Vec<text::Space>"
            cases.append((w + " at field", d + ["pub struct D {\n%sf: %s }\n", "pub struct D(\n%s%s);\n", "pub enum D { V(\n%s%s) }\n"][i % 3] % (b, t)))
        if w not in ("yes", "no", "maybe"):
            cases.append(("trailing: " + w, d + "pub struct D(\n#[nommy(inner_parser = text::Space, seperated_by = text::Space,\ntrailing = \"%s\")]\nVec<text::Space>);\n" % w))
    ranges = write(dr, "mal_words", [t for _, t in cases])
    try:
        ok, msgs, err = compile_(dr, "mal_words", 400)
    except subprocess.TimeoutExpired:
        raise dr.Inconclusive("the declarations with unknown words take too long")
    told = set()
    for m in msgs:
        if m["level"] != "error" or m.get("code"):
            continue
        at = where(m, ranges, "mal_words")
        if "panicked" in m["message"]:
            for k in at:
                c.violation("the macro panics: %s" % cases[k][0], {"declaration": cases[k][1], "message": m["rendered"]})
        told |= at
    for k, (what, text) in enumerate(cases):
        c.evaluations += 1
        if k in told:
            c.distinct_set.add(text)
        else:
            c.violation("not reported: %s" % what, {"declaration": text, "what": what})
    c.notes["declarations with unknown words"] = len(cases)


def check(c, dr):
    c.distinct_set = set()
    dr.build_base()
    n = 900 if c.tier == "quick" else 1500
    sweep(c, dr)
    for seed in dr.rounds(c):
        once(c, dr, seed, n)
    c.distinct = len(c.distinct_set)
    return c.finish(
        "A declaration with valid attributes on its type, variants and fields is generated and one attribute is spoilt in a way that no "
        "documented form allows (unknown or misplaced name, punctuation, missing or bad value, delimiters, missing comma, trailing, unions). "
        "All are compiled at once; each must get an error from the macro that points into it, and none may make it panic. Distinct and "
        "non-trivial: distinct declarations whose valid counterpart compiles and which were reported.",
        ["which forms are valid is taken from docs/src; a parameter given twice, `debug`, an empty #[nommy] and a trailing comma are not judged"])
