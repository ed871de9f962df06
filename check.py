#!/usr/bin/env python3
"""check.py <Cxx>: decides one property by monitored executions of the crate in /repo. See DESIGN.md."""
import concurrent.futures, fcntl, glob, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen, malformed  # noqa: E402

TARGET = os.path.join(VERIF, "target")
GEN = os.path.join(TARGET, "gen")
RUN = os.path.join(TARGET, "run")
REPLAYS = os.path.join(VERIF, "replays")
TOOLCHAIN = "nightly-2021-08-29-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
KNOWN = os.path.join(VERIF, "known_findings.txt")

# property: (packs as (name, shards, entries per shard), cases per entry, whether the declarations themselves are judged)
# quick, then thorough
PLAN = {
    "C01": ([], 400, False),
    "C02": ([("mix", 6, 60), ("rec", 2, 30)], 250, False),
    "C03": ([("mix", 6, 70), ("basic", 1, 120), ("rec", 2, 30)], 300, False),
    "C04": ([("back", 8, 70)], 300, False),
    "C05": ([("basic", 8, 110)], 400, False),
    "C06": ([("comb", 8, 90)], 300, False),
    "C07": ([("structs", 8, 70)], 300, True),
    "C08": ([("enums", 8, 60)], 300, True),
    "C09": ([("mem", 8, 50)], 80, False),
    "C10": ([("mix", 6, 60), ("rec", 2, 24)], 40, False),
    "C11": ([("mix", 8, 60)], 300, False),
    "C12": ([("mix", 6, 60), ("rec", 2, 30)], 300, False),
    "C13": ([("mix", 6, 60), ("rec", 2, 30)], 250, False),
    "C14": ([("layout", 8, 24)], 120, True),
    "C15": ([("conv", 8, 60)], 400, True),
    "C16": ([("mix", 7, 20), ("rec", 3, 9), ("comb", 2, 35)], 400, False),
    "C17": ([("zero", 8, 70)], 250, False),
    "C19": ([("lists", 8, 60)], 300, True),
    "C20": ([("ignore", 8, 60)], 250, True),
    "C21": ([("rec", 8, 30)], 250, True),
    "C22": ([("elem", 8, 16)], 150, True),
    "C23": ([("mix", 4, 60), ("twins", 3, 60), ("rec", 1, 20)], 50, False),
}
TIME_QUICK = 150
TIME_THOROUGH = 1500


def say(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def env(hook=True, extra=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTDOC", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUST_MIN_STACK"):
        e.pop(k, None)
    e.update(
        RUSTUP_HOME="/root/.rustup", CARGO_HOME=os.path.join(TARGET, "cargo-home"), RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME=os.environ.get("HOME", "/root"),
        RUSTFLAGS=(("--cfg nommy_monitor " if hook else "") + extra).strip())
    return e


def sources_hash():
    """Of everything the programs are built from. Times of change are not to be trusted in a copied tree."""
    h = hashlib.sha256()
    files = []
    for root in (REPO, os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "nommy-tests", "docs"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".md"))]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()


def freshen(target):
    """Makes cargo rebuild when the sources differ from those of the last build in this target directory"""
    stamp = os.path.join(target, "sources")
    now = sources_hash()
    try:
        if open(stamp).read() == now:
            return
    except OSError:
        pass
    for d in glob.glob(os.path.join(target, "**", ".fingerprint", "*"), recursive=True):
        if os.path.basename(d).startswith(("nommy", "nmon", "pack_")):
            shutil.rmtree(d)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def prepare():
    home = os.path.join(TARGET, "cargo-home")
    os.makedirs(home, exist_ok=True)
    shutil.copyfile("/opt/vp/cargo-home/config.toml", os.path.join(home, "config.toml"))
    for d in (GEN, RUN, REPLAYS, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)


def cargo(args, target, hook, extra=""):
    """Returns (built, compiler messages)"""
    e = env(hook, extra)
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"] + args, env=e, cwd=GEN,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    msgs = []
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-message":
                msgs.append(m)
    return p.returncode == 0, msgs, p.stderr.decode("utf-8", "replace")


HOOK = [None]


def build_base(mode=(), target=None, extra=""):
    """nommy and the harness. Finds out whether the hook is there."""
    target = target or os.path.join(TARGET, "t")
    freshen(target)
    for hook in ((True, False) if HOOK[0] is None else (HOOK[0],)):
        ok, msgs, err = cargo(["--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")] + list(mode), target, hook, extra)
        if ok:
            if HOOK[0] is None and not hook:
                say("note: the hook in /repo does not build; monitoring without it")
            HOOK[0] = hook
            return
    for m in msgs:
        if m["message"]["level"] == "error":
            say(m["message"].get("rendered", "")[:1500])
    say(err[-1500:])
    raise Inconclusive("nommy or the harness does not build")


class Pack:
    def __init__(self, prop, name, seed, shard, count):
        self.crate = "pack_%s_%d" % (name, shard)
        self.gen = gen.generate(name, seed, shard, count)
        self.dir = os.path.join(GEN, self.crate)
        self.without = set()
        self.spec = (name, seed, shard, count)
        self.rejected = []  # (text, message)
        self.write()

    def write(self):
        self.lines = self.gen.write(self.dir, self.without)

    def drop_users(self):
        """Leaves out what refers to what is left out"""
        gone = set()
        for what in self.without:
            m = what[0] == "item" and re.match(r"pub mod (\w+)|(?:#.*\n)*pub (?:struct|enum) ([\w#]+)", self.text(what))
            if m:
                gone.add(m.group(1) or m.group(2))
        more = True
        while more:
            more = False
            for what in [("item", i) for i in range(len(self.gen.items))] + [("entry", i) for i in range(len(self.gen.entries))]:
                text = self.gen.items[what[1]] if what[0] == "item" else self.gen.entries[what[1]][4]
                if what not in self.without and gone & set(re.findall(r"\w+", text)):
                    self.without.add(what)
                    more = True
                    m = what[0] == "item" and re.match(r"pub mod (\w+)|(?:#.*\n)*pub (?:struct|enum) ([\w#]+)", text)
                    if m:
                        gone.add(m.group(1) or m.group(2))

    def text(self, what):
        return self.gen.items[what[1]] if what[0] == "item" else self.gen.entries[what[1]][1]


def workspace(packs):
    gen.put(os.path.join(GEN, "Cargo.toml"),
            "[workspace]\nmembers = [%s]\n\n[profile.dev]\ndebug = 0\nincremental = false\n\n[profile.release]\ndebug = 0\n"
            "incremental = false\n" % ", ".join('"%s"' % p.crate for p in packs))


def build_packs(packs, mode=(), target=None, extra=""):
    """Builds the programs, leaving out what the compiler rejects (and remembering it)"""
    target = target or os.path.join(TARGET, "t")
    freshen(target)
    workspace(packs)
    by = {p.crate: p for p in packs}
    for attempt in range(12):
        ok, msgs, err = cargo(["--workspace"] + list(mode), target, HOOK[0], extra)
        if ok:
            return
        blamed = False
        for m in msgs:
            p = by.get(m["target"]["name"])
            if m["message"]["level"] != "error":
                continue
            if p is None:
                say(m["message"].get("rendered", "")[:1500])
                raise Inconclusive("%s does not build" % m["target"]["name"])
            for s in m["message"]["spans"]:
                what = p.lines.get(s["line_start"])
                if s["is_primary"] and s["file_name"].endswith("main.rs") and what is not None and what not in p.without:
                    p.without.add(what)
                    if attempt == 0:
                        p.rejected.append((p.text(what), m["message"].get("rendered", m["message"]["message"])[:1500]))
                    blamed = True
        if not blamed:
            # the compiler itself may fail on a program
            ice = [m.split("`")[1] for m in err.splitlines() if m.startswith("error: could not compile `pack_")]
            if ice and "internal compiler error" in err + str([m["message"]["message"] for m in msgs]) and len(ice) < len(packs):
                say("note: the compiler crashes on %s, left out" % ", ".join(ice))
                packs[:] = [p for p in packs if p.crate not in ice]
                workspace(packs)
                continue
            say(err[-3000:])
            raise Inconclusive("the generated programs do not build")
        for p in packs:
            p.drop_users()
            p.write()
    raise Inconclusive("the generated programs do not build")


def binary(name, release=False, target=None, triple=False):
    return os.path.join(target or os.path.join(TARGET, "t"), TRIPLE if triple else "", "release" if release else "debug", name)


class Run:
    """One execution of a monitored program"""

    def __init__(self, exe, prop, seed, cases, limit, threads=8, args=(), extra_env=None, prefix=(), cpu=None, stall=60, tag=""):
        self.dir = os.path.join(RUN, "%s_%s%s" % (os.path.basename(exe), prop, tag))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "out.json")
        self.exe = exe
        self.argv = list(prefix) + [exe, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--threads", str(threads), "--time",
                                    str(int(limit)), "--out", self.out, "--dir", self.dir, "--stall", str(stall)] + list(args)
        e = env(True)
        e.update(extra_env or {})

        def before():
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        hard = int(limit) + stall * 4 + 120
        with open(os.path.join(self.dir, "log"), "wb") as log:
            try:
                p = subprocess.run(self.argv, env=e, stdout=log, stderr=log, stdin=subprocess.DEVNULL, preexec_fn=before, timeout=hard)
                self.code = p.returncode
            except subprocess.TimeoutExpired:
                self.code = 98
        with open(os.path.join(self.dir, "log"), "rb") as log:
            self.log = log.read()[-200000:].decode("utf-8", "replace")
        self.report = None
        if self.code == 0:
            self.report = json.load(open(self.out))

    def current(self):
        cases = []
        for f in sorted(glob.glob(os.path.join(self.dir, "current.*"))):
            line = open(f, "rb").read().decode("utf-8", "replace").split("\n")[0]
            if ":" in line:
                cases.append(line)
        return cases


class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.began = time.time()
        self.budget = TIME_QUICK if tier == "quick" else TIME_THOROUGH
        self.reports = []
        self.found = []  # (summary, details)
        self.notes = {}
        self.samples = []
        self.evaluations = 0
        self.distinct = 0

    def left(self):
        return max(0, self.budget - (time.time() - self.began))

    def violation(self, summary, details):
        self.found.append((summary, details))

    # ------------------------------------------------------------ running
    def run(self, exe, prop=None, cases=100, seed=None, how="", again=None, **kw):
        """Runs a program; deals with every way it can end"""
        prop = prop or self.prop
        seed = self.seed if seed is None else seed
        limit = max(10, self.left())
        for attempt in range(2):
            r = Run(exe, prop, seed, cases, limit, **kw)
            if r.code == 0:
                self.take(r.report, how or os.path.basename(exe), exe, prop, seed, again)
                return r
            if r.code in (3, 96, 101):
                say(r.log[-3000:])
                raise Inconclusive("the harness failed")
            # a crash, a hang or a runaway allocation: which case was it?
            say("%s ended with %s; looking for the case" % (os.path.basename(exe), r.code))
            tail = r.log[-6000:]
            for c in r.current():
                kw2 = {k: v for k, v in kw.items() if k not in ("threads", "args", "cpu", "stall")}
                q = Run(exe, prop, seed, cases, 300, threads=1, args=["--only", c, "--cpu", "60"], cpu=100, stall=100000, **kw2)
                if q.code == 0:
                    if q.report["violations"]:
                        self.take(q.report, how, exe, prop, seed, again)
                        return q
                    continue
                if q.code in (3, 96, 101):
                    raise Inconclusive("the harness failed")
                what = {97: "memory use beyond all bounds", 98: "no end within 60 s of processor time", -signal.SIGXCPU: "no end within 60 s of processor time",
                        -signal.SIGKILL: "no end, or killed for its memory use", -signal.SIGSEGV: "segmentation fault or stack overflow",
                        -signal.SIGABRT: "abort"}.get(q.code, "exit %s" % q.code)
                self.violation("%s: %s on case %s" % (os.path.basename(exe), what, c),
                               {"command": q.argv, "env": kw.get("extra_env"), "code": q.code, "what": what, "log": q.log[-8000:],
                                "entry": self.entry_text(exe, c)})
                return q
            say("not reproduced alone; once more" if attempt == 0 else "not reproduced")
        say(tail)
        raise Inconclusive("%s ended with %s, not reproducibly" % (os.path.basename(exe), r.code))

    packs_by = {}

    def entry_text(self, exe, c):
        p = self.packs_by.get(os.path.basename(exe))
        if p:
            for n, text, *_ in p.gen.entries:
                if n == c.rsplit(":", 1)[0]:
                    return text
        return ""

    def take(self, rep, how, exe, prop, seed, again):
        self.reports.append((how, rep))
        self.evaluations += rep["evals"]
        self.distinct += rep["distinct"]
        self.samples += rep["samples"][:3]
        p = self.packs_by.get(os.path.basename(exe))
        for v in rep["violations"]:
            self.violation("%s case %d on %s: %s" % (v["entry"], v["case"], v["input"][:200], v["msg"][:600]),
                           dict(v, how=how, seed=seed, property=prop, pack=p.spec if p else None,
                                rerun=[exe, "--prop", prop, "--seed", str(seed), "--only", "%s:%d" % (v["entry"], v["case"]), "--dir", "/tmp"]))

    # ------------------------------------------------------------ packs
    def packs(self, plan, seed, judged, **kw):
        ps = [Pack(self.prop, name, seed, shard, count) for name, shards, count in plan for shard in range(shards)]
        # some programs are the same for every seed: shard 0 has them
        build_packs(ps, **kw)
        if len(ps) < sum(n for _, n, _ in plan):
            self.notes["programs left out because the compiler crashes"] = sum(n for _, n, _ in plan) - len(ps)
        self.packs_by = {p.crate: p for p in ps}
        for p in ps:
            for text, msg in p.rejected[:3]:
                if judged:
                    self.violation("a valid declaration does not compile: %s" % msg.split("\n")[0],
                                   {"declaration": text, "message": msg, "pack": p.spec})
                else:
                    say("note: left out, for it does not compile: %s" % msg.split("\n")[0])
                    self.notes["declarations left out because they did not compile"] = self.notes.get(
                        "declarations left out because they did not compile", 0) + 1
        return ps

    # ------------------------------------------------------------ reporting
    def finish(self, rule, assumptions, level="exploration"):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": rule, "samples": self.samples[:20]}
        tot = {}
        for _, r in self.reports:
            for k in ("entries", "units", "execs", "accept", "reject", "zero", "elements", "skipped"):
                tot[k] = tot.get(k, 0) + r[k]
        names = {"entries": "parsers", "units": "parsers_or_groups", "execs": "executions_of_the_real_code", "accept": "inputs_accepted",
                 "reject": "inputs_rejected", "zero": "inputs_with_zero_width_repetition", "elements": "input_elements",
                 "skipped": "cases_beyond_the_specifications_budget"}
        for k, v in tot.items():
            cov[names[k]] = v
        ev, extra, maxes = {}, {}, {}
        for _, r in self.reports:
            for k, v in r["ev"].items():
                ev[k] = ev.get(k, 0) + v
            for k, v in r["extra"].items():
                extra[k] = extra.get(k, 0) + v
            for k, v in r["maxes"].items():
                maxes[k] = max(maxes.get(k, 0), v)
        if ev:
            cov["specification_events_seen"] = {k: v for k, v in ev.items() if v}
            cov["specification_events_never_seen"] = [k for k, v in ev.items() if not v]
        if extra:
            cov["monitor_counts"] = extra
        if maxes:
            cov["monitor_maxima"] = maxes
        cov.update(self.notes)
        cov["runs"] = [{"program": h, "executions": r["execs"], "seconds": r["secs"]} for h, r in self.reports][:80]
        known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                if line.startswith("known: property=%s " % self.prop):
                    known.append(line.strip().split(" ", 2)[2])
        fresh, seen = [], set()
        for s, d in self.found:
            k = d.get("finding")
            if k is not None and k in known:
                seen.add(k)
            else:
                fresh.append((s, d))
        for k in known:
            if k in seen:
                say("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                    "assumptions": assumptions, "wall_s": round(time.time() - self.began, 2), "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        if fresh:
            path = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump([dict(d, summary=s) for s, d in fresh[:20]], f, indent=1, ensure_ascii=False)
            for s, _ in fresh[:5]:
                say("  " + s.replace("\n", " ")[:900])
            say("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.evaluations == 0 or self.distinct == 0:
            say("nothing was observed")
            return 2
        say("%s held: %d evaluations, %d distinct and non-trivial, %.0f s" % (self.prop, self.evaluations, self.distinct,
                                                                         time.time() - self.began))
        return 0


RULE = ("Programs are generated from the seed (parsers and derived declarations, each with the grammar it stands for); inputs are "
        "sentences of that grammar, their truncations and mutations, near misses, repetitions, and random elements. Every case is run "
        "in the real code under the monitors. A case is counted as distinct and non-trivial by its (parser, input) pair if the "
        "specification has to look at two or more input elements to decide it.")
ASSUME = ["the specification in harness/src/model.rs states what the documentation of nommy promises",
          "only sources that are exhausted once and for all are used (fused iterators)"]


def rounds(c):
    """The seeds of the generated programs. Quick: one."""
    if c.tier == "quick":
        yield c.seed
        return
    k = 0
    while k == 0 or (c.left() > 90 and not c.found):
        yield c.seed + 1000 * k
        k += 1


def scale(c, n):
    return n if c.tier == "quick" else n * 4


def ordinary(c):
    plan, cases, judged = PLAN[c.prop]
    build_base()
    for seed in rounds(c):
        ps = c.packs(plan, seed, judged)
        for p in ps:
            c.run(binary(p.crate), cases=scale(c, cases), seed=seed)
            if c.found:
                break
        if c.prop == "C02":
            c.run(binary("buf"), prop="C02h", cases=scale(c, 20000), seed=seed)
    return c.finish(RULE, ASSUME)


def histories(c):
    build_base()
    for seed in rounds(c):
        c.run(binary("buf"), cases=scale(c, 60000), seed=seed)
    return c.finish(
        "Random histories of operations (next, peek-ahead, fast-forward, cursor made, reset, dropped, nested up to a depth) over sources "
        "of every size and shape; each operation's result is compared with an index into the source. Distinct and non-trivial: distinct "
        "histories with two or more operations.", ASSUME)


def both_builds(c):
    plan, cases, judged = PLAN[c.prop]
    build_base()
    build_base(["--release"])
    for seed in rounds(c):
        ps = c.packs(plan, seed, judged)
        build_packs(ps, ["--release"])
        for p in ps:
            d = []
            for release in (False, True):
                f = os.path.join(RUN, "%s.%s.digests" % (p.crate, "release" if release else "debug"))
                r = c.run(binary(p.crate, release), cases=scale(c, cases), seed=seed, how=p.crate + (" release" if release else " debug"),
                          args=["--digests", f])
                d.append(dict(l.rstrip("\n").rsplit(" ", 1) for l in open(f)) if r.report and os.path.exists(f) else {})
                if release and r.report and r.report["debug"] or not release and r.report and not r.report["debug"]:
                    raise Inconclusive("not the builds they should be")
            if c.found:
                break
            same = 0
            for k in d[0]:
                if k in d[1]:
                    if d[0][k] == d[1][k]:
                        same += 1
                    else:
                        name, case = k.rsplit(" ", 1)
                        outs = []
                        for release in (False, True):
                            q = Run(binary(p.crate, release), c.prop, seed, cases, 60, threads=1, args=["--only", "%s:%s" % (name, case)])
                            outs.append(q.log)
                        c.violation("%s case %s: debug and release builds differ\n debug: %s release: %s" % (name, case, *outs),
                                    {"pack": p.spec, "entry": c.entry_text(p.crate, name + ":"), "debug": outs[0], "release": outs[1]})
                        break
            c.notes["cases with equal digests in both builds"] = c.notes.get("cases with equal digests in both builds", 0) + same
            if c.found:
                break
    return c.finish(RULE + " The digests of outcome, value, error and consumption are compared between the two builds.", ASSUME)


def function(c):
    plan, cases, judged = PLAN[c.prop]
    build_base()
    ways = [("8 threads", 8, []), ("1 thread", 1, []), ("8 threads, another order", 8, ["--shuffle", "1"]),
            ("1 thread, another order", 1, ["--shuffle", "2"])]
    for seed in rounds(c):
        ps = c.packs(plan, seed, judged)
        digests = {}

        def one(p, way):
            name, threads, args = way
            f = os.path.join(RUN, "%s.%s.digests" % (p.crate, name.replace(" ", "_").replace(",", "")))
            r = c.run(binary(p.crate), cases=scale(c, cases), seed=seed, how="%s, %s" % (p.crate, name), threads=threads,
                      args=["--digests", f] + args, tag=name.replace(" ", "_").replace(",", ""))
            digests[p.crate, name] = dict(l.rstrip("\n").rsplit(" ", 1) for l in open(f)) if r.report and os.path.exists(f) else {}

        for way in ways:
            with concurrent.futures.ThreadPoolExecutor(8 if way[1] == 1 else 1) as pool:
                for f in [pool.submit(one, p, way) for p in ps]:
                    f.result()
        for p in ps:
            ds = [digests[p.crate, way[0]] for way in ways]
            if c.found:
                break
            for (name, _, _), d in zip(ways[1:], ds[1:]):
                for k in ds[0]:
                    if k in d and d[k] != ds[0][k]:
                        c.violation("%s: with %s not as with %s" % (k, name, ways[0][0]), {"pack": p.spec, "case": k})
                        break
                n = "cases with equal digests: %s, %s" % (ways[0][0], name)
                c.notes[n] = c.notes.get(n, 0) + sum(1 for k in ds[0] if d.get(k) == ds[0][k])
            if c.found:
                break
        if not c.found:
            races(c, ps, cases, seed)
    return c.finish(RULE + " Each parse is repeated in other orders and among others on eight threads, and the whole run again with other "
                    "schedules; digests of outcome, value, error and consumption are compared. Some of the programs also run under the "
                    "thread sanitizer, whose reports count if one of the racing accesses is made by code under test.", ASSUME)


def races(c, ps, cases, seed):
    """The same programs under the thread sanitizer"""
    target = os.path.join(TARGET, "tsan")
    few = [p for p in ps if c.tier != "quick" or p.crate in ("pack_mix_0", "pack_rec_0")]
    build_base(["--target", TRIPLE], target, TSAN)
    build_packs(few, ["--target", TRIPLE], target, TSAN)
    for p in few:
        tag = "_tsan"
        r = c.run(binary(p.crate, target=target, triple=True), cases=max(5, cases // 10) if c.tier == "quick" else cases, seed=seed + 5,
                  how=p.crate + " (thread sanitizer)", tag=tag,
                  extra_env={"TSAN_OPTIONS": "report_bugs=1:exitcode=0:halt_on_error=0:history_size=4"})
        got = re.split(r"(?m)^={18}$", open(os.path.join(r.dir, "log"), errors="replace").read())
        n = 0
        for report in got:
            if "WARNING: ThreadSanitizer: data race" not in report:
                continue
            n += 1
            # who makes each access: the innermost function that is not the standard library's
            makers = []
            for stack in re.split(r"\n\s*\n", report)[:2]:
                fs = re.findall(r"#\d+ (\S+)", stack)
                fs = [f for f in fs if not re.match(r"(_\$LT\$|)(core|alloc|std)\.?[.:]|__tsan|mem(cpy|move|set)|malloc|free|__rust|__rdl", f)]
                makers.append(fs[0] if fs else "")
            if any("nommy" in m or "eyre" in m or "Parse" in m for m in makers):
                c.violation("%s: data race: %s" % (p.crate, " / ".join(makers)), {"report": report[:6000], "pack": p.spec})
                break
        c.notes["reports of the thread sanitizer"] = c.notes.get("reports of the thread sanitizer", 0) + n
        if c.found:
            return


ASAN = "-Zsanitizer=address"
TSAN = "-Zsanitizer=thread"


def memory(c):
    plan, cases, judged = PLAN[c.prop]
    build_base()
    asan = os.path.join(TARGET, "asan")
    build_base(["--target", TRIPLE], asan, ASAN)
    for seed in rounds(c):
        ps = c.packs(plan, seed, judged)
        build_packs(ps, ["--target", TRIPLE], asan, ASAN)
        for i, p in enumerate(ps):
            c.run(binary(p.crate), cases=scale(c, cases), seed=seed, how=p.crate + " (ledger, allocator balance, injected panics)")
            if c.found:
                break
            r = c.run(binary(p.crate, target=asan, triple=True), cases=scale(c, max(10, cases // 2)), seed=seed + 7,
                      how=p.crate + " (address sanitizer)",
                      extra_env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0"})
            if c.found:
                break
            if i == 0 or c.tier != "quick":
                r = c.run(binary(p.crate), cases=2 if c.tier == "quick" else 12, seed=seed + 9, how=p.crate + " (valgrind memcheck)", threads=1, args=["--small", "1"],
                          prefix=["valgrind", "-q", "--error-exitcode=77", "--main-stacksize=8388608", "--max-stackframe=4000000", "--exit-on-first-error=yes"], stall=300)
            if c.found:
                break
    return c.finish(RULE + " Elements and values are counted in a ledger and painted, allocations are balanced, and panics are injected at "
                    "each point where user code runs; the same programs also run under the address sanitizer and valgrind's memcheck.", ASSUME)


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    prepare()
    if prop == "setup":
        # compiles what does not depend on the seed, and everything for this one
        build_base()
        build_base(["--release"])
        build_base(["--target", TRIPLE], os.path.join(TARGET, "asan"), ASAN)
        build_base(["--target", TRIPLE], os.path.join(TARGET, "tsan"), TSAN)
        return 0
    c = Check(prop, seed, tier)
    try:
        if prop == "C01":
            return histories(c)
        if prop == "C09":
            return memory(c)
        if prop == "C16":
            return both_builds(c)
        if prop == "C18":
            return malformed.check(c, sys.modules[__name__])
        if prop == "C23":
            return function(c)
        return ordinary(c)
    except Inconclusive as e:
        if c.found:
            return c.finish(RULE, ASSUME)
        say("inconclusive: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
