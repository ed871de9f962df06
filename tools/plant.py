#!/usr/bin/env python3
"""Development only: makes /verif/seeded/<id> from a description, verifies it, and tries the checks on it.
A description is a Python file that calls bug(id, property, [(file, old, new)...], demo, needs, breaks)."""
import json, os, re, subprocess, sys, textwrap

SEEDED = "/verif/seeded"
DEMO = """#!/bin/bash
# Exit 0: the property holds here. Builds main.rs against /repo's nommy in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\nnommy = { path = "/repo/nommy" }\\n[workspace]\\n' > "$d/Cargo.toml"
cd "$d" || exit 1
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
ulimit -v 16000000
timeout 200 cargo run -q --offline %s 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
"""
FAILDEMO = """#!/bin/bash
# Exit 0: the property holds here. main.rs must be rejected by the derive with an ordinary error for each bad declaration.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\nnommy = { path = "/repo/nommy" }\\n[workspace]\\n' > "$d/Cargo.toml"
cd "$d" || exit 1
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
timeout 200 cargo check -q --offline > out 2>&1 && { echo "accepted"; exit 1; }
tail -20 out
grep -q "%s" out && ! grep -q panicked out
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    sh("git -C /repo checkout -- .")
    assert not sh("git -C /repo status --porcelain").stdout.strip()


def bug(id, prop, edits, demo, needs, breaks, release=False, says=None):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    clean()
    d = os.path.join(SEEDED, id)
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "BAD EDIT: %d matches in %s of %r" % (s.count(old), f, old[:80]))
                return
            open(p, "w").write(s.replace(old, new))
        patch = sh("git -C /repo diff").stdout
        base = {f: sh("git -C /repo show a1afcf5:" + f).stdout.decode().split("\n") for f, _, _ in edits}
        gone = [l[1:] for l in patch.decode().split("\n") if l.startswith("-") and not l.startswith("---") and len(l.strip()) > 4]
        own = [l for l in gone if not any(l in b for b in base.values())]
        if not gone or own:
            print(id, "note: lines changed that are not the original's:" if gone else "note: changes no line", own)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(id, "DOES NOT BUILD", r.stdout.decode()[-1500:])
            return
        sh("bash /opt/vp/test.sh /tmp/plant.json", cwd="/repo")
        t = json.load(open("/tmp/plant.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        failed = [x for x in t.get("failed", [])]
        if failed:
            print(id, "TESTS FAIL", failed[:5])
            return
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        open(os.path.join(d, "main.rs"), "w").write(textwrap.dedent(demo).strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(FAILDEMO % says if says else DEMO % ("--release" if release else ""))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
    finally:
        clean()
    b = sh("bash %s/demo.sh" % d, cwd="/repo")
    if a.returncode == 0 or b.returncode != 0:
        print(id, "DEMO: with %d, without %d\n--- with\n%s\n--- without\n%s" % (a.returncode, b.returncode, a.stdout.decode()[-800:], b.stdout.decode()[-800:]))
        sh("rm -rf %s" % d)
        return
    print(id, "planted; demo says:", a.stdout.decode().strip().split("\n")[-2:], flush=True)


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
