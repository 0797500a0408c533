"""Builds and confirms planted bugs.
  seed.py make DEFS.py      write /verif/seeded/<id>/ for each definition
  seed.py confirm [id ...]  in a scratch copy: applies, builds, tests pass, demo 0 / nonzero
  seed.py checks [id ...]   runs its property's check (as committed) on each, in scratch copies
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Run with cwd /repo.  0: the property's example holds; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
rustc --edition 2015 --cap-lints allow --crate-name text_encoding --crate-type rlib -C opt-level=1 -C overflow-checks=on -o "$t/libtext_encoding.rlib" src/lib.rs || exit 2
rustc --edition 2021 --cap-lints allow --extern text_encoding="$t/libtext_encoding.rlib" "$here/demo.rs" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def copy():
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("cp -a /repo %s/repo && git -C %s/repo checkout -q -- ." % (t, t), "/")
    return t, t + "/repo"
def make(defs):
    t, r = copy()
    for b in runpy.run_path(defs)["BUGS"]:
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            n = b.get("count", 1)
            assert s.count(old) == n or (n == 0 and old in s), (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new, 1) if n == 0 else s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        sh("git checkout -- .", r)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
def confirm(ids):
    t, r = copy()
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(SEED, i) if os.path.isdir(os.path.join(SEED, i)) else os.path.join("/verif/planted_tables", i)
        c0 = sh("bash %s/demo.sh" % d, r, timeout=300)
        a = sh("git apply %s/patch.diff" % d, r)
        b = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|test result: F|panicked' | head -5", r)
        c1 = sh("bash %s/demo.sh" % d, r, timeout=300)
        sh("git checkout -- .", r)
        ok = c0.returncode == 0 and a.returncode == 0 and not b.stdout.strip() and c1.returncode not in (0, 2)
        print("%-40s %s demo %d -> %d tests[%s]%s" % (i, "OK " if ok else "BAD", c0.returncode, c1.returncode, b.stdout.strip()[:300], "" if ok else a.stderr + c0.stderr[-600:] + c1.stderr[-600:]), flush=True)
    shutil.rmtree(t)
def checks(ids):
    t, r = copy()
    h = t + "/verif"
    sh("git clone -q /verif %s && sed -i 's#path = \"/repo\"#path = \"%s\"#' %s/engine/Cargo.toml" % (h, r, h), "/")
    for i in ids:
        d = os.path.join(SEED, i) if os.path.isdir(os.path.join(SEED, i)) else os.path.join("/verif/planted_tables", i)
        m = json.load(open(d + "/meta.json"))
        a = sh("git apply %s/patch.diff" % d, r)
        assert a.returncode == 0, a.stderr
        try:
            c = sh("VERIF_REPO=%s python3 check.py run %s" % (r, m["property"]), h, timeout=900)
        finally:
            sh("git checkout -- .", r)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        ob = [l[21:] for l in c.stdout.splitlines() if l.startswith("# failed obligation")]
        ev = json.load(open(h + "/evidence/%s.json" % m["property"]))
        lost = [x for x in ev["coverage"].get("bounded_stand_ins", {})]
        print("%-40s %s rc=%d %s\n      obligations: %s%s" % (i, "caught" if c.returncode == 1 and v else "MISSED", c.returncode, " ".join(v)[:140], ", ".join(ob)[:400], "  BOUNDED: %s" % lost if lost else ""), flush=True)
    shutil.rmtree(t)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    {"make": lambda: [make(x) for x in sys.argv[2:]], "confirm": lambda: confirm(ids), "checks": lambda: checks(ids)}[sys.argv[1]]()
