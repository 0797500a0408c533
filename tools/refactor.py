"""Tries the verifier on behaviour-preserving edits.
  refactor.py [id ...]      each edit of tools/refactors.py, in a scratch copy of /repo:
                            compiles, tests pass; which functions stay proved, become
                            bounded, or (a false alarm) fail an obligation
"""
import concurrent.futures as cf
import os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "vlib"))
import plan, driver


def one(b, test=True):
    t = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        r = t + "/repo"
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if not s.count(old):
                return b["id"], "BAD EDIT %s: %r" % (f, old[:60])
            open(p, "w").write(s.replace(old, new))
        if test:
            c = subprocess.run("cargo test --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked' -A6 | head -20", shell=True, cwd=r, capture_output=True, text=True)
            if c.stdout.strip():
                return b["id"], "TESTS: " + c.stdout.strip()[:1500]
        w = t + "/w"
        os.makedirs(w)
        try:
            code = plan.Code(r, w)
        except plan.Lost as e:
            return b["id"], "LOST ALL: " + str(e)[:300]
        lost, failed = {}, {}
        files = {e[0] for e in b["edits"]}
        groups = [g for g in plan.MULTI if "src/%s.rs" % g in files or "src/lib.rs" in files]
        if any("single_byte" in f for f in files) or "src/lib.rs" in files:
            groups.append("single_byte")
        us = [plan.Unit(code, g, d) for g in groups for d in "ED"]
        det = []
        for u in us:
            res = driver.run_unit(u, w, False)
            for k, v in u.lost.items():
                lost[k] = v
            for ob, d in res["failed"].items():
                failed[ob] = (sorted(d["props"]), d["detail"][0]["message"], [a["at"] if "at" in a else "" for a in d["detail"]][:1])
        bad = [g["ob"] for g in code.ground if not g["ok"]]
        out = []
        for k, v in lost.items():
            out.append("   bounded %s: %s" % (k, v[:260]))
        for k, v in failed.items():
            out.append("   FAILED %s %s %s%s" % (k, v[0], v[1], "" if k.split("/")[0] not in lost else "  (function is bounded)"))
            if "-v" in sys.argv:
                out.append("        %s" % v[2])
        for x in bad:
            out.append("   GROUND " + x)
        return b["id"], "\n".join(out) or "all proved"
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    B = runpy.run_path(HERE + "/refactors.py")["EDITS"]
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    B = [b for b in B if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, s in ex.map(one, B):
            print(i + (": " if "\n" not in s and not s.startswith("   ") else "\n") + s, flush=True)
