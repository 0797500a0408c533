"""One check: extract, verify, explore, decide."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
import std, units, ground, verus, plan, lemmas, corelib, xlat
from units import Lost

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(HERE, "engine", "target", "release", "engine")
EXTRACT = os.path.join(HERE, "extract", "target", "release", "extract")
PROPS = ["C%02d" % i for i in range(1, 18)]


def log(*a):
    print("#", *a, flush=True)


def cargo(d):
    p = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, d),
                       capture_output=True, text=True)
    return p.returncode, p.stderr


def build_extract():
    rc, err = cargo("extract")
    if rc:
        raise SystemExit("cannot build the extractor:\n" + err)


def build_engine():
    rc, err = cargo("engine")
    return None if rc == 0 else err


# --------------------------------------------------------------------------
# the engine

class Engine:
    """Runs the real functions on many inputs.  Stands in where a proof is
    missing, and turns a failed obligation into a failing input."""

    def __init__(self, work, dictionary, tier, seed):
        self.work, self.dict, self.tier, self.seed = work, dictionary, tier, seed
        self.found = {}     # property -> (message, case)
        self.runs = []
        self.n = 0

    def start(self, props, seconds):
        self.n += 1
        out = os.path.join(self.work, "engine%d.jsonl" % self.n)
        p = subprocess.Popen([ENGINE, "run", os.path.join(HERE, "spec"), out, ",".join(props), self.tier, str(seconds),
                              self.dict], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                             env=dict(os.environ, VERIF_SEED=str(self.seed)))
        return (p, out, props, seconds)

    def finish(self, h):
        p, out, props, seconds = h
        try:
            _, err = p.communicate(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            err += "\n(stopped: it ran over its time)"
        summ = None
        for line in open(out, errors="replace") if os.path.exists(out) else []:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("summary"):
                summ = d
            elif "fatal" in d:
                c = d["case"]
                c["encoding"] = engine_names()[c.pop("encoding_index")]
                m = d["fatal"]
                for q in fatal_props(c):
                    self.found.setdefault(q, (m, c))
            else:
                self.found.setdefault(d["property"], (d["message"], d["case"]))
        self.runs.append({"properties": props, "summary": summ, "exit": p.returncode, "stderr": err[-500:] if p.returncode not in (0, 3) else ""})
        return summ


def engine_names():
    src = open(os.path.join(HERE, "engine", "src", "api.rs")).read()
    names = re.findall(r'ed!\(@[fgs] "(\w+)"', src)
    sb = re.search(r"sb!\(([^)]*)\)\);", src).group(1)
    return names + ["single_byte__" + x.strip() for x in sb.split(",")]


def fatal_props(c):
    """A call that does not return (or dies) breaks C01, and every property
    that promises what the call returns."""
    e = c["encoding"]
    g = {"big5_whatwg": "C13", "shiftjis_whatwg": "C14"}.get(e, "C11" if e.startswith("utf") else "C12")
    return ["C01", g]


NUM = re.compile(r"\b0x([0-9a-fA-F_]+)|\b(\d[\d_]*)")
CHR = re.compile(r"'(\\u ?\{ ?([0-9a-fA-F]+) ?\}|[^'\\])'")


def numbers(t):
    v = set()
    for m in NUM.finditer(t):
        try:
            v.add(int(m.group(1).replace("_", ""), 16) if m.group(1) else int(m.group(2).replace("_", "")))
        except ValueError:
            pass
    for m in CHR.finditer(t):
        v.add(int(m.group(2), 16) if m.group(2) else ord(m.group(1)))
    return v


def dictionary(x):
    """Numbers and characters that the code of each encoding mentions."""
    by, root = {}, set()
    for f in x["fns"].values():
        v = set().union(*[numbers(t) for t, _ in f["body"] if "__loop_marker" not in t] or [set()])
        by.setdefault(f["module"].replace("::", "__"), set()).update(v)
    for n, c in x["consts"].items():
        if not c["table"]:
            by.setdefault(n.rsplit("__", 1)[0] if "__" in n else "", set()).update(numbers(c.get("init") or ""))
    root = by.pop("", set()) | set()
    sb = by.get("single_byte", set())
    out = []
    for m in plan.MODULES:
        m = plan.sname(m)
        v = by.get(m, set()) | root | (sb if m.startswith("single_byte") else set())
        # Modules this code does not know (helpers moved elsewhere) count for all.
        for k in by:
            if k not in [plan.sname(q) for q in plan.MODULES] + ["single_byte"]:
                v |= by[k]
        v = sorted(y for y in v if y <= 0xFFFFFFFF)[:250]
        out.append("%s:%s" % (m, ",".join(map(str, v))))
    return ";".join(out)


# --------------------------------------------------------------------------
# the assumed contracts of the core library

def assumed_contracts():
    """Names of what contracts/ assumes (external bodies), as the test reports them."""
    r = []
    for f in ("shims.rs", "lemmas.rs"):
        cur, ext = None, False
        for l in open(os.path.join(HERE, "contracts", f)):
            if l.lstrip().startswith("//"):
                continue
            m = re.match(r"(?:pub )?(?:trait|impl(?:<.*?>)?) (?:(\w+)\S* for |(\w+))", l)
            if m:
                cur = m.group(1) or m.group(2)
            if l.startswith("}"):
                cur = None
            ext = ext or "external_body" in l
            m = re.search(r"\b(fn|struct) (\w+)", l)
            if m:
                if ext and m.group(1) == "fn":
                    r.append((cur + "::" if cur and l.startswith(" ") else "") + m.group(2))
                ext = False
    return r


def start_shims(tier):
    exe = os.path.join(HERE, "engine", "target", "release", "shims")
    return subprocess.Popen([exe, os.path.join(HERE, "spec"), tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def finish_shims(p):
    try:
        out, err = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    t, wrong = {}, []
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if "wrong" in d:
            wrong.append(d["wrong"])
        else:
            t[d["contract"]] = "%s (%d cases)" % (d["evaluated"], d["cases"])
    if p.returncode not in (0, 1):
        wrong.append("the test of the assumed contracts did not finish: exit %s %s" % (p.returncode, err[-200:]))
    return t, wrong, [n for n in assumed_contracts() if n not in t]


# --------------------------------------------------------------------------
# Verus

def hard_error(r):
    j = r["json"] or {}
    v = j.get("verification-results") or {}
    if v.get("success"):
        return False
    return bool(v.get("encountered-vir-error")) or not v or (v.get("verified", 0) == 0 and v.get("errors", 0) == 0)


def span_infos(o, d):
    for s in d["spans"]:
        i = s["line_start"] - 1
        inf = o.info[i] if s["file_name"].endswith(".rs") and i < len(o.info) else None
        txt = s["text"][0]["text"].strip() if s.get("text") else ""
        yield s, inf, txt


def classify(o, d):
    """(function, obligation or None, properties, detail) of one diagnostic."""
    msg = d["message"]
    infos = list(span_infos(o, d))
    fn = next((i["fn"] for _, i, _ in infos if i and i.get("fn")), None)
    detail = {"message": msg, "at": [{"line": i and i.get("src"), "text": t[:300], "label": s["label"]} for s, i, t in infos]}
    if "rlimit" in msg or "Resource limit" in msg:
        return fn, None, (), detail
    for s, i, t in infos:
        if i and i.get("ob"):
            return fn, i["ob"], i["props"], detail
    if not fn:
        return None, None, (), detail
    if "precondition" in msg and any(i and i.get("fn") and ("v_panic" in t or "unreached" in t) for _, i, t in infos):
        # an assertion the code itself states: not established, not refuted
        detail["message"] = "an assertion in the code is not established"
        return fn, None, (), detail
    inside = [(i, t) for _, i, t in infos if i and i.get("fn")]
    if all(i["src"] == 0 for i, _ in inside):
        t = inside[0][1]
        if "assert" in t or "proof" in t or msg.startswith("assertion"):
            return fn, None, (), detail
        # an unlabelled invariant: lengths and bounds
        return fn, fn + "/bounds-invariant", ("C01",), detail
    pre = " ".join(t for s, i, t in infos if not i)
    if "precondition" in msg and ("sorted" in pre or "srt" in pre or "sorted" in " ".join(t for _, _, t in infos) or "tab128" in pre):
        return fn, fn + "/table-precondition", units.ALL_E + units.ALL_D, detail
    if "precondition" in msg and any("v_from_utf8_unchecked" in t for _, t in inside):
        return fn, fn + "/from_utf8_unchecked-precondition", ("C01", "C02"), detail
    if "precondition" in msg and any("v_from_u32_unchecked" in t for _, t in inside):
        # what is decoded to there is no character
        return fn, fn + "/from_u32_unchecked-precondition", ("C01", "C02", "C11"), detail
    return fn, fn + "/implicit", ("C01",), detail


def verify(u, work, res, tag, rlimit=40):
    """One run of the verifier on a unit, functions it cannot take set aside."""
    for rnd in range(12):
        o = u.compose(PROBE)
        path = os.path.join(work, "%s_%s_%d.rs" % (u.name, tag, rnd))
        open(path, "w").write(o.text())
        r = verus.run(path, rlimit=rlimit, timeout=300, extra=[x for m in u.verify_modules for x in ("--verify-only-module", m)])
        j = r["json"] or {}
        res["runs"].append({"cmd": r["cmd"], "wall": round(r["wall"], 1), "rc": r["rc"], "results": j.get("verification-results"), "timeout": r["timeout"]})
        try:
            res["smt_ms"] += j["times-ms"]["smt"]["total"]
        except (KeyError, TypeError):
            pass
        if r["timeout"]:
            return {"all": "the verifier did not finish"}
        if hard_error(r):
            bad = {}
            for d in r["diags"]:
                if d["level"] != "error":
                    continue
                for s, i, t in span_infos(o, d):
                    if i and i.get("fn"):
                        bad.setdefault(i["fn"], d["message"][:300])
            bad = {k: v for k, v in bad.items() if k not in u.drop}
            if not bad:
                m = next((d["message"] for d in r["diags"] if d["level"] == "error"), r["stderr"][-300:])
                return {"all": "the verifier cannot take the unit: " + m[:300]}
            for k, v in bad.items():
                u.drop.add(k)
                u.lost[k] = "the verifier cannot take it: " + v
            continue
        failed, undecided, probe_failed = {}, {}, False
        for d in r["diags"]:
            if d["level"] != "error" or d["message"].startswith("aborting"):
                continue
            if any("vacuity_probe" in (t or "") for _, _, t in span_infos(o, d)):
                probe_failed = True
                continue
            fn, ob, props, detail = classify(o, d)
            if ob:
                failed.setdefault(ob, {"function": fn, "props": set(props), "detail": []})["detail"].append(detail)
                failed[ob]["props"] |= set(props)
            else:
                undecided.setdefault(fn, detail)
        return {"all": None if probe_failed else "vacuous: the verifier proved the probe that must fail",
                "failed": failed, "undecided": undecided, "o": o, "n": (j.get("verification-results") or {}).get("verified", 0)}
    return {"all": "the verifier cannot take the unit"}


def open_functions(u, v):
    """Functions of the unit a run left without a proof (own obligations)."""
    r = {d["function"] for d in v["failed"].values()} | set(v["undecided"])
    return [f["flat"] for f in u.fs if f["flat"] in r or (None in r and f["flat"] not in u.lost)]


def safely(what, f, empty):
    """A fault of this machinery leaves its obligations undischarged; it must
    neither raise an alarm nor count as a proof."""
    try:
        return f()
    except Exception as e:
        import traceback
        traceback.print_exc()
        return empty("%s: internal error: %r" % (what, e))


def lost_unit(u, why):
    for f in u.fs:
        u.lost.setdefault(f["flat"], why)
    return {"unit": u.name, "failed": {}, "undecided": {}, "runs": [], "obligations": [], "functions": 0, "smt_ms": 0, "variants": {}}


def lost_lemmas(why):
    return {"obligations": ["lemma/all"], "discharged": [], "failed": {"lemma/all": why}, "names": [], "run": None, "smt_ms": 0, "ground": 0}


def run_unit(u, work, thorough):
    """Verifies one unit.  Where a function fails, other ways of stating its
    loop contract are tried before the failure is believed: they change which
    facts the verifier is shown, never what has to be proved."""
    res = {"unit": u.name, "failed": {}, "undecided": {}, "runs": [], "obligations": [], "functions": 0, "smt_ms": 0, "variants": {}}
    t0 = time.time()
    v = verify(u, work, res, "a")
    if v["all"]:
        for f in u.fs:
            u.lost.setdefault(f["flat"], v["all"])
        return res
    base = v
    todo = {}
    by = {f["flat"]: f for f in u.fs}
    for k in by:
        if k in u.lost and k not in u.drop:
            vs = u.variants(by[k], v["failed"], lost=True)
        elif k in open_functions(u, v):
            vs = u.variants(by[k], v["failed"])
        else:
            continue
        if vs:
            todo[k] = vs
    n = 0
    limit = 400 if thorough else 200
    while todo and time.time() - t0 < limit:
        n += 1
        for k in list(todo):
            if not todo[k]:
                u.opts.pop(k, None)
                del todo[k]
                continue
            if not u.opts.get(k):
                u.opts[k] = dict(todo[k][0])
        if not todo:
            break
        saved = dict(u.lost), set(u.drop)
        for k in todo:
            u.lost.pop(k, None)
        v = verify(u, work, res, "v%d" % n)
        if v["all"]:
            u.lost, u.drop = saved
            for k in list(todo):
                u.opts.pop(k, None)
                todo[k].pop(0)
            continue
        op = open_functions(u, v)
        for k in list(todo):
            aux = u.opts[k].get("aux")
            dead = {ob for ob, d in v["failed"].items() if d["function"] == k and "/aux-" in ob}
            if k in u.lost:         # not even composed
                pass
            elif k not in op:
                res["variants"][k] = u.opts[k]
                del todo[k]
                continue
            elif dead and aux:
                # Houdini: drop what does not hold, and try again
                nums = {int(ob.rsplit("-", 1)[1]) for ob in dead}
                new = []
                for i, (l, t, md) in enumerate(aux):
                    if i not in nums:
                        new.append((l, t, md))
                    elif md == "inv":
                        new.append((l, t, "exc"))
                u.opts[k]["aux"] = new
                continue
            todo[k].pop(0)
            u.opts.pop(k, None)
        u.drop = saved[1]
        for k in todo:
            u.lost.pop(k, None)
            if k in saved[0]:
                u.lost[k] = saved[0][k]
    for k in list(todo):
        u.opts.pop(k, None)
        if todo[k] and time.time() - t0 >= limit:
            u.lost.setdefault(k, "undecided: not every statement of its loop contract could be tried in %d s" % limit)
    if res["variants"]:
        v = verify(u, work, res, "z")
        base = v if not v["all"] else base
    o = base["o"]
    res.update(failed=base["failed"], undecided=base["undecided"], obligations=o.obligations, functions=base["n"], o=o)
    for k, d in res["undecided"].items():
        if k:
            u.lost.setdefault(k, "undecided: " + d["message"])
        else:
            for f in u.fs:
                u.lost.setdefault(f["flat"], "undecided: " + d["message"])
    for ob, d in res["failed"].items():
        k = d["function"]
        if k in by and k not in u.lost:
            x = by[k].get("foreign")
            if x:
                u.lost[k] = "undecided: %s failed; it calls what the contracts do not know exactly (%s)" % (ob, ", ".join(x))
                continue
            x = u.unknown_state(by[k])
            if x:
                u.lost[k] = "undecided: %s failed; the loop carries state the contract does not know (%s)" % (ob, x)
    # A caller is proved against its callees' contracts only.
    ch = True
    while ch:
        ch = False
        for f in u.fs:
            if f["flat"] not in u.lost:
                for c in f["calls"]:
                    if c in u.lost and any(g["flat"] == c for g in u.fs):
                        u.lost[f["flat"]] = "calls %s, which is not proved" % c
                        ch = True
    return res


PROBE = """
// Must fail: the assumptions in scope are not contradictory.
proof fn vacuity_probe(bb: Seq<u8>, cc: char, ss: Seq<char>, ee: EEnc, dd: DEnc) {
    let a = off(ss, 1); let b = estep(ee, ss, 0, true); let c = dstep(dd, bb, 0); let d = u8s(t1(cc));
    assert(false); // vacuity_probe
}
"""


# --------------------------------------------------------------------------

def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(C\d\d) (.*)", line)
        if m and m.group(1) == prop:
            r.append(m.group(2).strip())
    return r


def main(argv):
    if argv and argv[0] == "setup":
        build_extract()
        e = build_engine()
        if e:
            print(e)
            return 1
        return 0
    if len(argv) >= 2 and argv[0] == "replay":
        e = build_engine()
        if e:
            print(e)
            return 2
        d = json.load(open(argv[1]))
        if not d.get("case"):
            print(json.dumps(d, indent=1))
            print("no input: the failed obligation above is the report")
            return 1
        f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
        json.dump(d["case"], f)
        f.close()
        r = subprocess.run([ENGINE, "replay", os.path.join(HERE, "spec"), f.name])
        os.unlink(f.name)
        return r.returncode
    if len(argv) >= 2 and argv[0] == "run":
        tier = os.environ.get("VERIF_TIER") or "quick"
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return run(argv[1], "thorough" if tier == "thorough" else "quick")
    print(__doc__ if __doc__ else "usage")
    return 2


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    try:
        return run_in(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(prop, tier, seed, work, t0):
    thorough = tier == "thorough"
    build_extract()
    err = build_engine()
    if err:
        print("the engine does not build against /repo:\n" + err[-3000:])
        return 2
    code, why = None, None
    try:
        code = plan.Code(REPO, work)
    except Lost as e:
        why = str(e)
    except Exception as e:
        why = "internal error: %r" % e
    eng = Engine(work, dictionary(code.x) if code else "", tier, seed)
    sp = start_shims(tier)
    budget = 600 if thorough else 150
    h = eng.start([prop], budget)

    # -- deductive part
    groups, deps = plan.scope(prop)
    us, results, lem, core = [], [], None, {"contracts": {}, "groups": {}, "assumed": {"all": "not run"}}
    dic = dictionary(code.x) if code else ""

    def one_unit(u):
        r = safely(u.name, lambda: run_unit(u, work, thorough), lambda why: lost_unit(u, why))
        if "o" in r:
            r["xlat"] = safely(u.name + " comparison", lambda: xlat.run(u, r["o"], work, dic, tier), lambda why: ({}, {u.name: why}, {}))
        return r
    if code:
        us = [plan.Unit(code, g, d) for g, d in groups]
        with cf.ThreadPoolExecutor(max_workers=5) as ex:
            lf = ex.submit(lambda: safely("lemmas", lambda: lemmas.run(prop, code, work), lost_lemmas))
            cf_ = ex.submit(lambda: safely("corelib", lambda: corelib.run(HERE, work), lambda why: {"contracts": {}, "groups": {}, "assumed": {"all": why}}))
            results = list(ex.map(one_unit, us))
            lem = lf.result()
            core = cf_.result()
    eng.finish(h)
    tested, wrong, untested = finish_shims(sp)

    # -- what was established
    obligations, discharged, failed, lost, fns = [], [], {}, {}, []
    compared, uncompared = {}, {}
    for u, r in zip(us, results):
        ok, no, bad = r.get("xlat", ({}, {}, {}))
        compared.update(ok)
        uncompared.update(no)
        u.lost.update(bad)      # a proof about other text proves nothing
        bad_inv = {d["function"] for ob, d in r["failed"].items()}
        names = [f["flat"] for f in u.fs]
        for f in u.fs:
            n = f["flat"]
            mine = [(ob, ps) for ob, ps, k in r["obligations"] if ob.startswith(n + "/") and set(ps) & deps]
            if "C01" in deps:
                mine.append((n + "/implicit (bounds, overflow, preconditions of callees)", ("C01",)))
            if "C02" in deps and "v_from_utf8_unchecked" in f["shims"]:
                mine.append((n + "/from_utf8_unchecked-precondition", ("C02",)))
            if {"C01", "C02", "C11"} & deps and "v_from_u32_unchecked" in f["shims"]:
                mine.append((n + "/from_u32_unchecked-precondition", ("C01", "C02", "C11")))
            fns.append({"function": n, "file": os.path.relpath(f["file"], REPO), "line": f["line"], "obligations": len(mine),
                        "status": "bounded: " + u.lost[n] if n in u.lost else "failed" if n in bad_inv else "proved"})
            obligations += [x[0] for x in mine]
            if n not in u.lost and n not in bad_inv:
                discharged += [x[0] for x in mine]
            if n in u.lost:
                lost[n] = u.lost[n]
        for n in u.missing:
            lost[n] = u.lost[n]
        rests = {}
        for ob, d in r["failed"].items():
            if d["function"] in lost:
                continue
            if d["props"] & deps:
                failed[ob] = dict(d, unit=u.name)
            else:
                rests.setdefault(d["function"], "rests on %s, which failed" % ob)
        mine = {d["function"] for d in failed.values()}
        for n, why_n in rests.items():
            if n not in mine:
                lost.setdefault(n, why_n)
    if not code:
        lost["everything"] = why
    # ground obligations
    nground = 0
    if code:
        ginscope = {g for g in groups}
        for g in code.ground:
            grp = "single_byte" if g["module"].startswith("single_byte") else g["module"]
            if (grp, g["dir"]) in ginscope and prop in g["props"]:
                obligations.append(g["ob"])
                nground += g["facts"]
                if g["ok"]:
                    discharged.append(g["ob"])
                else:
                    failed[g["ob"]] = {"function": g["module"], "props": set(g["props"]), "unit": "ground", "detail": [{"message": "the table differs from the frozen published mapping" if "equals" in g["ob"] else "the table is not sorted"}]}
    for ob, d, n in (("fact/U+00CA and U+00EA have codes of their own in the Big5 index", "E", "bases"), ("fact/the four Big5 pair pointers are unassigned in the index", "D", "pairs")):
        if code and ("big5_whatwg", d) in groups:
            obligations.append(ob)
            nground += 1
            if dict(ground.std_facts())["big5_whatwg/" + n]:
                discharged.append(ob)
            else:
                lost["everything in Big5"] = "a fact about the frozen index does not hold"
    if lem:
        obligations += lem["obligations"]
        discharged += lem["discharged"]
        for ob, m in lem["failed"].items():
            lost["lemma " + ob] = m
        nground += lem.get("ground", 0)

    for n in core["contracts"]:
        obligations.append("core/" + n)
        discharged.append("core/" + n)

    if wrong:
        # The proofs rest on something false: they count for nothing.
        lost["everything"] = "an assumed contract of the core library does not hold: " + "; ".join(wrong[:3])
        discharged, failed = [], {}

    # -- decision
    known = known_findings(prop)
    violation = None
    if prop in eng.found:
        violation = ("input",) + eng.found[prop]
    elif failed:
        others = sorted({p for d in failed.values() for p in d["props"]} - {prop})
        direct = {ob: d for ob, d in failed.items()}
        if others:
            h2 = eng.start(others, 120)
            eng.finish(h2)
        rest = {}
        for ob, d in direct.items():
            hit = [q for q in sorted(d["props"]) if q in eng.found]
            if hit:
                lost[d["function"]] = "%s failed; a failing input exists for %s, none for %s" % (ob, ", ".join(hit), prop)
            else:
                rest[ob] = d
        if rest:
            violation = ("obligation", rest)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obligations), "discharged": len(discharged),
            "checker_cmd": " ".join(["verus", "UNIT.rs", "--rlimit", "40", "--verify-only-module", "m"]) + "  (units are rebuilt from /repo by check.py run %s)" % prop,
            "trusted_base": trusted_base(core),
            "back_ends": {"verus %s (z3)" % verus_version(): len([o for o in discharged if not o.startswith("table/") and not o.startswith("fact/")]),
                          "complete evaluation of finite tables": len([o for o in discharged if o.startswith("table/") or o.startswith("fact/")])},
            "ground_facts_evaluated": nground,
            "functions_under_contract": fns,
            "functions_proved": sum(1 for f in fns if f["status"] == "proved"),
            "bounded_stand_ins": lost,
            "failed_obligations": {k: {"function": d["function"], "properties": sorted(d["props"]), "verifier": d["detail"]} for k, d in failed.items()},
            "solver_ms": sum(r["smt_ms"] for r in results) + (lem or {}).get("smt_ms", 0),
            "units": [{"unit": r["unit"], "functions_verified_by_verus": r["functions"], "loop_contract_variants": r["variants"], "runs": r["runs"]} for r in results] + ([lem["run"]] if lem and lem.get("run") else []),
            "lemmas": lem["names"] if lem else [],
            "core_contracts_proved": dict(core, how="the bodies of these core functions, taken on this run from the rust-src of the toolchain with the rewrites of contracts/corelib.txt, verified against the contracts that contracts/shims.rs states; what is not listed under groups stays assumed"),
            "assumed_contracts_evaluated": tested, "assumed_contracts_not_evaluated": untested,
            "verified_text_compared_with_the_crate": {"how": "the text the verifier accepted is compiled and run on the same calls as the crate; results and buffers were equal (bounded: this number of calls)", "calls": compared, "not_compared": uncompared},
            "exploration": {"role": "guard and source of failing inputs; decides only what bounded_stand_ins lists", "runs": eng.runs},
        },
        "assumptions": ASSUMPTIONS + (code.x["problems"] if code else []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    rc = 0
    if violation:
        rc = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", prop + ".json")
        if violation[0] == "input":
            json.dump({"property": prop, "message": violation[1], "case": violation[2], "failed_obligations": evid["coverage"]["failed_obligations"],
                       "how": "python3 /verif/check.py replay " + rp}, open(rp, "w"), indent=1)
            log(prop, "violated:", violation[1][:300])
            log("input:", json.dumps(violation[2])[:400])
            for ob in failed:
                log("failed obligation:", ob)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            json.dump({"property": prop, "case": None, "failed_obligations": {k: {"function": d["function"], "properties": sorted(d["props"]), "verifier": d["detail"]} for k, d in violation[1].items()},
                       "exploration": eng.runs}, open(rp, "w"), indent=1)
            for ob in violation[1]:
                log("failed obligation:", ob)
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    else:
        log(prop, "holds: %d obligations, %d discharged%s" % (len(obligations), len(discharged), "; bounded: %s" % json.dumps(lost) if lost else ""))
    evid["wall_s"] = round(time.time() - t0, 1)
    json.dump(evid, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    return rc


_vv = None


def verus_version():
    global _vv
    if _vv is None:
        p = subprocess.run([verus.VERUS, "--version"], capture_output=True, text=True).stdout
        m = re.search(r"Version: (\S+)", p)
        _vv = m.group(1) if m else "?"
    return _vv


def trusted_base(core):
    """Mechanical scan: everything that is assumed rather than proved."""
    t = ["Verus, Z3, rustc", "extract/ (the syntactic translation; what it changes is listed in DESIGN.md)",
         "spec/*.dec: the frozen published mappings", "contracts/spec.rs: the meaning of each property"]
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        src = open(os.path.join(HERE, "contracts", f)).read()
        keys = {k for ks in core["groups"].values() for k in ks}
        for m in re.finditer(r"external_body\]\s*(?:pub )?(?:broadcast )?(?:exec )?(?:proof )?(fn|struct|const) (\w+)", src):
            if f == "shims.rs":
                e = src.find("external_body]", m.end())
                a = re.search(r"/\*@([\w.]+)\*/\s*(?:#\[verifier::)?$", src[:m.start()])
                b = re.search(r"/\*@([\w.]+)\*/ ?\{", src[m.end():e if e > 0 else len(src)])
                if a and a.group(1) in keys or b and b.group(1) in keys:
                    continue
            t.append("assumed: %s %s (contracts/%s)" % (m.group(1), m.group(2), f))
        for m in re.finditer(r"\b(assume|admit)\s*\(", src):
            t.append("assumed: %s in contracts/%s" % (m.group(1), f))
    t.append("assumed: equality of each table constant with the frozen table it was compared with (complete evaluation, this run)")
    return t


ASSUMPTIONS = [
    "A 64-bit target (usize is 8 bytes); no slice or str is longer than isize::MAX bytes (guaranteed by Rust).",
    "The contracts of core functions in contracts/shims.rs that coverage.core_contracts_proved does not list (assumed; trusted_base names them), and vstd's specifications of core functions.  Each is evaluated against the real core function on every run, see coverage.assumed_contracts_evaluated.",
    "Machine arithmetic is checked for overflow, not treated as mathematical.",
]
