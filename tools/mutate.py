"""Mutation trials: small mechanical changes to the source, in scratch copies.
  mutate.py list FILE...            counts
  mutate.py run OUT.jsonl [-jN] [FILE...] [--every K] [--skip S]
For each mutant that compiles and passes the tests: what the verifier and the
exploration say.  Worth a look: a failed proof without a failing input (is the
mutant equivalent, or does the exploration miss something?), and a failing input
under a passing proof (then a contract is too weak).
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"]

OPS = [(r" <= ", [" < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" % "]), (r" % ", [" / "]),
       (r" & ", [" | "]), (r" \| ", [" & ", " + "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \+= ", [" = ", " -= "]), (r" -= ", [" += "]),
       (r"!is_end\b", ["is_end"]), (r"(?<!!)\bis_end\b(?!:)", ["!is_end", "true", "false"]), (r"\bbreak;", ["{}"]), (r"\binput_i\b", ["output_i"]), (r"\boutput_i\b", ["input_i"]),
       (r"\boffset2\b", ["offset"]), (r"\bbyte_1\b", ["byte_2"]), (r"\bbyte_2\b", ["byte_1"]), (r"\bcode2\b", ["code"]), (r"\bbytes_2\b", ["bytes"]),
       (r"_be_", ["_le_"]), (r"_le_", ["_be_"]), (r"\.len\(\)", [".len() - 1", ".len() + 1"]), (r"\(input_i, ", ["(0, "])]
NUM = re.compile(r"(?<![\w.{])(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)(?![\w.]*')(?![0-9A-Fa-f_]*\.\d)")


def code_lines(text):
    n = text.find("#[cfg(test)]")
    return text if n < 0 else text[:n]


def mutants(path, text):
    body = code_lines(text)
    pos = 0
    for ln, line in enumerate(body.split("\n")):
        st = line.strip()
        start = pos
        pos += len(line) + 1
        if not st or st.startswith(("//", "#", "use ", "pub fn", "fn ", "include", "pub mod", "mod ")):
            continue
        code = line.split("//")[0]

        def put(a, b, new):
            return {"file": path, "line": ln + 1, "old": line[a:b], "new": new, "at": start + a, "end": start + b, "text": st}
        for pat, news in OPS:
            for m in re.finditer(pat, code):
                for n in news:
                    yield put(m.start(), m.end(), n)
        for m in NUM.finditer(code):
            t = m.group(1)
            v = int(t.replace("_", ""), 0)
            for w in (v + 1, v - 1):
                if w >= 0:
                    yield put(m.start(1), m.end(1), (hex(w) if t.startswith("0x") else bin(w) if t.startswith("0b") else str(w)))
        if re.match(r"[\w\[\]. +]+ (\+=|-=|=) .*;$", st) and not st.startswith("let"):
            a = len(line) - len(line.lstrip())
            yield put(a, len(line), "{}")


class Worker:
    def __init__(self, root, n):
        self.d = os.path.join(root, "w%d" % n)
        os.makedirs(self.d)
        subprocess.run(["cp", "-a", "/repo", self.d + "/repo"], check=True)
        subprocess.run("mkdir -p %s/verif && cd %s && cp -a vlib contracts spec extract engine tools %s/verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/engine/Cargo.toml" % (self.d, HERE, self.d, self.d, self.d), shell=True, check=True)

    def go(self, m):
        p = os.path.join(self.d, "repo", m["file"])
        s = open(p).read()
        try:
            open(p, "w").write(s[:m["at"]] + m["new"] + s[m["end"]:])
            b = subprocess.run("timeout 100 cargo build --offline -q", shell=True, cwd=self.d + "/repo", capture_output=True, text=True)
            if b.returncode:
                return dict(m, result="does not compile")
            t = subprocess.run("timeout 100 cargo test --offline -q -- --test-threads 4", shell=True, cwd=self.d + "/repo", capture_output=True, text=True)
            if t.returncode:
                return dict(m, result="tests fail")
            r = subprocess.run([sys.executable, self.d + "/verif/tools/mutate.py", "one", m["file"]], cwd=self.d, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=self.d + "/repo"))
            try:
                return dict(m, **json.loads(r.stdout.splitlines()[-1]))
            except (ValueError, IndexError):
                return dict(m, result="error", stderr=r.stderr[-800:])
        finally:
            open(p, "w").write(s)


def one(f):
    sys.path.insert(0, os.path.join(HERE, "vlib"))
    import plan, driver
    e = driver.build_engine()
    if e:
        print(json.dumps({"result": "engine does not build", "stderr": e[-500:]}))
        return
    w = tempfile.mkdtemp(prefix="one-", dir=os.path.dirname(HERE))
    try:
        code = plan.Code(driver.REPO, w)
        g = os.path.basename(f)[:-3]
        eng = driver.Engine(w, driver.dictionary(code.x), "quick", 1)
        h = eng.start(driver.PROPS, 300)
        lost, failed, und = {}, {}, {}
        for d in "ED":
            u = plan.Unit(code, g, d)
            r = driver.run_unit(u, w, False)
            lost.update(u.lost)
            for k, v in r["failed"].items():
                failed[k] = sorted(v["props"])
        eng.finish(h)
        bad = [x["ob"] for x in code.ground if not x["ok"]]
        fp = sorted({p for k, v in failed.items() if k.split("/")[0] not in lost for p in v})
        found = {p: [m[:200], json.dumps(c)[:200]] for p, (m, c) in eng.found.items()}
        res = ("proved" if not failed and not lost and not bad else "failed" if fp or bad else "bounded") + "/" + ("input" if found else "no input")
        print(json.dumps({"result": res, "failed": failed, "lost": dict(list(lost.items())[:3]), "found": found, "ground": bad}))
    finally:
        shutil.rmtree(w)


def main():
    a = sys.argv[1:]
    if a[0] == "one":
        return one(a[1])
    every = int(a[a.index("--every") + 1]) if "--every" in a else 1
    skip = int(a[a.index("--skip") + 1]) if "--skip" in a else 0
    fs = [x for x in a if x.startswith("src/")] or FILES
    ms = []
    for f in fs:
        ms += list(mutants(f, open("/repo/" + f).read()))
    ms = ms[skip::every]
    if a[0] == "list":
        print(len(ms))
        return
    j = next((int(x[2:]) for x in a if re.match(r"-j\d", x)), 4)
    root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    ws = [Worker(root, i) for i in range(j)]
    lock = threading.Lock()
    out = open(a[1], "a")
    try:
        def go(m):
            with lock:
                w = ws.pop()
            try:
                r = w.go(m)
            finally:
                with lock:
                    ws.append(w)
            with lock:
                out.write(json.dumps(r) + "\n")
                out.flush()
        with cf.ThreadPoolExecutor(j) as ex:
            list(ex.map(go, ms))
    finally:
        shutil.rmtree(root)


main()
