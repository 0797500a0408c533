"""Puts core's own source in the place of bodies that contracts/shims.rs assumes.

contracts/corelib.txt says what goes where.  The text of the functions comes, on
every run, from the rust-src of the toolchain that builds /repo; it is changed
only by the rewrites listed there, each of which must apply.  A group for which
that does not work out stays assumed."""
import hashlib, os, re, subprocess

import std, units, verus


def _balanced(s, i):
    """The index after the group that opens at s[i]."""
    d, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            i = s.index("\n", i)
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)
            if m:
                i = m.end() - 1
        elif c in "{[(":
            d += 1
        elif c in "}])":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError("unbalanced")


def _strip(s):
    """Without line comments."""
    out, i = [], 0
    while i < len(s):
        if s.startswith("//", i):
            i = s.index("\n", i)
            continue
        if s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return re.sub(r"\n(\s*\n)+", "\n", "".join(out))


class Source:
    def __init__(self):
        r = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        self.root = os.path.join(r, "lib/rustlib/src/rust/library/core/src")
        self.version = subprocess.run(["rustc", "--version"], capture_output=True, text=True).stdout.strip()
        self.files, self.used = {}, {}

    def text(self, f):
        if f not in self.files:
            with open(os.path.join(self.root, f)) as h:
                self.files[f] = h.read()
            self.used[f] = hashlib.sha256(self.files[f].encode()).hexdigest()[:16]
        return self.files[f]

    def body(self, f, anchors):
        """The text between the braces that follow the anchors, each of which
        must be found once after (inside) the one before."""
        s = self.text(f)
        for a in anchors:
            ms = list(re.finditer(r"\s+".join(re.escape(w) for w in a.split()), s))
            assert ms and a[-1] in "{[=", "%s: no %r" % (f, a)
            assert len(anchors) > 1 or len(ms) == 1, "%s: %r is not unique" % (f, a)
            if a[-1] == "=":
                return s[ms[0].end():s.index(";", ms[0].end())]
            j = ms[0].end() - 1
            s = s[j + 1:_balanced(s, j) - 1]
        return _strip(s)


def _macros(t):
    """Expands the macros the body itself defines (one arm, at most one argument)."""
    defs = {}
    while True:
        m = re.search(r"macro_rules!\s*(\w+)\s*\{\s*\((?:\$(\w+)\s*:\s*expr)?\)\s*=>\s*(?=\{)", t)
        if not m:
            break
        e = _balanced(t, m.end())
        defs[m.group(1)] = (m.group(2), t[m.end() + 1:e - 1].strip())
        r = re.compile(r"\s*;?\s*\}").match(t, e)
        assert r, "macro with several arms"
        t = t[:m.start()] + t[r.end():]
    for _ in range(200):
        m = re.search(r"\b(%s)!(?=\()" % "|".join(defs), t) if defs else None
        if not m:
            return t
        e = _balanced(t, m.end())
        x, b = defs[m.group(1)]
        if x:
            b = b.replace("$" + x, t[m.end() + 1:e - 1])
        t = t[:m.start()] + b + t[e:]
    raise ValueError("macros")


def _core(src, head, rws):
    p = [x.strip() for x in head.split(" | ")]
    t = _macros(src.body(p[0], p[1:]))
    for a, b in rws:
        pat = r"\s*".join(re.escape(w) for w in re.findall(r"\w+|[^\w\s]", a))
        t, n = re.subn(pat, lambda m: b, t)
        assert n, "%s: rewrite %r does not apply" % (p[0], a)
    return t


def _expand(src, text):
    out, lines, i = [], text.split("\n"), 0
    while i < len(lines):
        m = re.match(r"(.*?)@core (.*)$", lines[i])
        if not m:
            assert not lines[i].strip().startswith(("@rw", "@end")), lines[i]
            out.append(lines[i])
            i += 1
            continue
        out.append(m.group(1))
        rws, i = [], i + 1
        while not lines[i].strip().startswith("@end"):
            r = re.match(r"\s*@rw (.*?) =>(?: (.*))?$", lines[i])
            if r:
                rws.append([r.group(1), r.group(2) or ""])
            else:
                rws[-1][1] += "\n" + lines[i]
            i += 1
        out.append(_core(src, m.group(2), rws))
        out.append(lines[i].strip()[4:])
        i += 1
    return "\n".join(out)


def _place(t, key, new):
    if key.endswith(".pre"):
        assert t.count("/*@pre*/") == 1
        return t.replace("/*@pre*/", new + "\n/*@pre*/")
    mark = "/*=%s*/" % key
    if mark in t:
        # the body of something proved over vstd's specification
        assert t.count(mark) == 1, key
        i = t.index(mark)
        k = t.index("{", i)
        assert not t[i + len(mark):k].strip(), key
        return t[:i] + new + t[_balanced(t, k):]
    mark = "/*@%s*/" % key
    assert t.count(mark) == 1, key
    i = t.index(mark)
    j = i + len(mark)
    k = j + len(t[j:]) - len(t[j:].lstrip())
    if t[k] == "{":
        e = _balanced(t, k)
        a = "#[verifier::external_body]"
        x = t.rindex(a, 0, i)
        return t[:x] + t[x + len(a):i] + new + t[e:]
    # a declaration or a type
    m = re.compile(r"[;{]").search(t, k)
    e = m.end() if m.group() == ";" else _balanced(t, m.start())
    return t[:i] + new + t[e:]


def apply(root, text, src=None):
    """(text with what can be discharged put in, report)"""
    rep = {"source": None, "groups": {}, "assumed": {}}
    try:
        src = src or Source()
        rep["source"] = src.version
        with open(os.path.join(root, "contracts/corelib.txt")) as h:
            conf = h.read()
    except Exception as e:
        rep["assumed"]["all"] = str(e)
        return text, rep
    for g in re.split(r"^@group ", conf, flags=re.M)[1:]:
        name, rest = g.split("\n", 1)
        name = name.strip()
        t = text
        try:
            keys = []
            for a in re.split(r"^@at ", rest, flags=re.M)[1:]:
                key, new = a.split("\n", 1)
                t = _place(t, key.strip(), _expand(src, new.rstrip("\n")))
                keys.append(key.strip())
            text = t
            rep["groups"][name] = keys
        except Exception as e:
            rep["assumed"][name] = "%s: %s" % (type(e).__name__, e)
    rep["files"] = dict(src.used)
    return text, rep


def keys_of(shims):
    """Marker -> the name of the contract it stands in."""
    r, cur, fn = {}, "", ""
    for l in shims.split("\n"):
        m = re.match(r"(?:pub )?(?:trait|impl(?:<.*?>)?) (?:(\w+)\S* for |(\w+))", l)
        if m:
            cur = m.group(1) or m.group(2)
        if l.startswith("}"):
            cur = ""
        for x in re.finditer(r"\b(?:fn|struct) (\w+)|/\*[@=]([\w.]+)\*/", l):
            if x.group(1):
                fn = (cur + "::" if cur and l.startswith(" ") else "") + x.group(1)
            else:
                r[x.group(2)] = fn
    return r


PROBE = """
proof fn vacuity_probe(bb: Seq<u8>, s: &str) {
    broadcast use {bit_lemmas, utf8_lemmas};
    ax_str_len(s);
    assert(false); // vacuity_probe
}
}"""


def run(root, work):
    """Verifies core's source against the contracts.  Says nothing of /repo: what
    it does not prove stays assumed."""
    o = units.begin(root, std, {"types": []})
    units.finish(o)
    text, rep = apply(root, o.text())
    i = text.rindex("fn main()")
    j = text.rindex("}", 0, i)
    text = text[:j] + PROBE.strip() + text[j + 1:]
    rep["contracts"] = {}
    p = os.path.join(work, "corelib.rs")
    open(p, "w").write(text)
    r = verus.run(p, rlimit=60, timeout=300)
    v = (r["json"] or {}).get("verification-results") or {}
    errs = [d for d in r["diags"] if d["level"] == "error" and not d["message"].startswith("aborting")]
    L = text.split("\n")
    probe = [d for d in errs if any("vacuity_probe" in L[x["line_start"] - 1] for x in d["spans"] if x["file_name"].endswith("corelib.rs"))]
    rest = [d["message"] for d in errs if d not in probe]
    rep["verus"] = {"cmd": r["cmd"], "wall": round(r["wall"], 1), "results": v, "smt_ms": ((r["json"] or {}).get("times-ms") or {}).get("smt", {}).get("total", 0)}
    why = None
    if r["timeout"] or not v or v.get("encountered-vir-error"):
        why = "the verifier did not finish: " + (rest or [r["stderr"][-200:]])[0]
    elif rest or v.get("errors") != 1 or len(probe) != 1:
        why = "not proved: " + (rest or ["the probe that must fail is proved"])[0]
    if why:
        rep["assumed"].update((g, why) for g in rep["groups"])
        rep["groups"] = {}
    else:
        with open(os.path.join(root, "contracts/shims.rs")) as h:
            names = keys_of(h.read())
        for g, ks in rep["groups"].items():
            for k in ks:
                # a key of a body, not of a helper or of what is only defined
                if k in names and not k.endswith((".seq", ".pos", ".n", ".inv", ".type", ".at", ".len", ".a", ".c")):
                    rep["contracts"][names[k]] = g
    return rep
