"""Which Verus units there are, which functions and contracts each holds, and
which properties each depends on."""
import json, os, re, subprocess
import std, units, ground, bits
from units import Lost

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MULTI = ["utf8", "utf16_le", "utf16_be", "utf32_le", "utf32_be", "big5_whatwg", "shiftjis_whatwg"]
SB = ["single_byte::ascii"] + ["single_byte::" + s for s in std.SINGLE]
MODULES = MULTI + SB
UTF = MULTI[:5]


def scope(prop):
    """[(module group, direction)] a property is about, and the labels of the
    contract clauses it rests on."""
    allm = MULTI + ["single_byte"]
    e = lambda ms: [(m, "E") for m in ms]
    d = lambda ms: [(m, "D") for m in ms]
    both = lambda ms: e(ms) + d(ms)
    E3, D4 = {"C03", "C04", "C05"}, {"C06", "C07", "C08"}
    return {
        "C01": (both(allm), {"C01"}),
        "C02": (d(allm), {"C02"}),
        "C03": (e(allm), {"C03"}), "C04": (e(allm), {"C04"}), "C05": (e(allm), {"C05"}),
        "C06": (d(allm), {"C06"}), "C07": (d(allm), {"C07"}), "C08": (d(allm), {"C08"}), "C17": (d(allm), {"C17"}),
        "C09": (e(allm), E3), "C10": (d(allm), D4),
        "C11": (both(UTF), E3 | D4), "C12": (both(["single_byte"]), E3 | D4),
        "C13": (both(["big5_whatwg"]), E3 | D4), "C14": (both(["shiftjis_whatwg"]), E3 | D4),
        "C15": (both(allm), E3 | D4), "C16": (both(UTF + ["single_byte"]), E3 | D4),
    }[prop]


def sname(module):
    return module.replace("::", "__")


class Code:
    """What was extracted from the source."""

    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.exe = os.path.join(HERE, "extract", "target", "release", "extract")
        self.tables_rs = os.path.join(work, "tables.rs")
        self.problems = []
        self.x = self.extract(["single_byte__ascii_ext_encode_from_str", "single_byte__ascii_ext_decode_to_str", "utf8__copy_len"])
        helpers = []
        for k, f in self.x["fns"].items():
            if self.kind(f):
                continue
            sig = self.roles(f)
            if sig and sig["TAB"] and sig["OUT"] and (sig["S"] or sig["B"]):
                helpers.append(k)
            elif f["module"] == "utf8" and [units.norm(t) for _, t in f["params"]] == ["&[u8]", "usize"] and units.norm(f["ret"]) == "usize":
                helpers.append(k)
        # One helper cuts a text's bytes to a length: the one the encoder calls.
        cuts = [h for h in helpers if self.x["fns"][h]["module"] == "utf8" and not self.roles(self.x["fns"][h])]
        if len(cuts) > 1:
            used = self.x["fns"].get("utf8__encode_from_str", {})
            used = set(used.get("calls", [])) | set(used.get("inlined", []))
            keep = [h for h in cuts if h in used or h.split("__")[-1] in used][:1] or ["utf8__copy_len"]
            helpers = [h for h in helpers if h not in cuts or h in keep]
        if set(helpers) != {"single_byte__ascii_ext_encode_from_str", "single_byte__ascii_ext_decode_to_str", "utf8__copy_len"}:
            self.x = self.extract(helpers)
        self.helpers = [h for h in helpers if h in self.x["fns"]]
        for k, f in self.x["fns"].items():
            f["flat"] = k
        self.load_tables()

    def extract(self, contracted):
        p = subprocess.run([self.exe, self.repo, ",".join(contracted), self.tables_rs], capture_output=True, text=True)
        if p.returncode:
            raise Lost("extractor: " + p.stderr[-1500:])
        return json.loads(p.stdout)

    def roles(self, f):
        try:
            return units.roles(f)
        except Lost:
            return None

    def kind(self, f):
        """E or D for the public functions of the known encodings."""
        if f["module"] in MODULES and f["pub"]:
            return {"encode_from_str": "E", "decode_to_str": "D"}.get(f["name"])
        return None

    # -- tables
    def load_tables(self):
        T = std.tables()
        self.std_of, self.act, self.ground = {}, {}, []
        self.tab_error = None
        r = ground.dump_tables(self.tables_rs, self.work)
        if isinstance(r, str):
            self.tab_error = r
            return
        self.rows = {n: rows for n, _, rows in r}
        own = {}
        for k, f in self.x["fns"].items():
            for c in f["consts"]:
                own.setdefault(c, set()).add(f["module"])
        for n, ty, rows in r:
            enc = "(" in ty
            kind = "enc" if enc else "dec"
            # The published table this constant has to be: that of the module
            # that uses it, or else the one it equals.
            mods = [sname(m) for m in own.get(n, ())]
            want = [m for m in mods if m + "/" + kind in T and T[m + "/" + kind] == rows]
            if not want:
                want = [t.split("/")[0] for t in T if t.endswith("/" + kind) and T[t] == rows]
            if want:
                self.std_of[n] = "std_%s_%s()" % (kind, want[0])
            else:
                self.std_of[n] = "act_%s()" % n
                self.act[n] = (kind, ty, rows)
            if n in own:
                sem = ("C03", "C04", "C05", "C09") if enc else ("C02", "C06", "C07", "C08", "C10", "C17")
                grp = {"big5_whatwg": "C13", "shiftjis_whatwg": "C14"}
                for m in sorted(own[n]):
                    g = grp.get(m, "C12")
                    props = sem + (g, "C15") + (("C16",) if g == "C12" else ())
                    self.ground.append({"ob": "table/%s equals the published mapping" % n, "module": m, "props": props, "ok": bool(want) and (sname(m) in want or sname(m) + "/" + kind not in T),
                                        "dir": "E" if enc else "D", "facts": len(rows)})
                    if enc:
                        self.ground.append({"ob": "table/%s is sorted by character, without duplicates" % n, "module": m, "props": props, "ok": ground.sorted_rows(rows), "dir": "E", "facts": max(0, len(rows) - 1)})

    def spec_value(self, f, kind):
        """The specification value for a function: the published tables, or,
        where a table of the code is not the published one (a failed ground
        obligation), the actual table."""
        m = f["module"]
        v = units.enc_value(m, kind=kind)
        k = "enc" if kind == "E" else "dec"
        bad = [c for c in f["consts"] if c in self.act and self.act[c][0] == k]
        if len(bad) > 1:
            raise Lost("several tables differ from the published ones")
        if bad:
            want = "std_%s_%s()" % (k, sname(m))
            if want not in v:
                raise Lost("an unknown table")
            return v.replace(want, "act_%s()" % bad[0])
        return v

    def const_decls(self, fs):
        out = []
        for c in sorted({c for f in fs for c in f["consts"]}):
            rec = self.x["consts"][c]
            if not rec["table"]:
                out.append((c, "pub const %s: %s = %s;" % (c, rec["ty"], rec["init"])))
                continue
            if self.tab_error:
                raise Lost(self.tab_error)
            is_sorted = "(" not in rec["ty"] or ground.sorted_rows(self.rows[c])
            out.append((c, units.const_decl(c, rec["ty"], self.std_of[c], is_sorted)))
        return out

    def act_decls(self):
        out = []
        for n, (kind, ty, rows) in self.act.items():
            el = units.norm(ty)[1:].rsplit(";", 1)[0]
            out.append("pub uninterp spec fn act_%s() -> Seq<%s>;" % (n, el))
            if n.startswith("big5_whatwg"):
                if kind == "enc" and all(any(r[0] == c for r in rows) for c in (0xCA, 0xEA)):
                    out.append("#[verifier::external_body] pub broadcast proof fn ax_act_bases(c: char) requires b5_base(c) ensures #[trigger] has2(act_%s(), c) { }" % n)
                if kind == "dec" and all(p < len(rows) and rows[p] == 0xFFFD for p in ground.B5_PAIRS):
                    out.append("#[verifier::external_body] pub broadcast proof fn ax_act_pairs(i: int) requires i == 1133 || i == 1135 || i == 1164 || i == 1166 ensures #[trigger] act_%s()[i] == REPL { }" % n)
        return out


class Unit:
    """One Verus run: the functions of one group and direction."""

    def __init__(self, code, group, direction):
        self.code, self.group, self.dir = code, group, direction
        self.name = "%s_%s" % (group, direction)
        self.lost = {}      # flat -> reason
        self.drop = set()   # functions whose body the verifier cannot take
        self.opts = {}      # flat -> how its loop contract is stated
        self.missing = []
        self.fs = self.members()

    def members(self):
        c, fs = self.code, []
        X = c.x["fns"]
        for h in c.helpers:
            f = X[h]
            r = c.roles(f)
            if self.group == "single_byte" and r and r["TAB"] and (r["S"] if self.dir == "E" else r["B"]):
                fs.append(f)
            if self.group == "utf8" and f["module"] == "utf8" and not (r and r["TAB"]):
                fs.append(f)
        fn = "encode_from_str" if self.dir == "E" else "decode_to_str"
        for m in (SB if self.group == "single_byte" else [self.group]):
            k = "%s__%s" % (sname(m), fn)
            if k in X and c.kind(X[k]):
                fs.append(X[k])
            else:
                self.missing.append(k)
                self.lost[k] = "the function is not found in the source"
        return fs

    def variants(self, f, failed, lost=False):
        """Other ways of stating a function's loop contract."""
        r = self.code.roles(f)
        if not r or f["errors"] or not f["loops"]:
            return [{"rl": 160}] if r and not lost and not f["errors"] else []
        ch = units.role_choices(f, r["OUT"]) if r["OUT"] else []
        if lost and not ch:
            return []
        out = []
        for c in (ch or [{}])[:4]:
            if ch:
                out.append(dict(c))
            out.append(dict(c, iso=True))
            out.append(dict(c, iso=True, want_aux=True))
        return out + ([] if lost else [{"rl": 160}])

    def unknown_state(self, f):
        """Variables the main loop changes that its contract does not mention."""
        r = self.code.roles(f)
        if not r or not r["OUT"]:
            return "its loop starts elsewhere" if any(units.norm(units.init_of(f, v)) not in ("0", "0usize", f["params"][-1][0]) for l in f["loops"] for v in l["muts"]) else ""
        try:
            ml = units.main_loop(f, r["OUT"])
        except Lost:
            return ""
        if not ml:
            return ""
        O, I = units.ok_roles(f, ml, {})
        if any(l["parent"] for l in f["loops"]):
            return "an inner loop"
        return ", ".join(v for v in ml["muts"] if v not in (O, I, ml["iter"]) and (units.is_int(f, v) or v.startswith("it__") or units.norm(units.init_of(f, v)).lstrip("&") in (r["S"], r["B"]) or units.init_of(f, v) in ("true", "false", "None")))

    def add(self, o, f, full):
        """Writes one function: its text under contract, or (full=False) only
        its contract."""
        c = self.code
        r = c.roles(f)
        if f["flat"] in c.helpers and not (r and r["TAB"]):
            fnx = lambda: units.copy_len(o, f, opt)
        else:
            req = V = None
            if r and r["TAB"] and f["flat"] in c.helpers:
                req = units.TAB_REQ[self.dir]
            else:
                V = c.spec_value(f, self.dir)
            if self.group == "utf8" and self.dir == "D":
                fnx = lambda: units.utf8_decoder(o, f, opt)
            elif self.dir == "E":
                fnx = lambda: units.encoder(o, f, V, req, opt)
            else:
                fnx = lambda: units.decoder(o, f, V, req, opt)
        opt = self.opts.get(f["flat"], {})
        n = len(o.lines), len(o.obligations)
        if f["errors"]:
            if full:
                raise Lost("not translatable: " + "; ".join(f["errors"])[:300])
        g = dict(f)
        if not full:
            g["body"], g["loops"], g["oks"], g["strs"] = [["{", f["line"]], ["unimplemented!()", f["line"]], ["}", f["line"]]], [], [], []
            o.put("#[verifier::external_body]")
            f = g
        try:
            fnx()
        except Lost:
            o.lines, o.info, o.obligations = o.lines[:n[0]], o.info[:n[0]], o.obligations[:n[1]]
            o.fn = None
            raise
        if not full:
            o.obligations = o.obligations[:n[1]]
            for i in range(n[0], len(o.lines)):
                o.info[i] = None

    def compose(self, probe=None):
        o = units.begin(HERE, std, self.code.x)
        # (begin leaves module k closed)
        kind = "8" if self.group == "utf8" else self.dir
        cs = [self.code.x["consts"][c].get("init") or "" for f in self.fs for c in f["consts"] if not self.code.x["consts"][c]["table"]]
        decls, names = bits.lemmas([t for f in self.fs for t, _ in f["body"]], cs)
        if names:
            o.put("pub mod b { use vstd::prelude::*;")
            for t in decls:
                o.put(t)
            o.put("}")
        o.put("pub mod m { use vstd::prelude::*; use super::k::*;%s" % (" use super::b::*;" if names else ""))
        for t in self.code.act_decls():
            o.put(t)
        uses = units.USES[kind]
        if self.group == "big5_whatwg":
            for t in self.code.act_decls():
                for ax in ("ax_act_bases", "ax_act_pairs"):
                    if ax in t:
                        uses = uses.replace("};", ", %s};" % ax)
        if names:
            uses = uses.replace("};", ", %s};" % ", ".join(names))
        self.verify_modules = ["m"] + (["b"] if names else [])
        o.put(uses)
        declared = set()
        for f in self.fs:
            try:
                if f["flat"] in self.drop:
                    raise Lost(self.lost.get(f["flat"], "the verifier cannot take it"))
                for c, t in self.code.const_decls([f]):
                    if c not in declared:
                        declared.add(c)
                        o.put(t)
                self.add(o, f, True)
            except Lost as e:
                self.lost[f["flat"]] = str(e)
                try:
                    self.add(o, f, False)
                except Lost:
                    pass
        if probe:
            o.put(probe)
        o.put("}")
        units.finish(o)
        return o
