"""Composes Verus units: the extracted text of the functions in /repo, with the
contracts of /verif/contracts woven in.  Every contract line carries the
properties it belongs to."""
import re

ALL_E = ("C03", "C04", "C05")
ALL_D = ("C02", "C06", "C07", "C08", "C17")

PRELUDE = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, non_upper_case_globals, non_snake_case, unused_assignments)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod k { use vstd::prelude::*; use vstd::std_specs::iter::IteratorSpec; use super::*;
"""


class Lost(Exception):
    """The contract cannot be attached to this function."""


class Out:
    def __init__(self):
        self.lines = []     # text
        self.info = []      # None or dict(ob=, props=, kind=, fn=, src=)
        self.obligations = []
        self.fn = None

    def put(self, text, src=0):
        for t in text.split("\n"):
            self.lines.append(t)
            self.info.append({"fn": self.fn, "src": src, "kind": "code"} if self.fn else None)

    def clause(self, text, name, props, kind):
        ob = "%s/%s" % (self.fn, name)
        self.lines.append(text)
        self.info.append({"fn": self.fn, "src": 0, "kind": kind, "ob": ob, "props": tuple(props)})
        self.obligations.append((ob, tuple(props), kind))

    def text(self):
        return "\n".join(self.lines) + "\n"


def types_of(x):
    return "\n".join(x["types"])


def enc_value(module, be_e=True, kind="E"):
    """The specification value of the encoding a module implements."""
    if module == "utf8":
        return kind + "Enc::Utf8"
    m = re.match(r"utf(16|32)_(le|be)$", module)
    if m:
        return "%sEnc::Utf%s { be: %s }" % (kind, m.group(1), "true" if m.group(2) == "be" else "false")
    if module == "big5_whatwg":
        return "%sEnc::Big5 { tab: std_%s_big5_whatwg() }" % (kind, "enc" if kind == "E" else "dec")
    if module == "shiftjis_whatwg":
        return "%sEnc::Sjis { tab: std_%s_shiftjis_whatwg() }" % (kind, "enc" if kind == "E" else "dec")
    if module == "single_byte::ascii":
        return "EEnc::Sb { tab: Seq::<(char, u8)>::empty() }" if kind == "E" else "DEnc::Sb { tab: ascii_tab() }"
    if module.startswith("single_byte::"):
        return "%sEnc::Sb { tab: std_%s_%s() }" % (kind, "enc" if kind == "E" else "dec", module.replace("::", "__"))
    raise Lost("unknown module " + module)


def norm(t):
    return re.sub(r"\s+", "", t)


def roles(f):
    r = {"S": None, "B": None, "OUT": None, "END": "true", "TAB": None}
    for n, t in f["params"]:
        t = norm(re.sub(r"& *'[a-z_]+ ", "&", t))
        if t == "&str":
            r["S"] = n
        elif t == "&[u8]":
            r["B"] = n
        elif t == "&mut[u8]":
            r["OUT"] = n
        elif t == "bool":
            r["END"] = n
        elif t in ("&[(char,u8)]", "&[char;128]", "&[char]"):
            r["TAB"] = n
        else:
            raise Lost("parameter %s: %s" % (n, t))
    return r


def main_loop(f, out):
    c = [l for l in f["loops"] if out in l["writes"]]
    if not c:
        return None
    top = [l for l in c if not l["parent"]]
    if len(top) != 1:
        raise Lost("%d loops write the output buffer" % len(c))
    return top[0]


def init_of(f, v):
    l = f["lets"].get(v)
    return l[0][0].strip() if l else ""


def alias(f, v):
    """The variable an immutable variable is another name of."""
    seen = set()
    while v not in seen:
        seen.add(v)
        e = f["lets"].get(v, [])
        if len(e) != 1 or e[0][1] or not re.match(r"[a-z_]\w*$", e[0][0]):
            break
        v = e[0][0]
    return v


def is_int(f, v, seen=()):
    """Whether a local variable is an integer, as far as its initial value shows."""
    t = init_of(f, v)
    if not t or v in seen:
        return False
    if re.match(r"^it__\d+$", v) and "v_" in t and not t.endswith("v_len ( )"):
        return False
    if re.match(r"^[0-9][0-9a-fA-Fx_]*(u?size|u32)?$", t) or t.endswith("v_len ( )"):
        return True
    t = re.sub(r"\b\w+ \. v_len \( \)", "0", t)
    if re.match(r"^[\w .()+*/-]+$", t):
        ws = re.findall(r"[A-Za-z_]\w*", t)
        return all(w in ("v_len", "v_min", "v_max", "as", "usize") or is_int(f, w, seen + (v,)) for w in ws)
    return False


def ok_roles(f, ml, opt):
    """The variables that count what was written and what was read."""
    o = {k["o"] for k in f["oks"] if k["o"]}
    i = {k["i"] for k in f["oks"] if k["i"]}

    def pick(c, other):
        c = list(c)
        if len(c) != 1:
            return None
        v = c[0]
        for _ in range(4):
            if v in ml["muts"]:
                return v
            m = re.match(r"^(\w+)$", init_of(f, v))
            if not m:
                return None
            v = m.group(1)
        return None
    O = opt.get("O") or pick(o, None)
    I = opt.get("I") or pick(i, None)
    return O, I


def role_choices(f, out):
    """Assignments of the two roles worth trying when the code does not show them."""
    try:
        ml = main_loop(f, out)
    except Lost:
        return []
    if not ml:
        return []
    O, I = ok_roles(f, ml, {})
    ints = [v for v in ml["muts"] if is_int(f, v) and not v.startswith("it__")]
    r = []
    for o in ([O] if O else ints):
        for i in ([I] if I else ints):
            if o != i:
                r.append({"O": o, "I": i})
    return r if not (O and I) else []


def aux_candidates(f, ml, O, I, P, total, out, src, kind):
    """Invariants proposed for loop state the contract does not know.  The
    verifier decides which of them hold; the others are dropped."""
    c = []
    if kind == "E" and ml["iter"]:
        c += ["%s == off(ss, %s)" % (I, P), "%s == 2 * %s" % (O, P), "%s == 4 * %s" % (O, P)]
    for v in ml["muts"]:
        if v in (O, I) or v == ml["iter"]:
            continue
        if is_int(f, v):
            c += ["%s == %s" % (v, O), "%s == %s" % (v, I), "%s + %s == %s@.len()" % (v, O, out), "%s + %s == %s" % (v, I, total),
                  "%s <= %s@.len()" % (v, out), "%s <= %s" % (v, total)]
            c += ["%s == %s" % (v, P), "%s == off(ss, %s)" % (v, P)] if kind == "E" else ["%s * 2 == %s" % (v, I), "%s * 4 == %s" % (v, I)]
            c += ["%s * 2 == %s" % (v, O), "%s * 4 == %s" % (v, O)]
        elif norm(init_of(f, v)).lstrip("&") in (src, src + "[..]"):
            c += ["%s@ =~= %s" % (v, "ss.skip(%s)" % P if kind == "E" else "bb.skip(%s as int)" % I)]
    # what a loop's body may use of the variables set before it
    head = []
    for t, _ in f["body"]:
        if re.search(r"__loop_marker \( %d \)" % ml["id"], t):
            break
        head.append(t)
    head = " ".join(head)
    for v, l in f["lets"].items():
        if len(l) == 1 and not l[0][1] and re.search(r"\blet %s =" % v, head) and not v.startswith("it__"):
            t = re.sub(r"\b%s \. v_len \( \)" % re.escape(out), out + "@.len()", l[0][0])
            t = re.sub(r"\b%s \. v_len \( \)" % re.escape(src), total, t)
            if re.match(r"^[\w .(),+*/@-]+$", t) and "@" + ".len()" in t.replace("bb.len()", "@.len()"):
                c.append("%s == %s" % (v, t))
    return c


def put_aux(o, opt, lid, mode):
    """(in `invariant_except_break`, `invariant` or `ensures` position)"""
    for n, (l, text, md) in enumerate(opt.get("aux", [])):
        if l == lid and md == mode:
            o.clause("        %s," % text, "aux-%d" % n, (), "aux")


def copy_loop(o, f, l, O, OUT):
    """A loop inside the main loop that copies bytes to the output."""
    if not set(l["muts"]) <= {O, l["iter"] or "", "it__%d" % l["id"]} | {v for v in l["muts"] if re.match(r"it__\d+$", v)} or not set(l["writes"]) <= {OUT}:
        raise Lost("an unknown inner loop")
    n = l["id"]
    if l["iter"]:
        idx, src = "%s.pos()" % l["iter"], "%s.seq()" % l["iter"]
        if not l["iter_init"] or l["iter_init"][0] != "v_iter":
            raise Lost("an unknown inner loop")
        star = "*" if False else ""
    else:
        its = [v for v in l["muts"] if re.match(r"it__\d+$", v)]
        if len(its) != 1:
            raise Lost("an unknown inner loop")
        idx = "(%s as int)" % its[0]
        pats = [m.group(1) for t, _ in f["body"] for m in re.finditer(r"%s \[[^\]]*\] = (\w+) \[" % re.escape(OUT), t)]
        if len(set(pats)) != 1:
            raise Lost("an unknown inner loop")
        src = pats[0] + "@"
    moved = O in l["muts"]

    def w():
        o.put("      invariant")
        if l["iter"]:
            o.put("        0 <= %s <= %s.len(), %s == sq__%d," % (idx, src, src, n))
            o.put("        o0__%d + %s.len() <= %s@.len()," % (n, src, OUT))
        o.put("        %s == o0__%d%s, %s@.len() == b0__%d.len()," % (O, n, " + " + idx if moved else "", OUT, n))
        o.put("        forall|j: int| 0 <= j < %s@.len() && !(o0__%d <= j < o0__%d + %s) ==> #[trigger] %s@[j] == b0__%d[j]," % (OUT, n, n, idx, OUT, n))
        o.put("        forall|j: int| o0__%d <= j < o0__%d + %s ==> #[trigger] %s@[j] == %s[j - o0__%d]," % (n, n, idx, OUT, src, n))
        o.put("      decreases %s" % ("%s.len() - %s" % (src, idx) if l["iter"] else "hi__%s - %s" % (idx[5:].split(" ")[0], idx)))
    ghosts = ["let ghost o0__%d = %s as int;" % (n, O), "let ghost b0__%d = %s@;" % (n, OUT)]
    if l["iter"]:
        ghosts.append("let ghost sq__%d = %s;" % (n, src))
    return w, [], ghosts


# --------------------------------------------------------------------------
# contracts of the two kinds of public function

def enc_contract(o, r, E):
    S, OUT, END = r["S"], r["OUT"], r["END"]
    o.put("    ensures")
    o.clause("        final(%s)@.len() == old(%s)@.len()," % (OUT, OUT), "frame", ("C01",), "post")
    o.clause("        res is Ok ==> res->Ok_0.0@.len() <= old(%s)@.len() && res->Ok_0.1 <= off(%s@, %s@.len() as int)," % (OUT, S, S), "ok-in-range", ("C01",), "post")
    o.clause("        res is Err ==> res->Err_0.output_bytes_written <= old(%s)@.len() && res->Err_0.error_range.0 <= res->Err_0.error_range.1 && res->Err_0.error_range.1 <= off(%s@, %s@.len() as int)," % (OUT, S, S), "err-in-range", ("C01",), "post")
    o.clause("        res is Ok ==> enc_exact(%s, %s@, %s, final(%s)@, res->Ok_0.0@, res->Ok_0.1 as int)," % (E, S, END, OUT), "ok-exact", ("C03",), "post")
    o.clause("        res is Ok ==> enc_stop(%s, %s@, %s, old(%s)@.len() as int, res->Ok_0.0@.len() as int, res->Ok_0.1 as int)," % (E, S, END, OUT), "ok-stop", ("C04",), "post")
    o.clause("        res is Err ==> enc_err(%s, %s@, %s, final(%s)@, res->Err_0.character, res->Err_0.error_range.0 as int, res->Err_0.error_range.1 as int, res->Err_0.output_bytes_written as int)," % (E, S, END, OUT), "err-exact", ("C05",), "post")


def dec_contract(o, r, D):
    B, OUT, END = r["B"], r["OUT"], r["END"]
    o.put("    ensures")
    o.clause("        final(%s)@.len() == old(%s)@.len()," % (OUT, OUT), "frame", ("C01",), "post")
    o.clause("        res is Ok ==> u8s(res->Ok_0.0@).len() <= old(%s)@.len() && res->Ok_0.1 <= %s@.len()," % (OUT, B), "ok-in-range", ("C01",), "post")
    o.clause("        res is Err ==> res->Err_0.output_bytes_written <= old(%s)@.len() && res->Err_0.error_range.0 <= res->Err_0.error_range.1 && res->Err_0.error_range.1 <= %s@.len()," % (OUT, B), "err-in-range", ("C01",), "post")
    o.clause("        res is Ok ==> front(final(%s)@, u8s(res->Ok_0.0@).len() as int, u8s(res->Ok_0.0@))," % OUT, "ok-front", ("C02",), "post")
    o.clause("        res is Err ==> res->Err_0.output_bytes_written <= old(%s)@.len() && wf(final(%s)@.subrange(0, res->Err_0.output_bytes_written as int))," % (OUT, OUT), "err-wf", ("C02",), "post")
    o.clause("        res is Ok ==> dec_exact(%s, %s@, u8s(res->Ok_0.0@), res->Ok_0.1 as int)," % (D, B), "ok-exact", ("C06",), "post")
    o.clause("        res is Ok ==> dstop(%s, %s@, res->Ok_0.1 as int, %s, old(%s)@.len() - u8s(res->Ok_0.0@).len())," % (D, B, END, OUT), "ok-stop", ("C07",), "post")
    o.clause("        res is Err ==> res->Err_0.cause is InvalidData && dec_err(%s, %s@, %s, final(%s)@, res->Err_0.error_range.0 as int, res->Err_0.output_bytes_written as int)," % (D, B, END, OUT), "err-start", ("C08",), "post")
    o.clause("        res is Err ==> dec_extent(%s, %s@, res->Err_0.error_range.0 as int, res->Err_0.error_range.1 as int)," % (D, B), "err-extent", ("C17",), "post")


def head(o, f, name=None, opt={}):
    if opt.get("iso"):
        o.put("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]")
    if opt.get("rl"):
        o.put("#[verifier::rlimit(%d)]" % opt["rl"])
    ps = ", ".join("%s: %s" % (n, t) for n, t in f["params"])
    o.put("pub fn %s%s(%s) -> (res: %s)" % (name or f["flat"], f["generics"], ps, f["ret"]), f["line"])


def weave(o, f, pre, loops, post=None):
    """Writes the body.  `loops`: id -> (clause writer, head proof text)."""
    body = f["body"]
    used = set()
    first = True
    i = 0
    while i < len(body):
        t, src = body[i]
        if first:
            if t != "{":
                raise Lost("body does not start with a block")
            o.put("{", src)
            for p in pre:
                o.put("    " + p)
            first = False
            i += 1
            continue
        nxt = body[i + 1][0] if i + 1 < len(body) else ""
        m = re.match(r"__loop_marker \( (\d+) \) ;$", nxt)
        if m:
            lid = int(m.group(1))
            if not t.endswith("{"):
                raise Lost("loop form")
            if lid in loops and len(loops[lid]) == 3:
                if not re.match(r"('\w+ : )?loop \{$", t.strip()):
                    raise Lost("loop form")
                for g in loops[lid][2]:
                    o.put("    " + g)
            o.put(t[:-1], src)
            if lid in loops:
                writer, hd = loops[lid][:2]
                writer()
                used.add(lid)
            else:
                raise Lost("a loop without a contract")
                hd = []
            o.put("{")
            for h in hd:
                o.put("    " + h)
            i += 2
            continue
        o.put(t, src)
        i += 1
    if used != set(loops):
        raise Lost("a loop contract was not used")


def strlits(f):
    pre = []
    for s in f["strs"]:
        body = s[1:-1]
        try:
            import ast
            txt = ast.literal_eval("'" + re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)), body).replace("'", "\\'") + "'")
        except Exception:
            raise Lost("string literal")
        seq = ", ".join("'\\u{%X}'" % ord(c) for c in txt)
        seq = "t%d(%s)" % (len(txt), seq) if len(txt) in (1, 2) else "seq![%s]" % seq if txt else "Seq::<char>::empty()"
        more = "" if txt else " assert(u8s(%s@) =~= Seq::<u8>::empty()) by { reveal(u8s); }" % s
        pre.append("proof { reveal_strlit(%s); assert(%s@ =~= %s);%s }" % (s, s, seq, more))
    return pre


def encoder(o, f, E, requires=None, opt={}):
    r = roles(f)
    if not (r["S"] and r["OUT"]):
        raise Lost("not an encoder's parameters")
    S, OUT, END = r["S"], r["OUT"], r["END"]
    E = E or ("EEnc::Sb { tab: %s@ }" % r["TAB"])
    o.fn = f["flat"]
    head(o, f, opt=opt)
    if requires:
        o.put("    requires " + requires % r)
    enc_contract(o, r, E)
    ext = []
    if r["TAB"]:
        o.put("        " + TAB_EXT["E"] % dict(r, EQ="==") + ",")
        ext = ["proof { assert(" + TAB_EXT["E"] % dict(r, EQ="=~=") + "); }"]
    ml = main_loop(f, OUT)
    loops = {}
    pre = []
    if ml is None:
        pre = ["proof { lemma_erun_empty(%s, %s@, 0, %s); lemma_off_step(%s@, 0); ax_slice_len(%s); ax_str_len(%s); assert(off(%s@, 0) == 0); lemma_off_mono(%s@, 0, %s@.len() as int); }" % (E, S, END, S, OUT, S, S, S, S)]
        for l in f["loops"]:
            # utf8: looks for the last boundary that fits
            if len(f["loops"]) > 1 or "v_is_char_boundary" not in l["methods"] or len(l["muts"]) != 1 or l["writes"]:
                raise Lost("loops, but none writes the output")

            def scan(J=l["muts"][0]):
                o.put("      invariant")
                o.clause("        %s <= %s@.len(), %s <= u8s(%s@).len(), forall|j: int| %s < j <= %s@.len() && j <= u8s(%s@).len() ==> !(#[trigger] is_off(%s@, j))," % (J, OUT, J, S, J, OUT, S, S), "scan", ("C03", "C04"), "inv")
                o.put("        %s@.len() == old(%s)@.len()," % (OUT, OUT))
                o.put("      ensures")
                o.clause("        is_off(%s@, %s as int), enc_cut(%s@, %s@.len() as int, %s as int)," % (S, J, S, OUT, J), "scan-exit", ("C03", "C04"), "inv")
                o.clause("      decreases %s" % J, "scan-terminates", ("C01",), "inv")
            loops[l["id"]] = (scan, ["proof { enc_scan(%s@, %s@.len() as int, %s as int); }" % (S, OUT, l["muts"][0])])
    else:
        O, I = ok_roles(f, ml, opt)
        if not O or not I:
            raise Lost("the index variables")
        it = ml["iter"]
        ii = ml["iter_init"]
        if it and (not ii or ii[1] != S or ii[0] not in ("v_char_indices", "v_chars")):
            raise Lost("the main loop's iterator")
        P = "%s.pos()" % it if it else "kof(ss, %s as int)" % I
        tail, inner = [], []
        for l in f["loops"]:
            if l["id"] == ml["id"]:
                continue
            if l["parent"] == ml["id"]:
                inner.append(l)
            elif not l["parent"] and "v_is_char_boundary" in l["methods"] and len(l["muts"]) == 1 and not l["writes"]:
                tail.append(l)
            else:
                raise Lost("an unknown loop")
        pre = ["let ghost mut gk: int = 0;", "let ghost ss = %s@;" % S, "let ghost ee = %s;" % E,
               "proof { lemma_erun_empty(ee, ss, 0, %s); lemma_off_step(ss, 0); lemma_off_mono(ss, 0, ss.len() as int); ax_slice_len(%s); ax_str_len(%s); lemma_kof(ss, 0); }" % (END, OUT, S)]
        exact = not tail or not it
        total = "off(ss, ss.len() as int)"
        if opt.get("want_aux"):
            opt["aux"] = [(ml["id"], t, "inv") for t in aux_candidates(f, ml, O, I, P, total, OUT, S, "E")]
            opt["want_aux"] = False

        def main():
            o.put("      invariant_except_break")
            o.clause("        0 <= %s <= ss.len(), erun(ee, ss, 0, %s, %s) is Some," % (P, P, END), "loop-run", ALL_E, "inv")
            o.clause("        front(%s@, %s as int, erun(ee, ss, 0, %s, %s)->0)," % (OUT, O, P, END), "loop-output", ("C03", "C05"), "inv")
            if exact:
                o.clause("        %s == off(ss, %s)," % (I, P), "loop-consumed", ("C03", "C04"), "inv")
            else:
                o.clause("        %s <= off(ss, %s), %s == 0 || off(ss, %s - 1) < %s," % (I, P, P, P, I), "loop-consumed", ("C03", "C04"), "inv")
            put_aux(o, opt, ml["id"], "exc")
            o.put("      invariant")
            if it:
                o.put("        %s.seq() == ss," % it)
            o.put("        ss == %s@, ee == (%s), off(ss, ss.len() as int) <= isize::MAX," % (S, E))
            o.put("        %s@.len() == old(%s)@.len(), %s@.len() <= isize::MAX, %s <= %s@.len(), %s <= off(ss, ss.len() as int)," % (OUT, OUT, OUT, O, OUT, I))
            if requires:
                o.put("        " + requires % r)
            put_aux(o, opt, ml["id"], "inv")
            o.put("      ensures")
            o.clause("        0 <= gk <= ss.len(), erun(ee, ss, 0, gk, %s) is Some," % END, "exit-run", ALL_E, "inv")
            o.clause("        front(%s@, %s as int, erun(ee, ss, 0, gk, %s)->0)," % (OUT, O, END), "exit-output", ("C03", "C05"), "inv")
            if exact:
                o.clause("        %s == off(ss, gk)," % I, "exit-consumed", ("C03", "C04"), "inv")
            else:
                o.clause("        %s <= off(ss, gk), gk == 0 || off(ss, gk - 1) < %s, off(ss, gk) <= off(ss, ss.len() as int)," % (I, I), "exit-consumed", ("C03", "C04"), "inv")
            o.clause("        estop(ee, ss, gk, %s, %s@.len() - %s)," % (END, OUT, O), "exit-stop", ("C04",), "inv")
            o.clause("      decreases ss.len() - %s" % P, "loop-terminates", ("C01",), "inv")
        loops[ml["id"]] = (main, strlits(f) + ext + ["proof { gk = %s; enc_head(ee, ss, gk, %s); lemma_kof(ss, gk); lemma_kof(ss, gk + 1); lemma_kof(ss, gk + 2); }" % (P, END)])
        for l in inner:
            loops[l["id"]] = copy_loop(o, f, l, O, OUT)
        for n, l in enumerate(tail):
            # names of the text's length
            conds = [v for v in l["cond_vars"] if len(f["lets"].get(v, [])) == 1 and not f["lets"][v][0][1] and f["lets"][v][0][0] == "%s . v_len ( )" % S]

            def t(J=l["muts"][0], conds=conds):
                o.put("      invariant_except_break")
                o.clause("        0 <= gk <= ss.len(), %s <= off(ss, gk), gk == 0 || off(ss, gk - 1) < %s," % (J, J), "tail-consumed", ("C03", "C04"), "inv")
                o.put("      invariant")
                o.put("        0 <= gk <= ss.len(), ss == %s@, ee == (%s), off(ss, ss.len() as int) <= isize::MAX," % (S, E))
                o.put("        %s@.len() == old(%s)@.len(), %s@.len() <= isize::MAX, %s <= %s@.len(), %s <= off(ss, ss.len() as int)," % (OUT, OUT, OUT, O, OUT, J))
                o.put("        erun(ee, ss, 0, gk, %s) is Some, front(%s@, %s as int, erun(ee, ss, 0, gk, %s)->0)," % (END, OUT, O, END))
                o.put("        estop(ee, ss, gk, %s, %s@.len() - %s)," % (END, OUT, O))
                for v in conds:
                    o.put("        %s == %s," % (v, total))
                o.put("      ensures")
                o.clause("        %s == off(ss, gk)," % J, "tail-boundary", ("C03", "C04"), "inv")
                o.clause("      decreases off(ss, gk) - %s" % J, "tail-terminates", ("C01",), "inv")
            loops[l["id"]] = (t, ["proof { enc_tail(ss, gk, %s as int); }" % l["muts"][0]])
    weave(o, f, strlits(f) + ext + pre, loops)
    o.fn = None


def decoder(o, f, D, requires=None, opt={}):
    r = roles(f)
    if not (r["B"] and r["OUT"]):
        raise Lost("not a decoder's parameters")
    B, OUT, END = r["B"], r["OUT"], r["END"]
    D = D or ("DEnc::Sb { tab: %s@ }" % r["TAB"])
    o.fn = f["flat"]
    head(o, f, opt=opt)
    if requires:
        o.put("    requires " + requires % r)
    dec_contract(o, r, D)
    ext = []
    if r["TAB"]:
        o.put("        " + TAB_EXT["D"] % dict(r, EQ="==") + ",")
        ext = ["proof { assert(" + TAB_EXT["D"] % dict(r, EQ="=~=") + "); }"]
    ml = main_loop(f, OUT)
    loops = {}
    pre = []
    if ml is None:
        if f["loops"]:
            raise Lost("loops, but none writes the output")
    else:
        O, I = ok_roles(f, ml, opt)
        if not O or not I:
            raise Lost("the index variables")
        it = ml["iter"]
        ii = ml["iter_init"]
        inner = [l for l in f["loops"] if l["id"] != ml["id"]]
        if any(l["parent"] != ml["id"] for l in inner):
            raise Lost("an unknown loop")
        if it and (not ii or ii[1] != B or ii[0] not in ("v_iter", "v_chunks")):
            raise Lost("the main loop's iterator")
        pre = ["let ghost bb = %s@;" % B, "let ghost dd = %s;" % D,
               "proof { lemma_drun_empty(dd, bb, 0); ax_slice_len(%s); ax_slice_len(%s); }" % (OUT, B)]
        if opt.get("want_aux"):
            opt["aux"] = [(ml["id"], t, "inv") for t in aux_candidates(f, ml, O, I, I, "bb.len()", OUT, B, "D")]
            opt["want_aux"] = False

        def main():
            o.put("      invariant_except_break")
            o.clause("        0 <= %s <= bb.len(), drun(dd, bb, 0, %s as int) is Some," % (I, I), "loop-run", ("C02", "C06", "C08"), "inv")
            if it:
                o.clause("        %s.pos() == %s," % (it, I), "loop-consumed", ("C06", "C07", "C08", "C17"), "inv")
            put_aux(o, opt, ml["id"], "exc")
            o.put("      invariant")
            if it:
                o.put("        %s.seq() == bb," % it)
                if ii[0] == "v_chunks":
                    o.put("        %s.n() == %s," % (it, ii[2]))
            o.put("        bb == %s@, dd == (%s), bb.len() <= isize::MAX," % (B, D))
            o.put("        %s@.len() == old(%s)@.len(), %s@.len() <= isize::MAX, %s <= %s@.len()," % (OUT, OUT, OUT, O, OUT))
            if requires:
                o.put("        " + requires % r)
            put_aux(o, opt, ml["id"], "inv")
            o.clause("        0 <= %s <= bb.len(), drun(dd, bb, 0, %s as int) is Some," % (I, I), "exit-run", ("C02", "C06", "C08"), "inv")
            o.clause("        front(%s@, %s as int, drun(dd, bb, 0, %s as int)->0)," % (OUT, O, I), "loop-output", ("C02", "C06", "C08"), "inv")
            o.put("      ensures")
            o.clause("        dstop(dd, bb, %s as int, %s, %s@.len() - %s)," % (I, END, OUT, O), "exit-stop", ("C07",), "inv")
            o.clause("      decreases bb.len() - %s" % I, "loop-terminates", ("C01",), "inv")
        loops[ml["id"]] = (main, strlits(f) + ext + ["proof { dec_head(dd, bb, %s as int); }" % I])
        for l in inner:
            loops[l["id"]] = copy_loop(o, f, l, O, OUT)
    weave(o, f, strlits(f) + ext + pre, loops)
    o.fn = None


def copy_len(o, f, opt={}):
    """utf8's helper that cuts a text's bytes to a length."""
    o.fn = f["flat"]
    if opt.get("iso"):
        o.put("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]")
    (i, _), (n, _) = f["params"]
    o.put("pub fn %s(%s: &[u8], %s: usize) -> (res: usize)" % (f["flat"], i, n), f["line"])
    o.put("    requires lead_ok(%s@)" % i)
    o.put("    ensures")
    o.clause("        cut(%s@, %s as int, res as int)," % (i, n), "cut", ("C03", "C04", "C06", "C07"), "post")
    loops = {}
    if len(f["loops"]) == 1:
        l = f["loops"][0]
        if len(l["muts"]) != 1 or l["writes"]:
            raise Lost("an unknown loop")
        v = l["muts"][0]
        # where the scan stands: at v, or v before the length it starts from
        x, pre = (v, "") if norm(init_of(f, v)) not in ("0", "0usize") else ("(%s - %s)" % (n, v), "%s <= %s, " % (v, n))

        def w():
            o.put("      invariant lead_ok(%s@), %s" % (i, pre))
            o.clause("        %s <= %s, %s < %s@.len(), forall|j: int| %s < j <= %s ==> cont(#[trigger] %s@[j])," % (x, n, n, i, x, n, i), "scan", ("C03", "C04", "C06", "C07"), "inv")
            o.put("      ensures")
            o.clause("        %s == 0 || !cont(%s@[%s as int])," % (x, i, x), "scan-exit", ("C03", "C04", "C06", "C07"), "inv")
            o.clause("      decreases %s" % x, "scan-terminates", ("C01",), "inv")
        loops[l["id"]] = (w, [])
    elif f["loops"]:
        raise Lost("loops")
    weave(o, f, [], loops)
    o.fn = None


def utf8_decoder(o, f, opt={}):
    r = roles(f)
    B, OUT, END = r["B"], r["OUT"], r["END"]
    if not (B and OUT):
        raise Lost("not a decoder's parameters")
    if main_loop(f, OUT):
        return decoder(o, f, "DEnc::Utf8", None, opt)
    o.fn = f["flat"]
    head(o, f, opt=opt)
    dec_contract(o, r, "DEnc::Utf8")
    loops = {}
    text = " ".join(t for t, _ in f["body"])
    for l in f["loops"]:
        if len(l["muts"]) != 1 or l["writes"] or l["parent"]:
            raise Lost("an unknown loop")
        i = l["muts"][0]
        los = {alias(f, m.group(1)) for m in re.finditer(r"error_range : \( (\w+) , \w+ \)", text)}
        start = re.match(r"(\w+) \+ 1$", init_of(f, i))
        if len(los) != 1 and not start:
            raise Lost("the error range")
        lo = los.pop() if len(los) == 1 else alias(f, start.group(1))
        n, it = l["id"], l["iter"]
        ghosts = []
        if it:      # over what follows the first byte
            sub = re.match(r"(?:& )?%s \[ (.*) \.\. \]$" % re.escape(B), l["iter_init"][1]) if l["iter_init"] else None
            if not sub or l["iter_init"][0] != "v_iter" or any(l["iter_init"][2:]):
                raise Lost("an unknown loop")
            if norm(init_of(f, i)) in ("0", "0usize") and re.match(r"[\w ()+]+$", sub.group(1)):
                # the loop counts the items: where it stands is as far from where they begin
                i = "((%s) + %s)" % (sub.group(1), i)
            ghosts = ["let ghost sq__%d = %s.seq();" % (n, it), "let ghost i0__%d = %s as int;" % (n, i)]

        def w():
            o.put("      invariant")
            o.put("        %s@.len() <= isize::MAX," % B)
            if it:
                o.put("        sq__%d == %s.seq(), 0 <= %s.pos() <= sq__%d.len(), %s == i0__%d + %s.pos(), %s@.skip(i0__%d) =~= sq__%d," % (n, it, it, n, i, n, it, B, n, n))
            o.clause("        %s < %s <= %s@.len(), forall|j: int| %s < j < %s ==> !u8_starter(#[trigger] %s@[j])," % (lo, i, B, lo, i, B), "error-extent", ("C17",), "inv")
            if it:
                o.clause("      decreases sq__%d.len() - %s.pos()" % (n, it), "extent-terminates", ("C01",), "inv")
            else:
                o.clause("      decreases %s@.len() - %s" % (B, i), "extent-terminates", ("C01",), "inv")
        loops[l["id"]] = (w, [], ghosts) if ghosts else (w, [])
    weave(o, f, ["proof { lemma_drun_empty(DEnc::Utf8, %s@, 0); ax_slice_len(%s); ax_slice_len(%s); }" % (B, OUT, B)], loops)
    o.fn = None


# --------------------------------------------------------------------------

def read(p):
    return open(p).read()


def std_decls(std):
    """Names for the frozen published tables (their content enters through
    ground evaluation)."""
    t = ["/// US-ASCII assigns nothing above 0x7F.",
         "pub open spec fn ascii_tab() -> Seq<char> { Seq::new(128, |i: int| REPL) }",
         "pub open spec fn tab128(t: Seq<char>) -> bool { t.len() == 128 }"]
    for m in ["single_byte__" + s for s in std.SINGLE]:
        t.append("pub uninterp spec fn std_enc_%s() -> Seq<(char, u8)>;" % m)
        t.append("pub uninterp spec fn std_dec_%s() -> Seq<char>;" % m)
    for m in ("big5_whatwg", "shiftjis_whatwg"):
        t.append("pub uninterp spec fn std_enc_%s() -> Seq<(char, [u8; 2])>;" % m)
        t.append("pub uninterp spec fn std_dec_%s() -> Seq<char>;" % m)
    t.append("""/// Ground fact about the frozen index (evaluated on every run).
#[verifier::external_body]
pub broadcast proof fn ax_big5_bases(c: char)
    requires b5_base(c)
    ensures #[trigger] has2(std_enc_big5_whatwg(), c)
{ }""")
    t.append("""#[verifier::external_body]
pub broadcast proof fn ax_big5_pairs(i: int)
    requires i == 1133 || i == 1135 || i == 1164 || i == 1166
    ensures #[trigger] std_dec_big5_whatwg()[i] == REPL
{ }""")
    return "\n".join(t)


def const_decl(name, ty, sp, is_sorted=True):
    """A table constant of the code; what is assumed of it is established by
    complete evaluation (ground obligations) on every run."""
    n = norm(ty)
    m = re.match(r"\[(.*);(\d+)\]$", n)
    if not m:
        raise Lost("type of " + name)
    el = {"char": "'a'", "(char,u8)": "('a', 0u8)", "(char,[u8;2])": "('a', [0u8, 0u8])"}.get(m.group(1))
    if el is None:
        raise Lost("type of " + name)
    ex = ", %s@.len() == %s" % (name, m.group(2))
    if "(" in n and is_sorted:
        ex += ", sorted%s(%s@)" % ("2" if "[u8;2]" in m.group(1) else "1", name)
    return ("#[verifier::external_body]\npub exec const %s: %s\n    ensures %s@ == %s%s\n{ [%s; %s] }"
            % (name, ty, name, sp, ex, el, m.group(2)))


INV = {"E": ("C01",) + ALL_E, "D": ("C01",) + ALL_D}


def begin(root, std, x, extra_lemmas=""):
    o = Out()
    o.put(PRELUDE)
    for f in ("spec.rs", "shims.rs", "bits.rs", "lemmas.rs", "utf8.rs", "core.rs"):
        o.put(read("%s/contracts/%s" % (root, f)))
    o.put(types_of(x))
    o.put(std_decls(std))
    o.put("}")
    return o


USES = {
    "8": "broadcast use {bit_lemmas, utf8_lemmas};",
    "E": "broadcast use {bit_lemmas, enc_lemmas, ax_big5_bases};",
    "D": "broadcast use {bit_lemmas, dec_lemmas, ax_big5_pairs};",
}


def finish(o):
    o.put("fn main() {}")
    o.put("}")
    return o


# What the single-byte functions over a table parameter require of it.
TAB_REQ = {
    "E": "sorted1(%(TAB)s@),",
    "D": "tab128(%(TAB)s@),",
}
# An extensionality fact their callers need: equal tables are the same value.
TAB_EXT = {
    "E": "%(TAB)s@.len() == 0 ==> %(TAB)s@ %(EQ)s Seq::<(char, u8)>::empty()",
    "D": "(forall|i: int| 0 <= i < 128 ==> #[trigger] %(TAB)s@[i] == REPL) ==> %(TAB)s@ %(EQ)s ascii_tab()",
}
