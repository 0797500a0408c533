"""The lemma unit: every lemma the function proofs use (module k), the theorems
that several-call properties are (module p), and, per encoding, callers of the
real functions (their contracts only) whose assertions are the property
(module q)."""
import os, re
import std, units, ground, verus, plan
from units import Lost

DEC_NAMES = {"E": "EEnc", "D": "DEnc"}


def table_facts():
    """Axioms of module p, each with the ground fact that decides it."""
    t = []
    for m in ["single_byte__" + s for s in std.SINGLE]:
        t.append(("fact/%s tables are inverse" % m, m, "#[verifier::external_body] pub proof fn fact_%s() ensures inv1(std_enc_%s(), std_dec_%s()) { }" % (m, m, m)))
    t.append(("fact/big5_whatwg tables are inverse", "big5_whatwg", "#[verifier::external_body] pub proof fn fact_big5_whatwg() ensures inv_b5(std_enc_big5_whatwg(), std_dec_big5_whatwg()) { }"))
    t.append(("fact/shiftjis_whatwg tables are inverse", "shiftjis_whatwg", "#[verifier::external_body] pub proof fn fact_shiftjis_whatwg() ensures inv_sj(std_enc_shiftjis_whatwg(), std_dec_shiftjis_whatwg()) { }"))
    return t


def call(r, f, kind, s, out, end):
    a = []
    for n, _ in f["params"]:
        a.append({r["S"]: s, r["B"]: s, r["OUT"]: out, r["END"]: end}[n])
    return "%s(%s)" % (f["flat"], ", ".join(a))


Q_HEAD = """
pub open spec fn eres(v_r: Result<(&[u8], usize), EncodeError>) -> ERes {
    match v_r { Ok((v_x, v_n)) => ERes::Ok { r: v_x@, n: v_n as int },
        Err(v_e) => ERes::Err { c: v_e.character, lo: v_e.error_range.0 as int, hi: v_e.error_range.1 as int, w: v_e.output_bytes_written as int } }
}
pub open spec fn dres(v_r: Result<(&str, usize), DecodeError>) -> DRes {
    match v_r { Ok((v_x, v_n)) => DRes::Ok { t: u8s(v_x@), n: v_n as int },
        Err(v_e) => DRes::Err { lo: v_e.error_range.0 as int, hi: v_e.error_range.1 as int, w: v_e.output_bytes_written as int } }
}
pub open spec fn is_e(c: ECall, e: EEnc, g: Seq<char>, a: int, len: int, end: bool, room: int, r: ERes) -> bool {
    ecall(e, g, c) && c.a == a && c.b == a + len && c.end == end && c.old_len == room && c.res == r
}
pub open spec fn is_d(c: DCall, d: DEnc, g: Seq<u8>, a: int, len: int, end: bool, room: int, r: DRes) -> bool {
    dcall(d, g, c) && c.a == a && c.b == a + len && c.end == end && c.old_len == room && c.res == r
}
"""


def step_e(m, f, r, E):
    """A call in the middle of a text, as a caller sees it."""
    flag = r["END"] != "true"
    end = "v_end" if flag else "true"
    return """
/// One call of the real encoder on characters a..a+len of a text.
pub fn chunk_%(m)s<'a>(v_s: &str, v_out: &'a mut [u8], v_end: bool, Ghost(v_g): Ghost<Seq<char>>, Ghost(v_a): Ghost<int>) -> (v_q: Result<(&'a [u8], usize), EncodeError>)
    requires 0 <= v_a, v_a + v_s@.len() <= v_g.len(), v_s@ == v_g.subrange(v_a, v_a + v_s@.len()), v_end ==> v_a + v_s@.len() == v_g.len()
    ensures exists|c: ECall| #[trigger] is_e(c, %(E)s, v_g, v_a, v_s@.len() as int, v_end, old(v_out)@.len() as int, eres(v_q))
{
    let ghost v_len = v_out@.len() as int;
    let ghost v_f = final(v_out)@;
    let v_r = %(call)s;
    proof {
        match eres(v_r) {
            ERes::Ok { r, n } => { %(nf1)s }
            ERes::Err { c, lo, hi, w } => { %(nf2)s }
        }
        let v_c = ECall { a: v_a, b: v_a + v_s@.len(), end: v_end, old_len: v_len, out: v_f, res: eres(v_r) };
        assert(is_e(v_c, %(E)s, v_g, v_a, v_s@.len() as int, v_end, v_len, eres(v_r)));
    }
    v_r
}
""" % {"m": m, "E": E, "call": call(r, f, "E", "v_s", "v_out", end),
       "nf1": "" if flag else "if !v_end { thm_c09_no_flag(%s, v_s@, v_f, r, n, v_len, 'a', 0, 0, 0); }" % E,
       "nf2": "" if flag else "if !v_end { thm_c09_no_flag(%s, v_s@, v_f, Seq::empty(), 0, v_len, c, lo, hi, w); }" % E}


def step_d(m, f, r, D, sb):
    flag = r["END"] != "true"
    end = "v_end" if flag else "true"
    return """
/// One call of the real decoder on bytes a..a+len of an input.
pub fn dchunk_%(m)s<'a>(v_s: &[u8], v_out: &'a mut [u8], v_end: bool, Ghost(v_g): Ghost<Seq<u8>>, Ghost(v_a): Ghost<int>) -> (v_q: Result<(&'a str, usize), DecodeError>)
    requires 0 <= v_a, v_a + v_s@.len() <= v_g.len(), v_s@ == v_g.subrange(v_a, v_a + v_s@.len()), v_end ==> v_a + v_s@.len() == v_g.len()
    ensures exists|c: DCall| #[trigger] is_d(c, %(D)s, v_g, v_a, v_s@.len() as int, v_end, old(v_out)@.len() as int, dres(v_q))
{
    %(fact)s
    let ghost v_len = v_out@.len() as int;
    let ghost v_f = final(v_out)@;
    let v_r = %(call)s;
    proof {
        match dres(v_r) {
            DRes::Ok { t, n } => { %(nf1)s }
            DRes::Err { lo, hi, w } => { %(nf2)s }
        }
        let v_c = DCall { a: v_a, b: v_a + v_s@.len(), end: v_end, old_len: v_len, out: v_f, res: dres(v_r) };
        assert(is_d(v_c, %(D)s, v_g, v_a, v_s@.len() as int, v_end, v_len, dres(v_r)));
    }
    v_r
}
""" % {"m": m, "D": D, "call": call(r, f, "D", "v_s", "v_out", end), "fact": fact(m) if sb else "",
       "nf1": "" if flag else "if !v_end { thm_c10_no_flag(%s, v_s@, n, v_len - t.len(), v_f, 0, 0); }" % D,
       "nf2": "" if flag else "if !v_end { thm_c10_no_flag(%s, v_s@, 0, 0, v_f, lo, w); }" % D}


def fact(m):
    if m.startswith("utf"):
        return ""
    return "proof { %s(); }" % ("thm_c12_ascii" if m == "single_byte__ascii" else "fact_" + m)


def round_c15(m, E, D):
    return """
/// C15 for the real functions: what is encoded completely decodes to the text.
pub fn c15_%(m)s(v_s: &str, v_buf: &mut [u8], v_tbuf: &mut [u8])
    requires old(v_tbuf)@.len() >= u8s(v_s@).len(), forall|j: int| 0 <= j < v_s@.len() ==> !folded(%(E)s, #[trigger] v_s@[j])
{
    %(fact)s
    let ghost v_g = v_s@;
    assert(v_g.subrange(0, v_g.len() as int) =~= v_g);
    let ghost v_er = v_buf@.len() as int;
    let v_r = chunk_%(m)s(v_s, v_buf, true, Ghost(v_g), Ghost(0int));
    let ghost v_ec = choose|c: ECall| is_e(c, %(E)s, v_g, 0, v_s@.len() as int, true, v_er, eres(v_r));
    match v_r {
        Ok((v_x, v_n)) => {
            if v_n == v_s.v_len() {
                let ghost v_b = v_x@;
                assert(v_b.subrange(0, v_b.len() as int) =~= v_b);
                let ghost v_dr = v_tbuf@.len() as int;
                let v_t = dchunk_%(m)s(v_x, v_tbuf, true, Ghost(v_b), Ghost(0int));
                let ghost v_dc = choose|c: DCall| is_d(c, %(D)s, v_b, 0, v_x@.len() as int, true, v_dr, dres(v_t));
                proof { thm_c15_round_trip(%(E)s, %(D)s, v_g, v_ec, v_dc); }
                match v_t {
                    Ok((v_y, v_k)) => {
                        proof { u8s_inj(v_y@, v_g); }
                        assert(v_y@ == v_s@);
                        assert(v_k == v_x@.len());
                    }
                    Err(v_e) => { assert(false); }
                }
            }
        }
        Err(v_e) => { }
    }
}
""" % {"m": m, "E": E, "D": D, "fact": fact(m)}


def round_c16(m, E, D):
    return """
/// C16 for the real functions: what decodes completely encodes to the bytes.
pub fn c16_%(m)s(v_s: &[u8], v_buf: &mut [u8], v_tbuf: &mut [u8])
    requires old(v_buf)@.len() >= v_s@.len()
{
    %(fact)s
    let ghost v_g = v_s@;
    assert(v_g.subrange(0, v_g.len() as int) =~= v_g);
    let ghost v_dr = v_tbuf@.len() as int;
    let v_r = dchunk_%(m)s(v_s, v_tbuf, true, Ghost(v_g), Ghost(0int));
    let ghost v_dc = choose|c: DCall| is_d(c, %(D)s, v_g, 0, v_s@.len() as int, true, v_dr, dres(v_r));
    match v_r {
        Ok((v_x, v_n)) => {
            if v_n == v_s.v_len() {
                let ghost v_b = v_x@;
                assert(v_b.subrange(0, v_b.len() as int) =~= v_b);
                let ghost v_er = v_buf@.len() as int;
                let v_t = chunk_%(m)s(v_x, v_buf, true, Ghost(v_b), Ghost(0int));
                let ghost v_ec = choose|c: ECall| is_e(c, %(E)s, v_b, 0, v_x@.len() as int, true, v_er, eres(v_t));
                proof { thm_c16_round_trip(%(E)s, %(D)s, v_g, v_dc, v_b, v_ec); }
                match v_t {
                    Ok((v_y, v_k)) => { assert(v_y@ == v_s@); assert(v_k == off(v_b, v_b.len() as int)); }
                    Err(v_e) => { assert(false); }
                }
            }
        }
        Err(v_e) => { }
    }
}
""" % {"m": m, "E": E, "D": D, "fact": fact(m)}


def round_c11(m, E, D):
    return """
/// C11 for the real functions.
pub fn c11e_%(m)s(v_s: &str, v_buf: &mut [u8])
    requires old(v_buf)@.len() >= uform(%(E)s, v_s@).len()
{
    let ghost v_g = v_s@;
    assert(v_g.subrange(0, v_g.len() as int) =~= v_g);
    let ghost v_er = v_buf@.len() as int;
    let v_r = chunk_%(m)s(v_s, v_buf, true, Ghost(v_g), Ghost(0int));
    let ghost v_ec = choose|c: ECall| is_e(c, %(E)s, v_g, 0, v_s@.len() as int, true, v_er, eres(v_r));
    proof { let k = thm_c11_encode(%(E)s, v_g, v_ec); assert(v_g.take(v_g.len() as int) =~= v_g); }
    match v_r {
        Ok((v_x, v_n)) => { assert(v_x@ == uform(%(E)s, v_s@)); }
        Err(v_e) => { assert(false); }
    }
}
pub fn c11d_%(m)s(v_s: &[u8], v_tbuf: &mut [u8], Ghost(v_y): Ghost<Seq<char>>)
{
    let ghost v_g = v_s@;
    let ghost v_room = v_tbuf@.len();
    assert(v_g.subrange(0, v_g.len() as int) =~= v_g);
    let ghost v_dr = v_tbuf@.len() as int;
    let v_r = dchunk_%(m)s(v_s, v_tbuf, true, Ghost(v_g), Ghost(0int));
    let ghost v_dc = choose|c: DCall| is_d(c, %(D)s, v_g, 0, v_s@.len() as int, true, v_dr, dres(v_r));
    match v_r {
        Ok((v_x, v_n)) => {
            let ghost v_t = thm_c11_decode_sound(%(D)s, v_g, v_dc);
            proof { u8s_inj(v_t, v_x@); if v_g == uform(%(E)s, v_y) && v_room >= u8s(v_y).len() { thm_c11_decode_complete(%(D)s, v_y, v_dc); u8s_inj(v_y, v_x@); } }
            assert(v_s@.subrange(0, v_n as int) == uform(%(E)s, v_x@));
            assert(v_g == uform(%(E)s, v_y) && v_room >= u8s(v_y).len() ==> v_n == v_s@.len() && v_x@ == v_y);
        }
        Err(v_e) => {
            proof { thm_c11_decode_rejects(%(D)s, v_g, v_dc, v_y); }
            assert(v_s@ != uform(%(E)s, v_y));
        }
    }
}
""" % {"m": m, "E": E, "D": D}


def round_c12(m, E, D):
    return """
/// C12 for the real functions.
pub fn c12_%(m)s(v_s: &str, v_i: &[u8], v_buf: &mut [u8], v_tbuf: &mut [u8])
{
    %(fact)s
    let ghost v_g = v_s@;
    let ghost v_dt = dtab(%(D)s);
    assert(v_g.subrange(0, v_g.len() as int) =~= v_g);
    let ghost v_er = v_buf@.len() as int;
    let v_r = chunk_%(m)s(v_s, v_buf, true, Ghost(v_g), Ghost(0int));
    let ghost v_ec = choose|c: ECall| is_e(c, %(E)s, v_g, 0, v_s@.len() as int, true, v_er, eres(v_r));
    proof { thm_c12_call_encode(%(E)s, %(D)s, v_g, v_ec); }
    let ghost v_b = v_i@;
    assert(v_b.subrange(0, v_b.len() as int) =~= v_b);
    let ghost v_dr = v_tbuf@.len() as int;
    let v_t = dchunk_%(m)s(v_i, v_tbuf, true, Ghost(v_b), Ghost(0int));
    let ghost v_dc = choose|c: DCall| is_d(c, %(D)s, v_b, 0, v_i@.len() as int, true, v_dr, dres(v_t));
    match v_t {
        Ok((v_y, v_k)) => {
            proof { thm_c12_call_decode(%(D)s, v_b, v_dc, v_y@); }
            assert(v_y@.len() == v_k);
            assert(forall|j: int| 0 <= j < v_k ==> chart(v_dt, #[trigger] v_i@[j]) == Some(v_y@[j]));
        }
        Err(v_e) => {
            proof { thm_c12_call_decode(%(D)s, v_b, v_dc, Seq::empty()); }
            assert(chart(v_dt, v_i@[v_e.error_range.0 as int]) is None);
        }
    }
}
""" % {"m": m, "E": E, "D": D, "fact": fact(m)}


def theorem_props(name):
    m = re.match(r"thm_c(\d\d)_", name)
    return "C" + m.group(1) if m else None


SUPPORT = "lemma/support: "


def compose(prop, code):
    o = units.begin(plan.HERE, std, code.x)
    names, facts, skipped = [], [], {}
    o.put("pub mod p { use vstd::prelude::*; use super::k::*;")
    T = dict(ground.std_facts())
    for ob, m, t in table_facts():
        o.put(t)
        facts.append((ob, m, T.get(m + "/inverse", False)))
    for f in ("props.rs", "props2.rs"):
        o.put(units.read("%s/contracts/%s" % (plan.HERE, f)))
    o.put("}")
    o.put("pub mod q { use vstd::prelude::*; use super::k::*; use super::p::*;")
    o.put(Q_HEAD)
    mods = [m for m in plan.MODULES if prop in callers(plan.sname(m))]
    for m in mods:
        s = plan.sname(m)
        group = "single_byte" if m.startswith("single_byte") else m
        n = len(o.lines)
        try:
            both = {}
            for k, fn in (("E", "encode_from_str"), ("D", "decode_to_str")):
                f = code.x["fns"].get("%s__%s" % (s, fn))
                if not f or not code.kind(f):
                    raise Lost("the function is not found in the source")
                v = code.spec_value(f, k)
                if "act_" in v:
                    raise Lost("a table differs from the published one")
                u = plan.Unit.__new__(plan.Unit)
                u.code, u.group, u.dir, u.opts = code, group, k, {}
                u.add(o, f, False)
                both[k] = (f, code.roles(f), v)
            (fe, re_, E), (fd, rd, D) = both["E"], both["D"]
            txt = []
            want = callers(s)[prop]
            o.put(step_e(s, fe, re_, E) if "e" in want else "")
            o.put(step_d(s, fd, rd, D, group == "single_byte") if "d" in want else "")
            if "e" in want:
                txt.append(("chunk_" + s))
            if "d" in want:
                txt.append(("dchunk_" + s))
            for p, g, w in (("C15", round_c15, ["c15_"]), ("C16", round_c16, ["c16_"]), ("C11", round_c11, ["c11e_", "c11d_"]), ("C12", round_c12, ["c12_"])):
                if p == prop:
                    o.put(g(s, E, D))
                    txt += [x + s for x in w]
            names += txt
        except Lost as e:
            o.lines, o.info = o.lines[:n], o.info[:n]
            o.fn = None
            skipped[m] = str(e)
    o.put(PROBE)
    o.put("}")
    units.finish(o)
    return o, names, facts, skipped


def callers(s):
    """property -> which call steps its callers use, for a module."""
    r = {"C09": "e", "C10": "d", "C15": "ed"}
    if s.startswith("utf"):
        r.update(C11="ed", C16="ed")
    elif s.startswith("single_byte"):
        r.update(C12="ed", C16="ed")
    return r


PROBE = """
// Must fail: the assumptions and facts in scope are not contradictory.
proof fn vacuity_probe(ee: EEnc, dd: DEnc, ss: Seq<char>, bb: Seq<u8>, ec: ECall, dc: DCall)
    requires matched(ee, dd), whole_e(ee, ss, ec), whole_d(dd, bb, dc), ss.len() > 0, bb.len() > 0
{
    fact_big5_whatwg(); fact_shiftjis_whatwg(); fact_single_byte__iso_8859_2();
    let a = off(ss, 1); let b = estep(ee, ss, 0, true); let c = dstep(dd, bb, 0); let d = u8s(ss);
    assert(false); // vacuity_probe
}
"""


def run(prop, code, work):
    res = {"obligations": [], "discharged": [], "failed": {}, "names": [], "run": None, "smt_ms": 0, "ground": 0}
    o, names, facts, skipped = compose(prop, code)
    text = o.text()
    # Every proof function of modules k and p, by line.
    where, cur = {}, None
    ext = False
    for i, l in enumerate(o.lines):
        if "external_body" in l:
            ext = True
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open )?(?:broadcast )?(proof|spec|exec|uninterp spec)? ?fn (\w+)", l)
        if m:
            cur = m.group(2) if not (ext and "external_body" in l or ext) else None
            if m.group(1) not in ("proof",) and not (cur or "").startswith(("chunk_", "dchunk_", "c11", "c12", "c15", "c16")):
                cur = None
            ext = False
        if cur:
            where[i] = cur
    lem = sorted(set(where.values()) - {"vacuity_probe"})
    mine = [n for n in lem if theorem_props(n) == prop]
    support = [n for n in lem if not theorem_props(n) and n not in names]
    uses = {"C13": "Big5", "C14": "Shift"}
    path = os.path.join(work, "lemmas.rs")
    open(path, "w").write(text)
    r = verus.run(path, rlimit=60, timeout=600)
    j = r["json"] or {}
    res["run"] = {"unit": "lemmas", "functions_verified_by_verus": (j.get("verification-results") or {}).get("verified", 0),
                  "runs": [{"cmd": r["cmd"], "wall": round(r["wall"], 1), "rc": r["rc"], "results": j.get("verification-results"), "timeout": r["timeout"]}]}
    try:
        res["smt_ms"] = j["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        pass
    bad, probe, hard = {}, False, None
    for d in r["diags"]:
        if d["level"] != "error" or d["message"].startswith("aborting"):
            continue
        ln = [s["line_start"] - 1 for s in d["spans"] if s["file_name"].endswith("lemmas.rs")]
        if any("vacuity_probe" in o.lines[i] for i in ln):
            probe = True
            continue
        w = [where.get(i) for i in ln]
        w = [x for x in w if x]
        # the span that is not a precondition's own text
        f = next((where.get(s["line_start"] - 1) for s in d["spans"] if s["is_primary"] and where.get(s["line_start"] - 1)), None) or (w[-1] if w else None)
        if f:
            bad[f] = d["message"]
            for x in w:
                bad.setdefault(x, d["message"])
        else:
            hard = d["message"]
    if r["timeout"]:
        hard = "the verifier did not finish"
    elif (j.get("verification-results") or {}).get("encountered-vir-error") or not j:
        hard = hard or next(iter(bad.values()), "the verifier cannot take the unit: " + r["stderr"][-300:])
    elif not probe:
        hard = hard or "vacuous: the verifier proved the probe that must fail"
    group = {"C12": ("single_byte",), "C13": ("big5_whatwg",), "C14": ("shiftjis_whatwg",), "C15": ("single_byte", "big5_whatwg", "shiftjis_whatwg"), "C16": ("single_byte",)}.get(prop, ())
    for n in mine + names:
        ob = "lemma/" + n
        res["obligations"].append(ob)
        if hard or n in bad:
            res["failed"][ob] = hard or bad[n]
        else:
            res["discharged"].append(ob)
    for n in support:
        ob = SUPPORT + n
        res["obligations"].append(ob)
        if hard or n in bad:
            res["failed"][ob] = hard or bad[n]
        else:
            res["discharged"].append(ob)
    for ob, m, ok in facts:
        if m.startswith(group) if group else False:
            res["obligations"].append(ob)
            res["ground"] += 1
            if ok:
                res["discharged"].append(ob)
            else:
                res["failed"][ob] = "the fact is false of the frozen tables"
    for m, why in skipped.items():
        res["failed"]["lemma/callers of " + m] = why
    res["names"] = mine + names
    return res
