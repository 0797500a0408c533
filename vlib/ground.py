"""Ground obligations: facts about finite tables, decided by evaluating them
completely.  The tables are compiled from the source text with rustc and dumped."""
import os, re, subprocess
import std

B5_PAIRS = {1133, 1135, 1164, 1166}


def dump_tables(tables_rs, work):
    """[(name, type text, rows)] of every table constant in the source, or an error text."""
    src = open(tables_rs).read()
    names = []
    for line in src.splitlines():
        if line.startswith("// "):
            p = line[3:].split(" ", 2)
            names.append((p[0], p[2]))
        else:
            break
    prog = ["#![allow(warnings)]", src,
            "trait P { fn p(&self); }",
            "impl P for char { fn p(&self) { print!(\"{:x} \", *self as u32) } }",
            "impl P for u8 { fn p(&self) { print!(\"{:x} \", *self) } }",
            "impl P for u16 { fn p(&self) { print!(\"{:x} \", *self) } }",
            "impl P for u32 { fn p(&self) { print!(\"{:x} \", *self) } }",
            "impl<T: P, const N: usize> P for [T; N] { fn p(&self) { for x in self.iter() { x.p() } } }",
            "impl<A: P, B: P> P for (A, B) { fn p(&self) { self.0.p(); self.1.p(); } }",
            "fn main() {"]
    for n, _ in names:
        prog.append("    println!(\"%s\"); for x in %s.iter() { x.p(); println!(); } println!();" % (n, n.upper()))
    prog.append("}")
    rs = os.path.join(work, "tables_dump.rs")
    open(rs, "w").write("\n".join(prog))
    exe = os.path.join(work, "tables_dump")
    c = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", rs, "-o", exe], capture_output=True, text=True)
    if c.returncode:
        return "rustc could not evaluate the tables: " + c.stderr[-2000:]
    out = subprocess.run([exe], capture_output=True, text=True).stdout
    tabs, cur, want = {}, None, {n for n, _ in names}
    for line in out.splitlines():
        if cur is None:
            if line in want:
                cur, rows = line, []
        elif line == "":
            tabs[cur] = rows
            cur = None
        else:
            v = [int(x, 16) for x in line.split()]
            rows.append(v[0] if len(v) == 1 else (v[0], tuple(v[1:])))
    return [(n, t, tabs[n]) for n, t in names]


def sorted_rows(rows):
    return all(rows[i][0] < rows[i + 1][0] for i in range(len(rows) - 1))


def inv1(e, d):
    """contracts/props2.rs, inv1."""
    ed = {c: b[0] for c, b in e}
    return (sorted_rows(e) and len(d) == 128
            and all(b[0] >= 0x80 and d[b[0] - 0x80] == c and c != 0xFFFD and c >= 0x80 for c, b in e)
            and all(c == 0xFFFD or (c >= 0x80 and ed.get(c) == i + 0x80) for i, c in enumerate(d)))


def inv_b5(e, d):
    """contracts/props2.rs, inv_b5."""
    at = {}
    for q, c in enumerate(d):
        at.setdefault(c, []).append(q)
    ed = dict(e)
    ok = sorted_rows(e)
    for c, b in e:
        p = (b[0] - 0x81) * 157 + (b[1] - 0x40 if b[1] < 0x7F else b[1] - 0x62)
        ok = ok and 0x81 <= b[0] <= 0xFE and (0x40 <= b[1] <= 0x7E or 0xA1 <= b[1] <= 0xFE)
        ok = ok and 0 <= p < len(d) and d[p] == c and c != 0xFFFD and c >= 0x80 and p not in B5_PAIRS
        ok = ok and p == (max if c in (0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345) else min)(at[c])
    return ok and all(c == 0xFFFD or (c >= 0x80 and c in ed) for c in d)


def inv_sj(e, d):
    """contracts/props2.rs, inv_sj."""
    at = {}
    for q, c in enumerate(d):
        if not 8272 <= q <= 8835:
            at.setdefault(c, []).append(q)
    ed = dict(e)
    ok = sorted_rows(e)
    for c, b in e:
        p = (b[0] - (0x81 if b[0] < 0xA0 else 0xC1)) * 188 + (b[1] - (0x40 if b[1] < 0x7F else 0x41))
        ok = ok and (0x81 <= b[0] <= 0x9F or 0xE0 <= b[0] <= 0xFC) and (0x40 <= b[1] <= 0x7E or 0x80 <= b[1] <= 0xFC)
        ok = ok and 0 <= p < len(d) and d[p] == c and c != 0xFFFD and not 8272 <= p <= 8835 and not 8836 <= p <= 10715
        ok = ok and not (c <= 0x80 or c in (0xA5, 0x203E, 0x2212) or 0xFF61 <= c <= 0xFF9F or 0xE000 <= c <= 0xE757)
        ok = ok and p == min(at[c])
    return ok and all(c == 0xFFFD or 8272 <= q <= 8835 or c in ed for q, c in enumerate(d))


def std_facts():
    """Facts about the frozen published tables that the proofs use as axioms,
    each evaluated completely."""
    r = []
    T = std.tables()
    for m in ["single_byte__" + s for s in std.SINGLE]:
        r.append((m + "/inverse", inv1(T[m + "/enc"], T[m + "/dec"])))
    r.append(("big5_whatwg/inverse", inv_b5(T["big5_whatwg/enc"], T["big5_whatwg/dec"])))
    r.append(("shiftjis_whatwg/inverse", inv_sj(T["shiftjis_whatwg/enc"], T["shiftjis_whatwg/dec"])))
    d, e = T["big5_whatwg/dec"], dict(T["big5_whatwg/enc"])
    r.append(("big5_whatwg/bases", 0xCA in e and 0xEA in e))
    r.append(("big5_whatwg/pairs", all(d[p] == 0xFFFD for p in B5_PAIRS)))
    return r
