"""Lemmas about the bit operations a function uses with constants that
contracts/bits.rs has no lemma for.  They are proved in the unit itself."""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {"u8": 8, "u16": 16, "u32": 32}
LIT = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32)?\b"
OPS = [("&", r"(?<!&)&(?!&)=? ?" + LIT), ("&", LIT + r" ?&(?!&)"), ("|", r"(?<!\|)\|(?!\|)=? ?" + LIT), ("|", LIT + r" ?\|(?!\|)"),
       ("^", r"\^=? ?" + LIT), ("^", LIT + r" ?\^"), (">>", r">>=? ?" + LIT), ("<<", r"<<=? ?" + LIT)]


def known():
    s = open(os.path.join(HERE, "contracts", "bits.rs")).read()
    return ({("&", t, int(m, 16)) for m, t in re.findall(r"#\[trigger\] \(x & 0x([0-9A-F]+?)(u\d+)\)", s)}
            | {(">>", t, int(k)) for k, t in re.findall(r"#\[trigger\] \(x >> (\d+?)(u\d+)\)", s)}
            | {("<<", t, int(k)) for k, t in re.findall(r"#\[trigger\] \(x << (\d+?)(u\d+)\)", s)})


def lemmas(texts, consts):
    """(declarations, names)"""
    want = set()
    for t in texts:
        for op, pat in OPS:
            for m in re.finditer(pat, t):
                want.add((op, int(m.group(1).replace("_", ""), 0)))
    for c in consts:        # a named constant may be any operand
        for m in re.finditer(LIT, c):
            v = int(m.group(1).replace("_", ""), 0)
            want |= {("&", v)}
    K = known()
    # The general lemmas on joining disjoint parts serve for these.
    want -= {("|", 0xD800), ("|", 0xDC00), ("&", 1), ("&", 2)}
    want = {(op, v) for op, v in want if op == "^" or not any((op, t, v) in K for t in W)}
    out, names = [], []
    for op, v in sorted(want):
        for t, w in W.items():
            if (op, t, v) in K or (op in ("&", "|", "^") and not 0 < v < (1 << w)) or (op in (">>", "<<") and not 0 < v < w):
                continue
            n = "bit_x_%s_%s_%x" % ({"&": "and", "|": "or", "^": "xor", ">>": "shr", "<<": "shl"}[op], t, v)
            x = "x %s %d%s" % (op, v, t)
            if op == ">>":
                e = "x / %d" % (1 << v)
            elif op == "<<":
                e = "(x %% %d) * %d" % (1 << (w - v), 1 << v)
            else:
                a, i = [], 0
                while i < w:
                    if v >> i & 1:
                        j = i
                        while j < w and v >> j & 1:
                            j += 1
                        a.append("x %% %d%s" % (1 << j, " - x %% %d" % (1 << i) if i else "") if j < w else "x%s" % (" - x %% %d" % (1 << i) if i else ""))
                        i = j
                    else:
                        i += 1
                s = " + ".join("(%s)" % y for y in a)
                e = {"&": s, "|": "x + %d - (%s)" % (v, s), "^": "x + %d - 2 * (%s)" % (v, s)}[op]
            if e == "(x)":
                e = "x"
            out.append("pub broadcast proof fn %s(x: %s) ensures #[trigger] (%s) == %s { assert((%s) == %s) by (bit_vector); }" % (n, t, x, e, x, e))
            names.append(n)
    return out, names
