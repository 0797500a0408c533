"""Writes contracts/bits.rs: bit operations as arithmetic, each a lemma that the
verifier proves (by bit_vector)."""
o = ["// Generated by tools/genbits.py.  Bit operations as arithmetic; every lemma is proved.", ""]
names = []
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}


def lemma(name, par, req, trig, res):
    names.append(name)
    r = "requires %s " % req if req else ""
    g = "%s ==> " % req.replace(",", " &&") if req else ""
    o.append("pub broadcast proof fn %s(%s) %sensures #[trigger] (%s) == %s { assert(%s(%s) == %s) by (bit_vector); }" % (name, par, r, trig, res, g, trig, res))


for t in ("u8", "u16", "u32"):
    w = W[t]
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 18, 24):
        if k >= w:
            continue
        lemma("bit_shr_%s_%d" % (t, k), "x: %s" % t, "", "x >> %d%s" % (k, t), "x / %d" % (1 << k))
        if k in (6, 8, 10, 12, 16, 18, 24):
            lemma("bit_shl_%s_%d" % (t, k), "x: %s" % t, "x < %d" % (1 << (w - k)), "x << %d%s" % (k, t), "x * %d" % (1 << k))
    for m in (0x07, 0x0F, 0x1F, 0x3F, 0x7F, 0xFF, 0x3FF, 0x7FF, 0xFFFF):
        if m < (1 << w) - 1:
            lemma("bit_and_%s_%x" % (t, m), "x: %s" % t, "", "x & 0x%X%s" % (m, t), "x %% %d" % (m + 1))
    # masks that keep the high bits of a unit
    for m in ((0x80, 0xC0, 0xE0, 0xF0, 0xF8) if t == "u8" else (0xFC00, 0xF800, 0xD800, 0xFF00) if t == "u16" else (0xFC00, 0xF800, 0x1FFC00)):
        low = m & -m
        top = m
        full = (1 << w) - 1
        if t != "u32" and m == full - (low - 1):
            lemma("bit_and_%s_%x" % (t, m), "x: %s" % t, "", "x & 0x%X%s" % (m, t), "x - x %% %d" % low)
        elif m != 0xD800:
            hi = m.bit_length()
            lemma("bit_and_%s_%x" % (t, m), "x: %s" % t, "", "x & 0x%X%s" % (m, t), "x %% %d - x %% %d" % (1 << hi, low))
    # joins of disjoint parts, in either order
    js = [k for k in (5, 6, 7, 8, 10, 11, 12, 16, 18, 24) if k < w]
    names.append("bit_join_" + t)
    cl = []
    for k in js:
        cl.append("a %% %d == 0 && b < %d ==> (a | b) == a + b" % (1 << k, 1 << k))
        cl.append("b %% %d == 0 && a < %d ==> (a | b) == a + b" % (1 << k, 1 << k))
    o.append("pub broadcast proof fn bit_join_%s(a: %s, b: %s) ensures #![trigger (a | b)]\n    %s\n{ %s }" % (
        t, t, t, ",\n    ".join(cl), "\n  ".join("assert(%s) by (bit_vector);" % c for c in cl)))
for a, b in (("u32", "u16"), ("u32", "u8"), ("u16", "u8"), ("u64", "u32"), ("u64", "u8"), ("usize", "u32"), ("usize", "u16"), ("usize", "u8")):
    if a == "usize":
        names.append("bit_trunc_%s_%s" % (a, b))
        o.append("pub broadcast proof fn bit_trunc_%s_%s(x: %s) ensures #[trigger] (x as %s) == x %% %d { assert((x as u64 as %s) == (x as u64) %% %d) by (bit_vector); }" % (a, b, a, b, 1 << W[b], b, 1 << W[b]))
    else:
        lemma("bit_trunc_%s_%s" % (a, b), "x: %s" % a, "", "x as %s" % b, "x %% %d" % (1 << W[b]))
o.append("pub broadcast group bit_lemmas {\n    %s,\n}" % ", ".join(names))
open("/verif/contracts/bits.rs", "w").write("\n".join(o) + "\n")
