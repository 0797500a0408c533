"""Changes core's source text (a copy in memory) and checks that the unit of
vlib/corelib.py no longer verifies: `python3 tools/coremut.py`.  Each line must
say `rejected`."""
import os, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import corelib, std, units, verus

MUT = [
    ("str/validations.rs", "(0xE0, 0xA0..=0xBF)", "(0xE0, 0x9F..=0xBF)"),
    ("str/validations.rs", "(0xED, 0x80..=0x9F)", "(0xED, 0x80..=0xA0)"),
    ("str/validations.rs", "(0xF4, 0x80..=0x8F)", "(0xF4, 0x80..=0x90)"),
    ("str/validations.rs", "if zu || zv {", "if zu {"),
    ("str/validations.rs", "len - ascii_block_size + 1", "len - ascii_block_size + 2"),
    ("str/validations.rs", "valid_up_to: old_offset", "valid_up_to: index"),
    ("str/validations.rs", "if index >= len {\n                    err!(None)", "if index >= len {\n                    err!(Some(1))"),
    ("str/validations.rs", "2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, // D", "2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, // D"),
    ("str/validations.rs", "ch = init << 12 | y_z;", "ch = init << 11 | y_z;"),
    ("str/validations.rs", "if x >= 0xF0 {", "if x >= 0xF1 {"),
    ("str/validations.rs", "0b0011_1111", "0b0111_1111"),
    ("char/methods.rs", "(code >> 6 & 0x3F) as u8 | TAG_CONT", "(code >> 6 & 0x1F) as u8 | TAG_CONT"),
    ("char/methods.rs", "*dst.add(2) = last1;\n            return;", "*dst.add(2) = last2;\n            return;"),
    ("char/methods.rs", "(code & 0xFFFF) == code", "(code & 0x7FFF) == code"),
    ("char/methods.rs", "(code & 0x3FF) as u16 | 0xDC00", "(code & 0x3FF) as u16 | 0xD800"),
    ("char/methods.rs", "..MAX_TWO_B => 2,", "..=MAX_TWO_B => 2,"),
    ("char/methods.rs", "*self as u32 <= 0x7F", "*self as u32 <= 0x80"),
    ("char/mod.rs", "const MAX_THREE_B: u32 = 0x10000;", "const MAX_THREE_B: u32 = 0x10001;"),
    ("char/convert.rs", "wrapping_sub(0x800) >= 0x110000 - 0x800", "wrapping_sub(0x800) > 0x110000 - 0x800"),
    ("slice/mod.rs", "let half = size / 2;", "let half = (size + 1) / 2;"),
    ("slice/mod.rs", "base = hint::select_unpredictable(cmp == Greater, base, mid);", "base = hint::select_unpredictable(cmp == Greater, mid, base);"),
    ("slice/mod.rs", "size -= half;", "size -= half + 1;"),
    ("slice/iter.rs", "let chunksz = cmp::min(self.v.len(), self.chunk_size);", "let chunksz = cmp::min(self.chunk_size, self.chunk_size);"),
    ("str/iter.rs", "self.front_offset += pre_len - len;", "self.front_offset += len;"),
    ("str/mod.rs", "index == self.len()", "index >= self.len()"),
    ("num/mod.rs", "(self as i8) >= -0x40", "(self as i8) >= -0x41"),
]


def go(m):
    f, a, b = m
    s = corelib.Source()
    t = s.text(f)
    if a not in t:
        return m, "does not apply"
    s.files[f] = t.replace(a, b)
    o = units.begin(ROOT, std, {"types": []})
    units.finish(o)
    text, rep = corelib.apply(ROOT, o.text(), s)
    if rep["assumed"]:
        return m, "stays assumed: %s" % rep["assumed"]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "core.rs")
        open(p, "w").write(text)
        r = verus.run(p, rlimit=40, timeout=300)
    v = (r["json"] or {}).get("verification-results") or {}
    return m, "VERIFIED" if v.get("success") else "rejected (%s)" % next((d["message"] for d in r["diags"] if d["level"] == "error"), "?")[:70]


with ThreadPoolExecutor(5) as ex:
    for m, r in ex.map(go, MUT):
        print("%-20s %-60s %s" % (m[0], m[2].split("\n")[0][:60], r), flush=True)
