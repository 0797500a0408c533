"""The frozen published mappings in /verif/spec, and the encode tables that the
published rules derive from them."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")

SINGLE = sorted(f[len("single_byte__"):-4] for f in os.listdir(SPEC)
                if f.startswith("single_byte__") and f.endswith(".dec"))


def load(module):
    d = {}
    for line in open(os.path.join(SPEC, module + ".dec")):
        if line.startswith("#"):
            continue
        p = line.split()
        if len(p) == 2:
            d[int(p[0])] = int(p[1], 16)
    return d


def dec_table(module):
    """index -> code point, 0xFFFD where nothing is assigned."""
    d = load(module)
    n = 128 if module.startswith("single_byte__") else max(d) + 1
    return [d.get(i, 0xFFFD) for i in range(n)]


def big5_bytes(p):
    t = p % 157
    return (p // 157 + 0x81, t + (0x40 if t < 0x3F else 0x62))


def sjis_bytes(p):
    l, t = p // 188, p % 188
    return (l + (0x81 if l < 0x1F else 0xC1), t + (0x40 if t < 0x3F else 0x41))


def enc_table(module):
    """Sorted list of (code point, bytes)."""
    d = sorted(load(module).items())
    e = {}
    if module == "big5_whatwg":
        for p, c in d:
            if c in (0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345) or c not in e:
                e[c] = big5_bytes(p)
    elif module == "shiftjis_whatwg":
        for p, c in d:
            if not 8272 <= p <= 8835 and c not in e:
                e[c] = sjis_bytes(p)
    else:
        for p, c in d:
            if c not in e:
                e[c] = (p + 0x80,)
    return sorted(e.items())


def tables():
    """name -> table, for every standard table."""
    t = {}
    for m in ["single_byte__" + s for s in SINGLE] + ["big5_whatwg", "shiftjis_whatwg"]:
        t[m + "/dec"] = dec_table(m)
        t[m + "/enc"] = enc_table(m)
    return t
