"""Is the text the verifier accepted the code that runs?  The verified unit is
compiled (by Verus, which erases contracts and ghost code) and run on the same
stream of calls as the crate itself; the fingerprints have to be the same."""
import os, re, resource, subprocess
import verus

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STREAM = os.path.join(HERE, "engine", "target", "release", "stream")
CONST = re.compile(r"(pub exec const (\w+): .*\n    ensures .*\n)\{ \[.*\] \}")


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def program(u, o, fs, dictionary, tier):
    """The unit with the real tables and a main function."""
    t = CONST.sub(lambda m: "%s{ crate::tables::%s }" % (m.group(1), m.group(2).upper()), o.text())
    t = t.replace("\nfn main() {}\n", "\n", 1)
    rows = []
    by = dict(p.split(":", 1) for p in dictionary.split(";") if ":" in p)
    for f in fs:
        r = u.code.roles(f)
        e = u.dir == "E"
        args = ", ".join({r["S"]: "i", r["B"]: "i", r["OUT"]: "o", r["END"]: "x"}[n] for n, _ in f["params"])
        d = ", ".join(v for v in by.get(f["module"].replace("::", "__"), "").split(",") if v)
        rows.append("xlat::%s(\"%s\", |i, o, x| %s(m::%s(%s)), &[%s], %s);" % ("enc" if e else "dec", f["flat"], "e" if e else "d", f["flat"], args, d, "false" if tier == "thorough" else "true"))
    return t + """
mod tables { include!("%s"); }
mod xlat { include!("%s"); }
use xlat::R;
fn e(r: Result<(&[u8], usize), k::EncodeError>) -> R { match r { Ok((b, n)) => R::Enc(b.as_ptr() as usize, b.len(), n), Err(x) => R::ErrE(x.character as u32, x.error_range.0, x.error_range.1, x.output_bytes_written) } }
fn d(r: Result<(&str, usize), k::DecodeError>) -> R { match r { Ok((b, n)) => R::Enc(b.as_ptr() as usize, b.len(), n), Err(x) => R::ErrD(match x.cause { k::DecodeErrorCause::InvalidData => true, _ => false }, x.error_range.0, x.error_range.1, x.output_bytes_written) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    %s
}
""" % (u.code.tables_rs, os.path.join(HERE, "engine", "src", "stream.rs"), "\n    ".join(rows))


def lines(out):
    r = {}
    for l in out.splitlines():
        r.setdefault(l.split(" ")[0], []).append(l)
    return r


def run(u, o, work, dictionary, tier):
    """(function -> calls compared, function -> why not, function -> difference)"""
    fs = [f for f in u.fs if u.code.kind(f) and f["flat"] not in u.lost]
    ok, no, bad = {}, {}, {}
    if not fs:
        return ok, no, bad
    none = lambda why: (ok, {f["flat"]: why for f in fs}, bad)
    rs, exe = os.path.join(work, u.name + "_x.rs"), os.path.join(work, u.name + "_x")
    open(rs, "w").write(program(u, o, fs, dictionary, tier))
    try:
        c = subprocess.run([verus.VERUS, rs, "--no-verify", "--compile", "-C", "opt-level=1", "-C", "overflow-checks=on", "-o", exe], capture_output=True, text=True, timeout=200, preexec_fn=lim, cwd=work)
        if c.returncode or not os.path.exists(exe):
            return none("the verified text does not compile as it stands: " + c.stderr[-600:])
        t = 300 if tier == "thorough" else 60
        a = subprocess.run([exe], capture_output=True, text=True, timeout=t, preexec_fn=lim)
        b = subprocess.run([STREAM, ",".join(f["flat"] for f in fs), tier, dictionary], capture_output=True, text=True, timeout=t, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return none("the comparison did not finish")
    if a.returncode or b.returncode:
        return none("the comparison did not finish: exit %d and %d %s" % (a.returncode, b.returncode, (a.stderr + b.stderr)[-300:]))
    la, lb = lines(a.stdout), lines(b.stdout)
    for f in fs:
        n = f["flat"]
        if n not in la or n not in lb:
            no[n] = "no output"
        elif la[n] != lb[n]:
            bad[n] = "the verified text and the compiled crate differ, first in: " + next((x for x, y in zip(la[n], lb[n]) if x != y), "?")
        else:
            ok[n] = int(la[n][-1].split(" ")[-1])
    return ok, no, bad
