"""Runs Verus on a composed unit and maps what it reports to obligations."""
import json, os, re, resource, subprocess, time

VERUS = os.environ.get("VERUS", "verus")


def run(path, rlimit=30, timeout=400, extra=()):
    cmd = [VERUS, path, "--output-json", "--time", "--multiple-errors", "20", "--rlimit", str(rlimit),
           "--num-threads", "2", "--error-format=json"] + list(extra)
    t0 = time.time()

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=lim,
                         cwd=os.path.dirname(path))
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    r = {"cmd": " ".join(cmd), "rc": p.returncode, "wall": time.time() - t0, "timeout": to, "diags": [], "json": None, "stderr": err}
    for line in err.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("$message_type", "diagnostic") == "diagnostic" and d.get("level") in ("error", "note", "warning"):
                r["diags"].append(d)
    i = out.find("{")
    if i >= 0:
        try:
            r["json"] = json.loads(out[i:])
        except ValueError:
            pass
    return r
