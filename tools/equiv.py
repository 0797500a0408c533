"""Random behaviour-preserving rewriting (tools/equiv), and whether it stays proved.
  equiv.py LO-HI [classes|all] [percent] [modules|-]   seeds LO..HI-1, each in a scratch copy of /repo
Build first: cargo build --offline --release --manifest-path tools/equiv/Cargo.toml --target-dir /tmp/equiv-target
"""
import os, re, shutil, subprocess, sys, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V+"/vlib")
import plan, driver
EQ="/tmp/equiv-target/release/equiv"
FILES=["utf8","utf16_le","utf16_be","utf32_le","utf32_be","big5_whatwg","shiftjis_whatwg","single_byte"]
def trial(seed, classes="all", pct=25, only=None, verify=True):
    t=tempfile.mkdtemp(prefix="eqv-",dir="/tmp")
    try:
        subprocess.run(["cp","-a","/repo",t+"/repo"],check=True)
        r=t+"/repo"
        info={}
        for i,f in enumerate(FILES):
            if only and f not in only: continue
            p=r+"/src/%s.rs"%f
            o=subprocess.run([EQ,p,str(seed*100+i),classes,str(pct)],capture_output=True,text=True)
            info[f]=o.stdout.strip() or o.stderr[-300:]
            subprocess.run(["rustfmt","--edition","2015",p],capture_output=True)
        c=subprocess.run("cargo test --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked' -A9 | head -40",shell=True,cwd=r,capture_output=True,text=True)
        bad=set(re.findall(r"--> src/(\w+)\.rs",c.stdout))
        if bad and "error[" in c.stdout:
            for b in bad: shutil.copy("/repo/src/%s.rs"%b, r+"/src/%s.rs"%b)
            c=subprocess.run("cargo test --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked' -A9 | head -40",shell=True,cwd=r,capture_output=True,text=True)
        if c.stdout.strip():
            return "TESTS "+c.stdout.strip()[:1200]
        if not verify: return "ok "+str(info)
        w=t+"/w"; os.makedirs(w)
        try: code=plan.Code(r,w)
        except plan.Lost as e: return "LOST ALL "+str(e)[:300]
        out=[]
        for g in [x for x in plan.MULTI+["single_byte"] if not only or x in only]:
            for dd in "ED":
                u=plan.Unit(code,g,dd)
                res=driver.run_unit(u,w,False)
                for k,v in u.lost.items():
                    if "calls single_byte" not in v: out.append("   bounded %s: %s"%(k,v[:300]))
                for ob,d in res["failed"].items():
                    out.append("   FAILED %s %s %s %s%s"%(ob,sorted(d["props"]),d["detail"][0]["message"],[a.get("at","") for a in d["detail"]][:2],"" if ob.split("/")[0] not in u.lost else " (bounded)"))
        return "\n".join(out) or "all proved"
    finally: shutil.rmtree(t)
if __name__=="__main__":
    a=sys.argv
    lo,hi=map(int,a[1].split("-"))
    classes=a[2] if len(a)>2 else "all"
    pct=int(a[3]) if len(a)>3 else 25
    only=a[4].split(",") if len(a)>4 and a[4]!="-" else None
    ver=len(a)<=5
    for s in range(lo,hi): print(s, trial(s,classes,pct,only,ver),flush=True)
