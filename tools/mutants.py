#!/usr/bin/env python3
"""Self-assessment, not a check: mutates a scratch copy of /repo, keeps what passes the existing tests and
reports which checks notice.  usage: mutants.py WORKDIR OUT.jsonl [--runs-percent N] [--sample K] [--files re]"""
import sys,os,re,json,subprocess,shutil,random,argparse
from concurrent.futures import ThreadPoolExecutor
import queue
QUICK={"C01":250,"C02":250,"C03":400,"C04":250,"C05":700,"C06":300,"C07":700,"C08":300,"C09":600,"C10":300,"C11":24,"C12":2,"C13":300,"C14":300,"C15":24,"C16":4}
ap=argparse.ArgumentParser()
ap.add_argument("work");ap.add_argument("out");ap.add_argument("--pct",type=float,default=5);ap.add_argument("--sample",type=int,default=0)
ap.add_argument("--files",default=".");ap.add_argument("--patches",default="");ap.add_argument("--only",default="");ap.add_argument("--jobs",type=int,default=8)
ap.add_argument("--first",action="store_true");ap.add_argument("--own",action="store_true");ap.add_argument("--seed",type=int,default=1);ap.add_argument("--vseed",default="1")
A=ap.parse_args()
FILES=["src/apply.rs","src/patch/format.rs","src/patch/mod.rs","src/patch/parse.rs","src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/merge/mod.rs","src/range.rs","src/utils.rs"]
SUB=[(r" \+ 1\b",""),(r" \+ 1\b"," + 2"),(r" - 1\b",""),(r" - 1\b"," - 2"),(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" > "," < "),(r" == "," != "),(r" != "," == "),
(r" && "," || "),(r" \|\| "," && "),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\bif (?!let)","if !"),(r"!(?=[a-z_.]+\()",""),(r"\bmin\b","max"),(r"\bmax\b","min"),
(r"saturating_sub","wrapping_sub"),(r"\.rev\(\)",""),(r"\bbreak;","continue;"),(r"\bcontinue;","break;"),(r"\bours\b","theirs"),(r"\btheirs\b","ours"),
(r"Line::Insert","Line::Delete"),(r"Line::Delete","Line::Insert"),(r"Line::Context","Line::Insert"),(r"\bold\b","new"),(r"\bnew\b(?!\()","old"),(r"\boriginal\b","modified"),(r"\bmodified\b","original"),
(r"\b1\b","0"),(r"\b0\b","1"),(r"write_all\(","write("),(r"\?;",".ok();"),(r"prefix","suffix"),(r"suffix","prefix"),(r"\blines1\b","lines2"),(r"\blines2\b","lines1"),(r"\bend1\b","end2"),(r"\bend2\b","end1"),
(r"\bancestor\b","ours"),(r"\.is_some\(\)",".is_none()"),(r"\.is_none\(\)",".is_some()"),(r"\\n","\\\\r"),(r"strip_prefix","strip_suffix"),(r"split_at_exclusive\(\"(.)\"\)",r'split_at_exclusive("\1 ")'),
(r"\bSome\(([a-z_]+)\)$","None"),(r"len1","len2"),(r"len2","len1"),(r"common_prefix_len","common_suffix_len"),(r"pos\b","pos.saturating_sub(1)"),(r"\bx\b","y"),(r"\by\b","x"),(r"\bvf\b","vb"),(r"\bvb\b","vf"),(r" \+ "," - "),(r" - "," + "),(r"/ 2","/ 3"),(r"step_by\(2\)","step_by(1)"),(r"pointer \+ 1","pointer"),(r"pointer - 1","pointer"),(r"\.any\(",".all("),(r"\.\.=","..")]
def gen():
    ms=[]
    for f in FILES:
        if not re.search(A.files,f): continue
        L=open("/repo/"+f).read().split("\n")
        for i,l in enumerate(L):
            if "#[cfg(test)]" in l and f!="src/diff/mod.rs" and f!="src/merge/mod.rs": break
            s=l.strip()
            if s.startswith("//") or s.startswith("#[") or not s or s.startswith("use ") or s.startswith("fn ") or s.startswith("pub fn") or s.startswith("impl"): continue
            for a,b in SUB:
                for m in re.finditer(a,l):
                    n=l[:m.start()]+m.expand(b)+l[m.end():]
                    if n!=l: ms.append((f,i,l,n))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("return"): ms.append((f,i,l,""))
    u=[];seen=set()
    for m in ms:
        if m in seen: continue
        seen.add(m);u.append(m)
    return u
def sh(c,cwd,t=600,env=None):
    e=dict(os.environ);e.update(env or {})
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e)
        return p.returncode,p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return 124,"timeout"
def setup(i):
    w=f"{A.work}/w{i}"
    if not os.path.isdir(w):
        os.makedirs(w)
        subprocess.run(f"cp -a /repo {w}/repo && cp -a /verif/sim {w}/sim",shell=True,check=True)
        subprocess.run(f"sed -i 's#/repo#{w}/repo#g' {w}/sim/Cargo.toml {w}/sim/subject/Cargo.toml {w}/sim/build.sh && sed -i 's#/verif/sim#{w}/sim#g' {w}/sim/build.sh",shell=True,check=True)
    os.makedirs(w+"/root/evidence",exist_ok=True)
    return w
def one(q,apply,name):
    i=q.get()
    try:
        w=setup(i); r=w+"/repo"
        subprocess.run("git checkout -q -- .",shell=True,cwd=r)
        res={"name":name}
        err=apply(r)
        if err: res["status"]="noapply "+err; return res
        rc,o=sh("CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=%s/t cargo test --workspace --offline -q --lib -- --test-threads 2 --skip bounded_performance"%w,r,60)
        if rc!=0:
            res["status"]="nocompile" if "error" in o and "test result" not in o and rc!=124 else "tests"
            return res
        rc,o=sh("CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=%s/t cargo test --workspace --offline -q --doc"%w,r,180)
        if rc!=0: res["status"]="doctests"; return res
        rc,o=sh("bash build.sh",w+"/sim",300)
        if rc!=0: res["status"]="simbuild";res["out"]=o[-500:]; return res
        res["status"]="ran"; res["by"]={}
        for p,n in QUICK.items():
            if A.only and p not in A.only.split(","): continue
            if A.own and p!=name[:3].upper(): continue
            rc,o=sh(f"timeout 600 {w}/sim/target/release/diffy-sim check {p}",w,700,{"VERIF_WORKERS":"1","VERIF_RUNS":str(int(n*10*A.pct)),"VERIF_SHRINK_S":"0","VERIF_ROOT":w+"/root","VERIF_SEED":A.vseed})
            m=re.search(r"run (\d+): (\S+): (.*)",o)
            res["by"][p]=0 if rc==0 else ([rc,int(m[1]),m[2],m[3][:300]] if m else [rc,o[-200:]])
            if A.first and rc: break
        return res
    finally:
        q.put(i)
def main():
    q=queue.Queue()
    for i in range(A.jobs): q.put(i)
    jobs=[]
    if A.patches:
        for p in sorted(os.listdir(A.patches)):
            f=f"{A.patches}/{p}/patch.diff"
            if os.path.exists(f):
                jobs.append((p,(lambda f:lambda r:None if subprocess.run(["git","apply",f],cwd=r).returncode==0 else "git apply")(f)))
    else:
        ms=gen()
        random.Random(A.seed).shuffle(ms)
        if A.sample: ms=ms[:A.sample]
        for f,i,l,n in ms:
            def ap(r,f=f,i=i,l=l,n=n):
                p=f"{r}/{f}";L=open(p).read().split("\n")
                if L[i]!=l: return "mismatch"
                L[i]=n;open(p,"w").write("\n".join(L))
            jobs.append((f"{f}:{i+1}: {l.strip()} => {n.strip()}",ap))
    print(len(jobs),"jobs",flush=True)
    with ThreadPoolExecutor(A.jobs) as ex, open(A.out,"a") as out:
        fs=[ex.submit(one,q,a,n) for n,a in jobs]
        for f in fs:
            r=f.result()
            out.write(json.dumps(r)+"\n");out.flush()
main()
