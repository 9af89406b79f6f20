#!/usr/bin/env python3
"""U04: builds fx/ and fx/nostd/ in each supported feature selection and profile against /repo's
working tree, runs each one's exhaustive exploration, and combines the results.
usage: u04.py [build]      (VERIF_TIER, VERIF_OUT from the environment)"""
import concurrent.futures as cf,fcntl,json,os,re,shutil,subprocess,sys,time
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT=os.environ.get("VERIF_OUT",HERE+"/evidence"); TIER=os.environ.get("VERIF_TIER","quick")
TGT=HERE+"/fx/target"
S="stable";N="nightly"
# name, crate, toolchain, profile, features
CFG=[("std-wyrng","fx",S,"release","std,wyrng"),
 ("none","fx",S,"release",""),
 ("alloc","fx",S,"release","alloc"),
 ("wyrng","fx",S,"release","wyrng"),
 ("oorandom","fx",S,"release","oorandom"),
 ("alloc-wyrng","fx",S,"release","alloc,wyrng"),
 ("alloc-oorandom","fx",S,"release","alloc,oorandom"),
 ("std-oorandom","fx",S,"release","std,oorandom"),
 ("std-fastrand","fx",S,"release","std,fastrand"),
 ("std-all","fx",S,"release","std,wyrng,oorandom,fastrand"),
 ("checked-std-wyrng","fx",S,"checked","std,wyrng"),
 ("plain-std-wyrng","fx",S,"plain","std,wyrng"),
 ("nightly-std-wyrng","fx",N,"release","std,wyrng"),
 ("anticipate","fx",N,"release","anticipate"),
 ("anticipate-alloc","fx",N,"release","anticipate,alloc"),
 ("anticipate-std-wyrng","fx",N,"release","anticipate,std,wyrng"),
 ("nostd-none","nostd",S,"release",""),
 ("nostd-alloc","nostd",S,"release","alloc"),
 ("nostd-rngs","nostd",S,"release","alloc,wyrng,oorandom"),
 ("nostd-rngs-checked","nostd",S,"dev","wyrng,oorandom"),
]
REST=[c for c in CFG if c[0]!="std-wyrng"]
def build(c,j):
    n,cr,tc,prof,feat=c
    d=HERE+"/fx"+("/nostd" if cr=="nostd" else "")
    cmd=["cargo","+"+tc,"build","--offline","-q","-j",str(j),"--profile",prof,"--no-default-features","--features",feat,"--target-dir",f"{TGT}/{n}"]
    # Lints never decide: only whether it compiles, links and compares right.
    env=dict(os.environ,RUSTFLAGS="--cap-lints=allow"); env.pop("CARGO_ENCODED_RUSTFLAGS",None)
    for k in range(2):
        r=subprocess.run(cmd,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode==0: break
    return r.returncode==0,f"cd {d} && {' '.join(cmd)}\n{r.stdout[-6000:]}"
def exe(c): return f"{TGT}/{c[0]}/{'debug' if c[3]=='dev' else c[3]}/gsc-{'fx' if c[1]=='fx' else 'nostd'}"
def run(c):
    o=f"{OUT}/u04/{c[0]}"; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    env=dict(os.environ,VERIF_OUT=o)
    t=time.time(); a=[exe(c)]+(["4"] if c[1]=="nostd" and TIER!="quick" else [])
    r=subprocess.run(a,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    return r.returncode,r.stdout,time.time()-t,o,a
def main():
    t0=time.time(); os.makedirs(TGT,exist_ok=True); os.makedirs(OUT,exist_ok=True)
    lock=open(TGT+"/.lock","w"); fcntl.flock(lock,fcntl.LOCK_EX)
    h=subprocess.run("cd /repo && find src build.rs Cargo.toml README.md -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum",shell=True,capture_output=True,text=True).stdout
    hf=TGT+"/.repo-hash"
    if not os.path.exists(hf) or open(hf).read()!=h:
        for e in os.scandir(TGT):
            if e.is_dir():
                # Only what was made from the library, not the crates it depends on.
                for r,ds,_ in os.walk(e.path):
                    for x in list(ds):
                        if re.match(r"(lib)?(graph_safe_compare|gsc-)",x): shutil.rmtree(r+"/"+x); ds.remove(x)
        open(hf,"w").write(h)
    ok,log=build(CFG[0],8)
    if not ok:
        print(log,file=sys.stderr); print("the check of U04 cannot be built against this tree",file=sys.stderr); return 3
    with cf.ThreadPoolExecutor(8) as ex: built=dict(zip([c[0] for c in REST],ex.map(lambda c:build(c,2),REST)))
    built["std-wyrng"]=(True,"")
    if sys.argv[1:]==["build"]:
        bad=[n for n,(o,_) in built.items() if not o]
        print("configurations built:",len(CFG)-len(bad),"not:",bad); return 0
    viol=[];rep=[];tot=dict(states=0,transitions=0,traces_validated_against_impl=0,items=0,environment_choices=0);samples=[];capped=0
    os.makedirs(OUT+"/replay",exist_ok=True)
    def violate(n,text):
        p=f"{OUT}/replay/U04-{n}.txt"; open(p,"w").write(text); print(f"configuration {n}: {text[-1500:]}"); viol.append(p)
    todo=[c for c in CFG if built[c[0]][0]]
    for c in CFG:
        if not built[c[0]][0]: violate(c[0],"this supported selection of features does not build, while the others do\n"+built[c[0]][1])
    # The fx programs use all cores themselves.
    for c in todo:
        rc,out,w,o,a=run(c)
        last=[l for l in out.splitlines() if l.strip()][-1:] or [""]
        print(f"U04 {c[0]}: exit={rc} {last[0][:200]} {w:.1f}s",flush=True)
        e=dict(name=c[0],features=c[4],profile=c[3],toolchain=c[2],wall_s=round(w,2),exit=rc)
        if c[1]=="nostd":
            m=re.search(r"held items=(\d+) executions=(\d+)",out)
            if rc==0 and m:
                e["items"],e["executions"]=int(m[1]),int(m[2]); tot["items"]+=e["items"]; tot["traces_validated_against_impl"]+=e["executions"]
            else: violate(c[0],f"run: {' '.join(a)}\nfeatures: {c[4]}\nexit {rc}\n{out}")
        else:
            try: ev=json.load(open(o+"/U04.json"))["coverage"]
            except Exception: ev=None
            if ev:
                for k in tot: tot[k]+=ev.get(k,0)
                capped+=ev.get("capped",0); e["executions"]=ev["traces_validated_against_impl"]; e["spaces"]=ev.get("spaces"); samples=samples or ev.get("samples",[])
            if rc!=0 or not ev:
                m=re.search(r"VIOLATION property=U04 replay=(\S+)",out); t=open(m[1]).read() if m else ""
                violate(c[0],f"{t}\nrun: {a[0]} --replay {m[1] if m else ''}\nfeatures: {c[4]} profile: {c[3]} toolchain: {c[2]}\nexit {rc}\n{out[-3000:]}")
        rep.append(e)
    cov=dict(tot,rule="each comparison available in each supported feature selection and profile, compiled separately from the working tree, on every graph and random sequence within the listed spaces, compared with the reference search (states, transitions: of the reference's product search; nostd configurations: fixpoint on all graphs)",configurations=len(CFG),capped=capped,exhaustive=not viol and capped==0,spaces=rep,samples=samples)
    json.dump(dict(property="U04",tier=TIER if TIER in("quick","thorough") else "quick",seed=int(os.environ.get("VERIF_SEED","1")),level="model_checking",coverage=cov,assumptions=["graphs within the bounds of each listed space","feature selections listed; std alone and fastrand without std are not supported by the library"],wall_s=round(time.time()-t0,2),violations=len(viol)),open(OUT+"/U04.json","w")); 
    if viol:
        for p in viol: print(f"VIOLATION property=U04 replay={p}")
        return 1
    print("property=U04 held on everything explored"); return 0
sys.exit(main())
