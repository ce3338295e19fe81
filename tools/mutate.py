#!/usr/bin/env python3
"""Mutation testing of the checks, in copies below /tmp/mut (never in /repo).
mutate.py gen N SEED      make N random mutants -> /tmp/mut/mutants.json
mutate.py tests [from to] keep those the repository's own tests do not notice -> /tmp/mut/alive.json
mutate.py checks [from to] run the checks (fewer runs than quick) on those -> /tmp/mut/result.json"""
import json,os,random,re,subprocess,sys,shutil,time
W=os.environ.get("MUT","/tmp/mut"); R=W+"/repo"; V=W+"/verif"; ORIG=W+"/base"
FILES=["hacspec/src/"+f for f in "transmute math_util seq array math_integers util machine_integers traits poly vec_integers".split()]+["abstract-integers/src/nat_mod","abstract-integers/src/abstract_int","secret-integers/src/lib","hacspec-dev/src/test_vectors"]+["spec-examples/src/"+f for f in "hmac/hmac fips202/fips202 sha2/sha2 p256/p256 curve25519/curve25519 blake2/blake2b hkdf/hkdf chacha20_poly1305/chacha20 chacha20_poly1305/chacha20poly1305 chacha20_poly1305/poly1305 aes_gcm/aesgcm aes_gcm/aes aes_gcm/gf128".split()]
OPS=[(r" \+ "," - "),(r" - "," + "),(r" \* "," + "),(r" / "," * "),(r" % "," / "),(r" << "," >> "),(r" >> "," << "),(r" & "," | "),(r" \| "," & "),(r" \^ "," | "),
(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" && "," || "),(r" \|\| "," && "),(r"\.\.=",".."),(r"(?<=\w)\.\.(?=[\w(])","..="),
(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"wrapping_add","wrapping_sub"),(r"wrapping_sub","wrapping_add"),(r"wrapping_mul","wrapping_add"),(r"rotate_left","rotate_right"),(r"rotate_right","rotate_left"),
(r"_le\b","_be"),(r"_be\b","_le"),(r"\bmin\(","max("),(r"\bmax\(","min("),(r"!(?=[a-z(])(?!\()",""),(r"\.rev\(\)",""),(r" \+= "," -= "),(r" -= "," += "),(r" \^= "," |= "),(r"if (?!let)(.+) \{$",r"if !(\1) {"),(r"\.is_none\(\)",".is_some()"),(r"checked_","wrapping_"),(r"div_euclid","div"),(r"% ",  "+ 0 * ")]
def clean_lines(p):
    """(index,line) of code lines: no comments, attributes, uses, test modules."""
    L=open(p).read().split("\n"); out=[]
    for i,l in enumerate(L):
        s=l.strip()
        if re.match(r"#\[cfg\(test\)\]|#\[test\]",s): 
            if s.startswith("#[cfg(test)]"): break
        if not s or s.startswith(("//","#","use ","pub use","///","debug_assert","assert!","mod ","pub mod ")): continue
        out.append(i)
    return L,out
def gen(n,seed):
    rnd=random.Random(seed); sites=[]
    for f in FILES:
        p=ORIG+"/"+f+".rs"; L,idx=clean_lines(p)
        for i in idx:
            l=L[i]; code=l.split("//")[0]
            for o,(a,b) in enumerate(OPS):
                for m in re.finditer(a,code):
                    sites.append((f,i,l[:m.start()]+m.expand(b)+l[m.end():]))
            for m in re.finditer(r"(?<![\w.\"x])(\d+)(?![\w.\"]|\s*=>)",code):
                v=int(m.group(1))
                for w in ([v+1] if v==0 else [v+1,v-1]):
                    sites.append((f,i,l[:m.start()]+str(w)+l[m.end():]))
            if re.match(r"\s*[\w\[\]\.\*\(\)]+\s*(=|\+=|-=|\^=|\|=)[^=].*;$",code) and "let" not in code:
                sites.append((f,i,""))
    # big tables would drown the rest
    per={}
    for s in sites: per.setdefault((s[0],s[1]),[]).append(s)
    lines=list(per); rnd.shuffle(lines)
    out=[]
    for k in lines[:n]:
        f,i,nl=rnd.choice(per[k]); out.append({"file":f,"line":i,"new":nl,"old":open(ORIG+"/"+f+".rs").read().split("\n")[i]})
    json.dump(out,open("/tmp/mut/mutants.json","w"),indent=0); print(len(sites),"sites",len(lines),"lines",len(out),"mutants")
def env():
    e=dict(os.environ); e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_TERM_COLOR="never",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="0",RUSTC_WRAPPER="",RUST_TEST_THREADS="4")
    e["PATH"]="/usr/local/bin:/root/.cargo/bin:"+e["PATH"]
    return e
def run(cmd,cwd,t,e):
    p=subprocess.Popen(["nice","-n","5"]+cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return None,""
def apply(base,m,back=False):
    """The line nearest to where the mutant was generated that still has its text; False if there is none."""
    p=base+"/"+m["file"]+".rs"; L=open(ORIG+"/"+m["file"]+".rs").read().split("\n")
    at=[i for i,l in enumerate(L) if l==m["old"]]
    if not at: return False
    if not back: L[min(at,key=lambda i:abs(i-m["line"]))]=m["new"]
    open(p,"w").write("\n".join(L)); return True
def tests(a,b):
    M=json.load(open("/tmp/mut/mutants.json"))[a:b]
    try: alive=json.load(open("/tmp/mut/alive.json"))
    except Exception: alive=[]
    e=env(); n={"build":0,"killed":0,"alive":0}
    for k,m in enumerate(M):
        apply(R,m)
        rc,o=run(["nice","-n","15","cargo","test","-j","4","--workspace","--tests","--offline"],R,240,e)
        apply(R,m,True)
        st="killed" if rc is None or (rc and "could not compile" not in o) else "build" if rc else "alive"
        n[st]+=1
        if st=="alive": alive.append(m); json.dump(alive,open("/tmp/mut/alive.json","w"),indent=0)
        print(a+k,st,m["file"],m["line"]+1,m["new"].strip()[:90],flush=True)
    print(n)
QUICK={"C01":9000,"C02":250,"C03":7000,"C04":2500,"C05":9000,"C06":35000,"C07":1200,"C08":4500,"C09":4500,"C10":7000,"C11":15000,"C12":35000,"C13":11000,"C14":10000}
ORDER=["C08","C13","C06","C12","C14","C01","C05","C03","C04","C11","C09","C10","C07","C02"]
FIRST={"poly":"C14","nat_mod":"C13","test_vectors":"C10","vec_integers":"C14","math_util":"C14","transmute":"C12","seq":"C06","array":"C12"}
def checks(a,b):
    M=json.load(open("/tmp/mut/alive.json"))[a:b]
    res=[]
    rf=W+"/result-%d.json"%a
    e=dict(os.environ)
    for k,m in enumerate(M):
        if not apply(R,m): continue
        rc,o=run(["bash","build.sh"],V+"/sim",900,e); caught=None
        if rc: caught="build"
        else:
            order=list(ORDER)
            first=FIRST.get(m["file"].split("/")[-1])
            if first: order.remove(first); order.insert(0,first)
            if "spec-examples" in m["file"]: order=["C01","C05","C03","C04","C02"]+[x for x in ORDER if x not in("C01","C05","C03","C04","C02")]
            for c in order:
                rc,o=run(["./target/release/sim","check",c,"--runs",str(QUICK[c]),"--root",W+"/rt"],V+"/sim",400,e)
                if rc is None or rc: caught="%s:%s"%(c,rc); break
        apply(R,m,True)
        m["caught"]=caught; res.append(m); json.dump(res,open(rf,"w"),indent=0)
        print(a+k,caught,m["file"],m["line"]+1,"|",m["old"].strip()[:80],"=>",m["new"].strip()[:80],flush=True)
if __name__=="__main__":
    c=sys.argv[1]; x=[int(v) for v in sys.argv[2:]]
    if c=="gen": gen(*x)
    elif c=="tests": tests(*(x or [0,10**6]))
    else: checks(*(x or [0,10**6]))
