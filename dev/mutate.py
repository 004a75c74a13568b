import re,random,subprocess,sys,os,json,time
R="/repo/"
C="xdvdfs-core/src/"
FILES={
 C+"blockdev.rs":["C12","C11","C10","C04","C14"],
 C+"checksum.rs":["C15"],
 C+"layout.rs":["C06","C10","C07","C04","C01","C02","C18","C22"],
 C+"read.rs":["C02","C04","C05","C01","C19","C18","C22","C16"],
 C+"util.rs":["C08","C02"],
 C+"write/avl.rs":["C09","C01","C02"],
 C+"write/dirtab.rs":["C01","C03","C07","C09","C02"],
 C+"write/img.rs":["C01","C03","C21","C19","C20","C13"],
 C+"write/sector.rs":["C03","C01"],
 C+"write/fs/mod.rs":["C14","C17","C13","C07","C20"],
 C+"write/fs/remap.rs":["C17","C24","C20"],
 C+"write/fs/sector_linear.rs":["C13","C20"],
 C+"write/fs/stdfs.rs":["C20","C19","C13"],
 C+"write/fs/xdvdfs.rs":["C14","C05","C19","C13","C20"],
 "xdvdfs-cli/src/cmd_build_image.rs":["C20","C24"],
 "xdvdfs-cli/src/cmd_compress.rs":["C20"],
 "xdvdfs-cli/src/cmd_info.rs":["C22"],
 "xdvdfs-cli/src/cmd_md5.rs":["C22"],
 "xdvdfs-cli/src/cmd_pack.rs":["C20","C23"],
 "xdvdfs-cli/src/cmd_read.rs":["C22","C15","C23"],
 "xdvdfs-cli/src/cmd_unpack.rs":["C16","C23"],
 "xdvdfs-cli/src/exiso_compat.rs":["C23"],
 "xdvdfs-cli/src/img.rs":["C20","C22","C16"],
 "xdvdfs-cli/src/main.rs":["C20","C22","C16","C15"],
 "xdvdfs-fsd/src/daemonize.rs":["C18"],
 "xdvdfs-fsd/src/img_fs.rs":["C18"],
 "xdvdfs-fsd/src/main.rs":["C18"],
 "xdvdfs-desktop/src/pack.rs":["C25"],"xdvdfs-desktop/src/unpack.rs":["C25"],"xdvdfs-desktop/src/compress.rs":["C25"],
}
OPS=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),
 (r" \+ 1\b",""),(r" - 1\b",""),(r" \+ "," - "),(r" - "," + "),(r" \* "," + "),(r" / "," * "),(r" % "," / "),(r" && "," || "),(r" \|\| "," && "),
 (r" \+= "," -= "),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\bmin\b","max"),(r"\bmax\b","min"),(r"\bcontinue;",""),(r"\bbreak;",""),
 (r"\bif ([^{]*[^{ ]) \{$",r"if false && (\1) {"),(r"\bif ([^{]*[^{ ]) \{$",r"if true || (\1) {"),(r"\bif !",r"if "),(r"\bis_none\b","is_some"),(r"\bis_some\b","is_none"),(r"is_ok\b","is_err"),
 (r"\b(\d+)\b",lambda m:str(int(m.group(1))+1)),(r"\.truncate\(true\)",".truncate(false)"),(r"\.rev\(\)",""),(r"saturating_sub","wrapping_sub"),(r"\?;$",";"),(r"\.is_directory\(\)",".is_empty()"),(r"Some\(([a-z_]+)\)$","None"),
 (r"left_entry_offset","right_entry_offset"),(r"right_entry_offset","left_entry_offset"),(r"Ordering::Less","Ordering::Greater"),(r"Ordering::Greater","Ordering::Less"),(r"input_offset","output_offset"),(r"output_offset","input_offset"),]
def muts(f):
    t=open(R+f).read().split("\n"); out=[]; end=len(t)
    for i,l in enumerate(t):
        if l.startswith("#[cfg(test)]"): end=i;break
    for i,l in enumerate(t[:end]):
        s=l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "println!" in s or "traceln" in s or "help" in s: continue
        seen=set()
        for a,b in OPS:
            if a==r"\?;$" : continue
            if s.startswith("if let") and ("if false" in str(b) or "if true" in str(b)): continue
            if "->" in s and a in (" > "," - "): continue
            if s.startswith(("impl","pub trait","trait","where","type","fn","pub fn","async fn","pub async fn","struct","pub struct","enum","const fn")) : continue
            for m in re.finditer(a,l):
                n=l[:m.start()]+re.sub(a,b,l[m.start():m.end()] if "$" not in a else l[m.start():],count=1)+(l[m.end():] if "$" not in a else "")
                if n!=l and n not in seen: seen.add(n); out.append((f,i,l,n))
        if s.endswith(";") and not s.startswith(("let","return","pub","use","type","const","break","continue","//","}",")","]",".","static")) :
            # complete statement on one line?
            p=t[i-1].strip()
            if p=="" or p.endswith((";","{","}")): out.append((f,i,l,re.match(r"\s*",l).group(0)))
        if s.startswith("return Err"):
            out.append((f,i,l,""))
    return out
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
seed=int(sys.argv[1]); N=int(sys.argv[2]); only=sys.argv[3:] 
random.seed(seed)
todo=[]
for f in FILES:
    if only and not any(o in f for o in only): continue
    m=muts(f); random.shuffle(m); todo.append(m)
# proportional sample
allm=[x for m in todo for x in m]; random.shuffle(allm); sel=allm[:N]
print("total",len(allm),"sel",len(sel),flush=True)
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
log=open(f"/tmp/mut/log-{seed}.txt","a")
def out(*a):
    print(*a,flush=True); print(*a,file=log,flush=True)
for f,i,l,n in sel:
    p=R+f; orig=open(p).read(); t=orig.split("\n")
    if t[i]!=l: out("STALE",f,i); continue
    t[i]=n; open(p,"w").write("\n".join(t))
    t0=time.time()
    try:
        crate={"xdvdfs-core":"xdvdfs","xdvdfs-cli":"xdvdfs-cli","xdvdfs-fsd":"xdvdfs-fsd","xdvdfs-desktop":None}[f.split("/")[0]]
        if crate:
            b=sh(f"cd /repo && . /opt/vp/env.sh && timeout 300 cargo check --offline -p {crate}")
            if b.returncode: continue
        killer=None; notes=[]
        for c in FILES[f]:
            r=sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {c} --tier quick")
            if r.returncode==1 and "VIOLATION" in r.stdout: killer=c; break
            if r.returncode!=0: notes.append((c,r.returncode,r.stdout[-300:]))
            if r.returncode==2 and "building harness" in r.stdout: break
        if killer: out(f"KILLED {killer} {f}:{i+1} {time.time()-t0:.0f}s | {l.strip()} => {n.strip()}"); continue
        tests="?"
        r=sh("bash /opt/vp/build.sh >/dev/null 2>&1; timeout 600 bash /opt/vp/test.sh /tmp/mut/o.json")
        try:
            d=json.load(open("/tmp/mut/o.json")); bad=[x for x in base if x not in d.get("passed",[])]
            tests="TESTS-KILL" if bad else "TESTS-PASS"
        except Exception as e: tests="ERR"
        out(f"SURVIVED {tests} {f}:{i+1} {time.time()-t0:.0f}s | {l.strip()} => {n.strip()} {notes}")
    finally:
        open(p,"w").write(orig)
out("DONE")
