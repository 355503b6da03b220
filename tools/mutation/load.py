import sys,os,json
L=[]
def M(props,file,old,new,note=""): L.append(dict(props=props,file=file,old=old,new=new,note=note))
for f in sys.argv[2:]:
    src=open(f).read()
    src="\n".join(l for l in src.split("\n") if not l.startswith("L=[]") and not l.startswith("def M("))
    exec(src)
out=[];bad=[]
for m in L:
    if m["old"]==m["new"]: continue
    p="/repo/"+m["file"]
    n=open(p).read().count(m["old"]) if os.path.exists(p) else 0
    if n==1: out.append(m)
    else: bad.append((n,m["file"],m["old"][:90]))
for b in bad: print(b)
print(len(out))
open(sys.argv[1],"w").write("".join(json.dumps(m)+"\n" for m in out))
