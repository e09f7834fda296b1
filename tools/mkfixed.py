import subprocess,json
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).strip().split("\n")[1:]
P={"e9cb079":"P01","7497906":"P01","783ad55":"P01","c855f5d":"P01","eb684d3":"P01","49ccaf7":"P01","4b4a5c2":"P01","c8cc6c1":"P01","2b7dfc9":"P01",
"5022733":"P03","e4e265c":"P03","8757584":"P03","49b9914":"P09","d655a19":"P09","8072f4d":"P09","5ec37de":"P09","06a8a02":"P09","8dfb7fb":"P09","e8b8430":"P09",
"72c17a4":"P10","d97f2b6":"P13","073b188":"P11","1bc3a59":"P08"}
import os
if os.path.exists("/verif/tools/fixprops.json"): P.update(json.load(open("/verif/tools/fixprops.json")))
json.dump(P,open("/verif/tools/fixprops.json","w"),indent=0,sort_keys=True)
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    if h not in P: print("NO PROP",l); continue
    out.append("fixed: property=%s %s %s"%(P[h],h,s[5:]))
k=json.load(open("/verif/known_findings.json"))
k["fixed"]=out
json.dump(k,open("/verif/known_findings.json","w"),indent=1)
d=open("/verif/DESIGN.md").read() if os.path.exists("/verif/DESIGN.md") else ""
a,b="<!-- fixed -->","<!-- /fixed -->"
if a in d:
    i=d.index(a)+len(a); j=d.index(b)
    d=d[:i]+"\n"+"".join("- "+o+"\n" for o in out)+d[j:]
    open("/verif/DESIGN.md","w").write(d)
