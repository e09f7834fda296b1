import subprocess,json,os
ROOT=os.environ.get('ROOT','/repo')
def sub(path, old, new, cnt=1):
    if not path.startswith('/'): path=ROOT+'/src/pycalendar/'+path.replace('pycalendar/','',1) if path.startswith('pycalendar/') else ROOT+'/src/pycalendar/'+path
    s=open(path).read()
    assert s.count(old)==cnt,(path,s.count(old),old)
    open(path,'w').write(s.replace(old,new))
def commit(msg, prop):
    if ROOT!='/repo': return
    assert msg; msg = msg if msg.startswith("fix:") else "fix: "+msg
    subprocess.check_call(["git","-C","/repo","commit","-qam",msg])
    h=subprocess.check_output(["git","-C","/repo","log","-1","--format=%h"],text=True).strip()
    f="/verif/tools/fixprops.json"; d=json.load(open(f)); d[h]=prop; json.dump(d,open(f,"w"),indent=0,sort_keys=True)
    subprocess.call(["python3","/verif/tools/mkfixed.py"])
