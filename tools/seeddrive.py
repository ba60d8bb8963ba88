import sys, os, subprocess, importlib.util, json
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
def go(s):
    d=f"/tmp/seeds/w/{s['id']}"; os.makedirs(d,exist_ok=True)
    edits=s['edits']
    code="import sys\n"
    for f,old,new in edits:
        code+=f"p={('ros_bt_py/ros_bt_py/'+f)!r}\ns=open(p).read()\nassert s.count({old!r})=={s.get('count',1)}, (p, s.count({old!r}))\nopen(p,'w').write(s.replace({old!r},{new!r}))\n"
    open(d+"/edit.py","w").write(code)
    open(d+"/demo.py","w").write("from bt import *\n"+s['demo'])
    open(d+"/meta","w").write(s['needs']+"\n"+s['breaks']+"\n")
    r=subprocess.run(["/verif/tools/mkseed.sh",s['id'],s['prop'],d],capture_output=True,text=True)
    return s['id']+": "+(r.stdout+r.stderr).strip().replace("\n"," | ")
with ThreadPoolExecutor(4) as ex:
    for o in ex.map(go,[s for s in m.S if not only or s['id'] in only]): print(o)
