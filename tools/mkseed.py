#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS [FILE OLD NEW]..: write seeded/ID from a replacement (demo.rs comes from stdin)"""
import sys,os,subprocess,json,shutil
id_,prop,needs,breaks=sys.argv[1:5]; rest=sys.argv[5:]
d=f'/verif/seeded/{id_}'; os.makedirs(d,exist_ok=True)
R='/tmp/seedwork/mk'
if not os.path.isdir(R): subprocess.check_call(['git','clone','-q','/repo',R])
subprocess.check_call(['git','-C',R,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',R,'checkout','-qf','FETCH_HEAD'])
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
while rest:
    f,o,n=rest[:3]; rest=rest[3:]
    p=f'{R}/src/{f}'; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o))
    open(p,'w').write(s.replace(o,n))
open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff'],text=True))
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
demo=sys.stdin.read()
if demo.strip():
    open(f'{d}/demo.rs','w').write(demo)
    shutil.copy('/verif/tools/demo_head.sh',f'{d}/demo.sh')
    os.chmod(f'{d}/demo.sh',0o755)
