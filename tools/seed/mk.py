#!/usr/bin/env python3
"""mk.py ID PROP --needs .. --breaks .. < spec ; spec = blocks:
@@ path (rel to repo)
<<<<
old
====
new
>>>>
@@demo
c++ text
"""
import sys,re,os,subprocess,json,shutil,argparse
ap=argparse.ArgumentParser();ap.add_argument('id');ap.add_argument('prop');ap.add_argument('--needs');ap.add_argument('--breaks');a=ap.parse_args()
spec=sys.stdin.read();V=os.environ.get('V','/tmp/wip/v')
edits,demo=spec.split('@@demo\n',1)
d=f'{V}/seeded/{a.id}';os.makedirs(d,exist_ok=True)
w='/tmp/wt/mk';subprocess.run(['rm','-rf',w]);os.makedirs(w)
subprocess.run(f'git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm a',shell=True,check=True)
for f,old,new in re.findall(r'@@ (\S+)\n<<<<\n(.*?)====\n(.*?)>>>>\n',edits,re.S):
    k=0
    if '#' in f: f,k=f.split('#');k=int(k)  # path#k: the k-th match (from 1)
    p=f'{w}/{f}';s=open(p).read()
    if k:
        parts=s.split(old);open(p,'w').write(old.join(parts[:k])+new+old.join(parts[k:]));continue
    if s.count(old)!=1: sys.exit(f'{f}: {s.count(old)} matches of old text')
    open(p,'w').write(s.replace(old,new))
df=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
assert df
open(d+'/patch.diff','w').write(df);open(d+'/demo.cpp','w').write(demo)
for f in('demo.sh','demo.hpp'):shutil.copy(f'{V}/tools/seed/{f}',d)
os.chmod(d+'/demo.sh',0o755)
json.dump({'property':a.prop,'needs':a.needs,'what_it_breaks':a.breaks},open(d+'/meta.json','w'),indent=1)
subprocess.run(['rm','-rf',w])
