#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, tools/bugs.txt and the entry lines of the harnesses."""
import glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(R+'/harness/*.cpp')):
    for l in open(f):
        m=re.match(r'//@ (\S+) (H_\w+)(.*?)\|(.*)',l)
        if m: rows.append((m[1],m[2],m[4].strip().replace('|','/')))
rows.sort()
b='| property | entry | bounds |\n|---|---|---|\n'+''.join(f'| {a} | {e} | {t} |\n' for a,e,t in rows)
s=open(R+'/tools/design_head.md').read().replace('@@BOUNDS@@',b).replace('@@BUGS@@',open(R+'/tools/bugs.md').read().strip())
open(R+'/DESIGN.md','w').write(s)
