import subprocess,sys,os,json,re
os.chdir('/verif'); sys.path.insert(0,'tools')
import claims
t=open('tools/design.md').read()
t=t.replace('__CLAIMS__','\n'.join(f'  * {k}: {v}' for k,v in sorted(claims.CLAIMS.items())))
t=t.replace('__NA__','\n'.join(f'* **{k}** {v}' for k,v in sorted(claims.NA.items())))
t=t.replace('__SEEDS__',open('tools/seeds.md').read().strip())
by={}
for l in subprocess.run(['build/gvc','list'],capture_output=True,text=True).stdout.splitlines():
    m=re.match(r'(\S+) (.*) \[(.*)\]$',l)
    if not m: continue
    name,rest,props=m.groups()
    tg=rest.split(' ')[0]
    for p in props.split(): by.setdefault(p,set()).add((tg,name))
o=[]
for p in sorted(by):
    if p not in claims.CLAIMS: continue
    o.append(f'**{p}** ({len(by[p])} contracts): '+', '.join(f'`{tg}`' if tg!='init' else f'`{n}`' for tg,n in sorted(by[p])))
t=t.replace('__TABLE__','\n\n'.join(o))
open('DESIGN.md','w').write(t)
