import sys,json,glob,re
rows=[]
for f in glob.glob('/var/tmp/confirm/*.log'):
    for l in open(f):
        m=re.match(r'^(p\d\d\w*) (OK|\?\?) (\{.*\})$',l.strip())
        if m: rows.append((m[1],m[2],json.loads(m[3])))
for i,o,d in sorted(rows):
    t=d.get('tests',['?'])[0]
    t='pass' if t.endswith('failing []') else t[:150]
    print(f"{i:32} {o} tests={t} patched={d.get('patched')} check={d.get('check')} {[v.split('replay=')[-1].split('/')[-1] for v in d.get('vio',[])]} {d.get('err','')[:150]}")
