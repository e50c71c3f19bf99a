"""Rewrite the generated tables of DESIGN.md (harness bounds from /verif/evidence, planted bugs from
/verif/seeded).  Usage: design_tables.py   (run every check first: it reads the evidence files)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for f in sorted(glob.glob(root + '/evidence/P*.json')):
    d = json.load(open(f)); c = d['coverage']; s = c.get('solver', {})
    out.append(f"**{d['property']}** - {c.get('states')} paths, {s.get('queries')} queries, {float(s.get('seconds', 0)):.0f} s solver time, {d['wall_s']:.0f} s wall ({d['tier']})\n")
    out.append('| harness | what | bounds |\n|---|---|---|')
    for h in c.get('harnesses', []):
        out.append(f"| {h['harness']} | {h.get('about', '')} | {h.get('bounds', '')} |".replace('||', '\\|\\|'))
    out.append('')
bounds = '\n'.join(out)
rows = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |".replace('||', '\\|\\|'))
p = root + '/DESIGN.md'
t = open(p).read()
for tag, body in (('BOUNDS', bounds), ('SEEDS', '\n'.join(rows))):
    t = re.sub(rf'(<!-- {tag} -->\n).*?(<!-- /{tag} -->)', lambda m: m.group(1) + body + '\n' + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
