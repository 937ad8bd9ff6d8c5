import json, glob
# fills in the table of planted bugs
t = open('/verif/tools/design.tmpl').read()
rows = ''
for m in sorted(glob.glob('/verif/seeded/*/meta.json') + glob.glob('/verif/planted/*/meta.json'), key=lambda m: m.split('/')[-2]):
    d = json.load(open(m))
    rows += f"| {m.split('/')[-2]} | {d['property']} | {d['what_it_breaks'][:110]} | {d.get('caught', d['property'])} |\n"
open('/verif/DESIGN.md', 'w').write(t.replace('@@BUGS@@\n', rows).replace('@@EXTRA@@\n', ''))
