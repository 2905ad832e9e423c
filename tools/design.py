"""dev tool: writes DESIGN.md from DESIGN.head.md, the property table (tools/props_table.py), tools/design_notes.py and seeded/*/meta.json"""
import json, os, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = runpy.run_path(H + '/tools/props.py', run_name='x').get('PROPS') or runpy.run_path(H + '/tools/props_table.py')['PROPS']
notes = runpy.run_path(H + '/tools/design_notes.py')['NOTES']
catch = {}
f = H + '/tools/catch.txt'
if os.path.exists(f):
    for l in open(f):
        w = l.split(None, 2)
        if len(w) >= 2:
            catch[w[1]] = (w[0], w[2].strip() if len(w) > 2 else '')
out = [open(H + '/tools/DESIGN.head.md').read()]
out.append('\n## 5. Property by property\n')
for p in PROPS:
    out.append('### %s — %s' % (p['id'], p['title']))
    n = notes.get(p['id'])
    if p.get('na'):
        out.append('Not applicable: %s\n' % p['na'])
        continue
    out.append((n or 'MISSING NOTE') + '\n')
out.append('\n## 6. Planted bugs and the checks that report them\n')
out.append('`tools/catch.py` applies each patch of `seeded/` in a scratch copy and runs the check of its property.\n')
out.append('| planted bug | property | what it needs to show | reported as |\n|---|---|---|---|')
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % s))
    c = catch.get(s, ('?', ''))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), ('not caught' if c[0] == 'MISS' else c[1].replace('|', '/')) or 'caught'))
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
miss = [p['id'] for p in PROPS if p['id'] not in notes and not p.get('na')]
print('missing notes:', miss)
