"""Write section 7 of DESIGN.md: the planted bugs (seeded/*/meta.json)."""
import json
import pathlib
R = pathlib.Path(__file__).resolve().parent.parent
rows = ['| bug | caught by | what it breaks |', '|---|---|---|']
for m in sorted((R / 'seeded').glob('*/meta.json')):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {' '.join(d['what_it_breaks'].split())} |")
t = (R / 'DESIGN.md').read_text()
a, b = '<!-- bugs -->\n', '<!-- end of bugs -->\n'
if '@@BUGS@@' in t:
    t = t.replace('@@BUGS@@\n', '@@BUGS@@').replace('@@BUGS@@', a + b)
i, j = t.index(a) + len(a), t.index(b)
(R / 'DESIGN.md').write_text(t[:i] + '\n'.join(rows) + '\n' + t[j:])
