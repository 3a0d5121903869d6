"""Regenerates the table of planted bugs in DESIGN.md from /verif/seeded."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    p = open(f'{root}/seeded/{i}/patch.diff').read()
    f = re.search(r'\+\+\+ b/(\S+)', p).group(1).replace('multisim/', '')
    n = m['needs'].replace('|', '/').replace('\n', ' ')
    rows.append((m['property'], i, f, n, m.get('caught_by', m['property'])))
rows.sort()
out = ['| planted bug | property | file | needs | caught by |', '|---|---|---|---|---|']
out += [f'| `{i}` | {p} | {f} | {n} | {c} |' for p, i, f, n, c in rows]
d = open(root + '/DESIGN.md').read()
h, t = d.split('<!-- seeds -->\n')[0], d.split('<!-- /seeds -->')[1]
open(root + '/DESIGN.md', 'w').write(h + '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->' + t)
