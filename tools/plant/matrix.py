"""Writes the matrix of planted bugs into DESIGN.md, from seeded/*/meta.json.
Which check catches each was seen when it was run by plant.py."""
import glob, json, os, re
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| {} | {} | {} |'.format(os.path.basename(os.path.dirname(m)),
                                          d['property'], d['needs']))
p = '/verif/DESIGN.md'
s = open(p).read()
b = '<!-- matrix -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if '@@MATRIX@@' in s:
    s = s.replace('@@MATRIX@@', b)
else:
    s = re.sub(r'<!-- matrix -->.*<!-- end -->', lambda _: b, s, flags=re.S)
open(p, 'w').write(s)
