"""rewrites the list of planted bugs in DESIGN.md section 8 from seeded/*/meta.json"""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('* `%s` → %s: %s (needs %s)' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
s = open(R + '/DESIGN.md').read()
i = s.index('## 8'); j = s.index('## 9')
head = s[i:j].split('\n* `')[0]
open(R + '/DESIGN.md', 'w').write(s[:i] + head.rstrip('\n') + '\n\n' + '\n'.join(rows) + '\n\n' + s[j:])
