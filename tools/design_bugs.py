"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(top, 'seeded'))):
    m = json.load(open(os.path.join(top, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
p = os.path.join(top, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(?s)(<!-- bugs -->\n).*(<!-- /bugs -->)', lambda k: k.group(1) + '| bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + k.group(2), s)
open(p, 'w').write(s)
