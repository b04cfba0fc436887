"""seedtable.py < output of run_seeds.sh: rewrites the table of planted bugs in DESIGN.md"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in sys.stdin:
    m = re.match(r'(\S+) (C\d\d) check (C\d\d) rc=(\d)', line)
    if m:
        res.setdefault(m[1], {})[m[3]] = m[4] == '1'
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for sid in sorted(os.listdir(V + '/seeded')):
    meta = json.load(open(V + '/seeded/%s/meta.json' % sid))
    by = ', '.join(c for c, ok in sorted(res.get(sid, {}).items()) if ok) or 'missed'
    rows.append('| %s | %s | %s | %s |' % (sid, meta['property'], meta['needs'], by))
p = V + '/DESIGN.md'
s = open(p).read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', table)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- end -->', lambda m: table, s, flags=re.S)
open(p, 'w').write(s)
