# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, glob, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(f))
    one = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], one(m['what_it_breaks']), one(m['needs'])))
s = open(d + '/DESIGN.md').read()
h = '| bug | caught by | breaks | needs |\n|---|---|---|---|\n'
i = s.index(h) + len(h)
j = s.index('\n\n', i)
open(d + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
