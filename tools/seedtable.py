"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for p in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(p))
    needs = ' '.join(m['needs'].split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], needs, m.get('caught_by', m['property'] + ' quick')))
s = open(root + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', a + b.rstrip('\n'))
    if not s.endswith('\n'): s += '\n'
i, j = s.index(a) + len(a), s.index(b)
open(root + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
