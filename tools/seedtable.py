"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f, d in [(f, d) for f in ('seeded', 'planted_fortran') for d in sorted(os.listdir(here + '/' + f))]:
    m = json.load(open('%s/%s/%s/meta.json' % (here, f, d)))
    rows.append((m['property'], d + (' (Fortran)' if f != 'seeded' else ''), m['needs'].replace('|', '/').replace('\n', ' ')))
t = '| property = quick check that catches it | planted bug | needs |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % r for r in sorted(rows))
s = open(here + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + t + '\n<!-- /seeds -->', s, flags=re.S)
open(here + '/DESIGN.md', 'w').write(s)
