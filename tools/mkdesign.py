#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
p = root + '/DESIGN.md'; t = open(p).read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = t.replace('@@SEEDS@@', table) if '@@SEEDS@@' in t else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: table, t, flags=re.S)
open(p, 'w').write(t)
