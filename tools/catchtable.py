#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (what caught each is listed in seeded/caught.json, written by hand after seed.py catch)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
p = ROOT + '/DESIGN.md'
s = open(p).read()
block = '<!-- bugs -->\nThe check of the property named first catches it, unless noted otherwise.\n\n' + '\n'.join(rows) + '\n<!-- /bugs -->'
s = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda _: block, s, flags=re.S) if '<!-- bugs -->' in s else s.replace('CATCHTABLE', '\n\n' + block)
open(p, 'w').write(s)
