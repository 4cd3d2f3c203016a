#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| Bug | Detected by | What it breaks | Needs |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    cut = lambda s: re.sub(r'\s+', ' ', s).replace('|', '\\|')
    rows.append('| %s | %s%s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                ' (%s)' % m['note'] if 'note' in m else '', cut(m['what_it_breaks']), cut(m['needs'])))
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- seeded:[^\n]*-->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
