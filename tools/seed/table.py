#!/usr/bin/env python3
"""Adds what detection logs (arguments: files detect-ID.log / sd-ID.log) say to caught.json and rewrites DESIGN.md's table."""
import json, glob, re, os, sys
H = os.path.dirname(os.path.abspath(__file__))
C = H + '/caught.json'
caught = json.load(open(C)) if os.path.exists(C) else {}
for f in sys.argv[1:]:
    id = re.sub(r'^(detect|sd)-|\.log$', '', os.path.basename(f))
    t = open(f).read()
    hs = sorted(set(re.findall(r'^(c\d\d_\w+): ', t, re.M)) | set(re.findall(r'replay-C\d\d-(c\d\d_\w+)\.txt', t)))
    if hs and os.path.isdir('/verif/seeded/' + id): caught[id] = hs
json.dump(caught, open(C, 'w'), indent=0, sort_keys=True)
out = '| planted change | what it breaks | caught by the check of |\n|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*')):
    id = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    out += '| %s | %s | %s (%s) |\n' % (id, m['what_it_breaks'], m['property'], ', '.join('`%s`' % h for h in caught.get(id, [])) or 'not tried yet')
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- end -->)', lambda m: m[1] + out + m[2], s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
print(len(caught), 'of', len(glob.glob('/verif/seeded/*')))
