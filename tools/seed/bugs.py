#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in bugs/*.py (edits as old/new text against /repo)."""
import re, glob, json, os, subprocess, sys, difflib
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, features=''):
    assert id not in BUGS
    BUGS[id] = (prop, needs, breaks, edits, demo, features)
for f in sorted(glob.glob(HERE + '/bugs/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
want = sys.argv[1:] or [b for b in BUGS if BUGS[b][3]]
for id in want:
    prop, needs, breaks, edits, demo, features = BUGS[id]
    d = os.path.join(OUT, id); os.makedirs(d, exist_ok=True)
    new = {}
    for f, old, rep in edits:
        s = new.get(f) or open('/repo/' + f).read()
        # trace lines between the quoted ones do not matter
        rx = '\n(?: *tracing::[^\n]*;\n)*(?: *#\\[tracing[^\n]*\n)*'.join(re.escape(l) for l in old.split('\n'))
        assert len(re.findall(rx, s)) == 1, (id, f, len(re.findall(rx, s)), old)
        new[f] = re.sub(rx, lambda _: rep, s)
    out = ''
    for f, s in new.items():
        o = open('/repo/' + f).read()
        out += ''.join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write('#[path = "kit.rs"]\nmod kit;\n#[allow(unused_imports)]\nuse kit::*;\n\n' + demo.strip() + '\n')
    open(d + '/features', 'w').write(', '.join('"%s"' % x for x in features.split()))
print('written', len(want))
