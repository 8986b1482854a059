#!/usr/bin/env python3
"""Reads the harnesses' sources and writes plan.json (what check.py runs) and harness/src/table.rs.

A harness is a `#[no_mangle] pub fn cNN_name()`; its doc comment says what it decides, and lines
that begin with @ say within which bounds:
  @bounds TEXT      bounds of the quick check (and of the thorough one unless @deep is given)
  @deep TEXT        bounds of the thorough check
  @shards Q T       number of processes the exploration is divided among
  @seconds Q T      time limit of the exploration
  @steps N          instructions on one path after which it counts as not terminating
  @reach TAG        a tag that must be reached (besides those in the body)
  @also PROPERTY..  what it decides is part of these properties too
  @thorough         only in the thorough check
  @threads          runs several threads: what goes wrong depends on a schedule the machine cannot be
                    told, so that a violation counts even if the compiled program does not repeat it
"""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, 'harness', 'src')
plan, table = {}, {}
for fn in sorted(os.listdir(SRC)):
    if not fn.endswith('.rs') or fn in ('main.rs', 'table.rs'):
        continue
    mod = fn[:-3]
    s = open(os.path.join(SRC, fn)).read()
    m = re.search(r'^//! features: (\w+)', s, re.M)
    feat = m.group(1) if m else ''
    # a module that is only there without a feature
    no = re.search(r'^//! without: (\w+)', s, re.M)
    pos = [x for x in re.finditer(r'((?:^///.*\n)*)^#\[no_mangle\]\npub fn (([cx]\d\d)_\w+)\(\)', s, re.M)]
    for i, x in enumerate(pos):
        doc = [l[3:].strip() for l in x.group(1).splitlines()]
        d = {}
        for l in doc:
            if l.startswith('@'):
                k, _, v = l[1:].partition(' ')
                if k == 'reach':
                    d.setdefault('reach', []).append(v)
                else:
                    d[k] = (d[k] + ' ' if k in d else '') + v
        # the body: up to the brace in the first column
        body = s[x.end():]
        body = body[:body.index('\n}')]
        h = {
            'name': x.group(2),
            'what': ' '.join(l for l in doc if not l.startswith('@')),
            'bounds': {'quick': d.get('bounds', ''), 'thorough': d.get('deep', d.get('bounds', ''))},
            'reach': sorted(set(re.findall(r'sym::reach\(\s*"([^"]*)"', body)) | set(d.get('reach', []))),
        }
        assert h['what'], h['name']
        if feat:
            h['features'] = feat
        if 'shards' in d:
            a, b = d['shards'].split()
            h['shards'] = {'quick': int(a), 'thorough': int(b)}
        if 'seconds' in d:
            a, b = d['seconds'].split()
            h['seconds'] = {'quick': int(a), 'thorough': int(b)}
        if 'steps' in d:
            h['steps'] = int(d['steps'])
        if 'threads' in d:
            h['engine_only'] = True
        if 'thorough' in d:
            h['thorough_only'] = True
        for k in [x.group(3).upper()] + d.get('also', '').split():
            plan.setdefault(k, []).append(h)
        table.setdefault((feat, no.group(1) if no else ''), []).append('%s::%s' % (mod, x.group(2)))
out = {'_assumptions': open(os.path.join(HERE, 'assumptions.txt')).read().strip().split('\n')}
for k in sorted(plan):
    out[k] = {'harnesses': plan[k]}
json.dump(out, open(os.path.join(HERE, 'plan.json'), 'w'), indent=1)
t = '// Written by mkplan.py.\npub static TABLE: &[(&str, fn())] = &[\n'
for f in sorted(table):
    for p in table[f]:
        t += ('    #[cfg(feature = "%s")]\n' % f[0] if f[0] else '    #[cfg(not(feature = "%s"))]\n' % f[1] if f[1] else '') + '    ("%s", crate::%s),\n' % (p.split('::')[1], p)
open(os.path.join(SRC, 'table.rs'), 'w').write(t + '];\n')
print({k: len(v) for k, v in plan.items()})
