#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from covers import COVERS
T = os.path.join(ROOT, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read()]
for ln in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(ln)
    k = COVERS[d['id']]
    out.append('\n**%s %s**\n* model: %s\n* bound to the code: %s\n* oracle: %s\n* limits: %s\n* beyond the tests: %s\n' % (d['id'], d['title'], k['model'], k['bound'], k['oracle'], k['limits'], d['why_tests_cant']))
out.append('\n## 4. Planted bugs (`seeded/`)\n\nEach was written from the text of a property and the code alone, passes the existing tests and has a demonstration. '
           'The last column is the check that reports it.\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|\n')
for p in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    n = os.path.basename(os.path.dirname(p))
    out.append('| %s | %s | %s | %s |\n' % (n, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
out.append(open(os.path.join(T, 'design_mut.md')).read())
out.append(open(os.path.join(T, 'design_tail.md')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
