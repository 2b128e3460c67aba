#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: one section per property, and the table of planted bugs."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
from docs import DOCS
from props import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
s = ''
for p in props:
    i = p['id']
    s += '### %s %s\n\n' % (i, p['title'])
    if i in NOT_APPLICABLE: s += 'Not applicable: %s\n\n' % NOT_APPLICABLE[i]; continue
    o, q, t, x = DOCS[i]
    s += '- Harnesses: %s.\n- Oracle: %s\n- Bounds (quick): %s.\n- Bounds (thorough): %s.\n- Outside: %s\n- Beyond the tests: %s.\n\n' % (', '.join('`%s` (harness/%s.cpp)' % (r['entry'], r['harness']) for r in PROPS[i]['runs']), o, q, t, x, p['why_tests_cant'])
b = '| planted bug | property | caught by | needs |\n|---|---|---|---|\n'
caught = json.load(open(ROOT + '/tools/caught.json'))
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
    b += '| %s | %s | %s | %s |\n' % (d, m['property'], caught.get(d, ''), m['needs'].replace('|', '/'))
p = ROOT + '/DESIGN.md'
t = open(p).read()
for k, v in (('properties', s), ('planted bugs', b)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m[1] + v + m[2], t, flags=re.S)
open(p, 'w').write(t)
