#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
               technique='solver-based symbolic execution of the LLVM IR of the real code (Z3)' + (' with systematic schedule exploration' if PROPS[i].get('threads') else ''),
               level='model_checking',
               level_note='Bounded: every input' + (' and schedule' if PROPS[i].get('threads') else '') + ' within the stated bounds is covered by solver-decided paths of the compiled code; assumes the library models in shadow/ and runtime/ behave like the real libraries (sampled paths are replayed natively to check that). ' + PROPS[i].get('note', ''))
          for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'No check has been built for this property yet.')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Engine, runtime models and harnesses are in engine/, shadow/, runtime/ and harness/; see DESIGN.md.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
