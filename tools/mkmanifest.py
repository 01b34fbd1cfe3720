#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, 'tools'))
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(D, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
m['notes'] = 'No hooks in /repo are needed: every monitor observes the public interface and sanitizer reports. Every check compiles its harness from the headers in /repo (VERIF_REPO overrides the path for experiments). KNOWN_FINDINGS.txt lists the recorded and repaired defects.'
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
            evidence_file='evidence/%s.json' % p, technique=c.get('technique', 'runtime monitoring: value/structure oracle over generated executions under ASan+UBSan'),
            level=c.get('level', 'exploration'), level_note=c.get('note', 'Sampled executions of the real headers judged by an oracle independent of the library; assumes the oracle\'s long-double evaluation and its error bounds, and says nothing about inputs outside the generated families.')))
    else:
        m['not_applicable'].append(dict(property=p, reason='no monitor built yet'))
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
