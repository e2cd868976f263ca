"""Writes MANIFEST.json from registry.CHECKS and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        t, n = registry.NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
