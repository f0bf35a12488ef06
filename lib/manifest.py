"""Writes MANIFEST.json: one check per property that props.py implements, the others under not_applicable."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 /verif/check.py %s' % i,
                           evidence_file='evidence/%s.json' % i, level='model_checking',
                           technique='TLA+ specification explored by TLC; its behaviours replayed on the compiled C++ headers and compared call by call',
                           level_note=props.NOTES.get(i, 'conformance to the specification on every behaviour TLC explored; behaviours are a bounded, seeded selection of the input space')))
    else: na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
