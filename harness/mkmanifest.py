"""writes MANIFEST.json from config.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config                # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)['id'] for x in open(os.path.join(VERIF, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 harness/setup.py',
     'checks': [{
         'property': p,
         'quick_cmd': 'python3 harness/check.py %s quick' % p,
         'thorough_cmd': 'python3 harness/check.py %s thorough' % p,
         'technique': config.TECHNIQUE + (' ' + config.TECHNIQUES[p] if p in config.TECHNIQUES else ''),
         'level': 'model_checking',
         'level_note': config.LEVEL_NOTE} for p in ids if p in config.PROPS],
     'not_applicable': [{'property': p, 'reason': config.NOT_APPLICABLE[p]}
                        for p in ids if p not in config.PROPS]}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
