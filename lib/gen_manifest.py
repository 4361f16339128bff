#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from lib import config
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 lib/setup.py',
  hooks=dict(guard='none', enable='No hooks: the verifier reads private functions by extraction from the source tree, and the executable contracts use public items only.', source_commits=[]),
  checks=[dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} --thorough', technique=config.CHECKS[p]['technique'], level=config.CHECKS[p]['level'], level_note=config.CHECKS[p]['note'],
    **({'theorems': config.CHECKS[p]['theorems']} if 'theorems' in config.CHECKS[p] else {})) for p in props if p in config.CHECKS],
  not_applicable=[dict(property=p, reason=config.NOT_APPLICABLE.get(p, 'check not built yet')) for p in props if p not in config.CHECKS])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
