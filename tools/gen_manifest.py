#!/usr/bin/env python3
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': [], 'not_applicable': []}
if registry.HOOK_COMMITS:
    m['hooks'] = {'guard': 'cfg(typelalr_verif)', 'enable': 'RUSTFLAGS="--cfg typelalr_verif" cargo build (done by /verif/check)', 'source_commits': registry.HOOK_COMMITS}
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c:
        m['checks'].append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check %s --tier thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'model checking: ' + c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
