import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import registry
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 bin/setup.py',  checks=[], not_applicable=[],
         notes='see DESIGN.md; engine/ is a path-exploring symbolic executor for the LLVM IR of /repo/src with z3 as deciding step')
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=p.get('technique', 'symbolic execution of the compiled sources (LLVM IR) with SMT (z3) over all values within the stated bounds'),
                                level='model_checking', level_note=p['note'] if 'note' in p else 'Holds for every value within the bounds: ' + '; '.join(p['bounds']) + '. Doubles are modelled as reals; formatted/IO parts and JSON schema validation are outside.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=registry.NA.get(i, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
