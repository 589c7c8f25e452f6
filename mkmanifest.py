"""regenerate MANIFEST.json from properties.jsonl and contracts/props.py (developer tool)"""
import json, sys
sys.path[:0] = ['llvc', 'contracts']
import props
ps = [json.loads(l) for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'contract-based deductive verification of the LLVM IR of /repo (see DESIGN.md); no hooks in /repo'}
na = props.NOT_APPLICABLE
for p in ps:
    i = p['id']
    if i in props.PROPS:
        P = props.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough python3-vt check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': P.get('technique', 'contract-based deductive verification (VC generation on LLVM IR of the real functions, z3/cvc5)'), 'level': P.get('level', 'proof'), 'level_note': P['note']})
        if P.get('theorems'): m['checks'][-1]['theorems'] = P['theorems']
    else: m['not_applicable'].append({'property': i, 'reason': na[i]})
json.dump(m, open('MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
