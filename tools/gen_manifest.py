"""writes /verif/MANIFEST.json from props.PROPS and the table of reasons below"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mirvc'))
import props

NA = {
}
NOTE = ('Every obligation of the contracts of the functions involved, generated from the MIR of the current source by symbolic execution with inferred and checked loop invariants, is discharged by '
        'z3 or cvc5: no bound on inputs, iterations, accounts or interleavings. Trusted: rustc, the extractor, the condition generator, the contracts of library functions (listed per run in the evidence), '
        'and, for what other threads may do between two critical sections, the rely condition which C01 discharges for every entry point. An obligation that fails is replayed with concrete runs of the real program.')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        m['checks'].append({'property': i, 'quick_cmd': f'python3-vt mirvc/check.py {i}', 'thorough_cmd': f'python3-vt mirvc/check.py {i} thorough',
                            'technique': 'contract-based deductive verification of the MIR of the real code (symbolic execution, inferred invariants, rely/guarantee over the state lock; z3 and cvc5)',
                            'level': 'proof', 'level_note': NOTE + props.PROPS[i].get('note', '')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed')
