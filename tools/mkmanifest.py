"""writes MANIFEST.json: claimed = checks/<id>.py exists; everything else is not_applicable with a reason"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
NA = NOTE.get('not_applicable', {})
checks, na = [], []
DEF = ('Every obligation generated from the current source is discharged by SMT for all inputs, or (ground lemmas over finite tables) by evaluating every instance. '
       'Trusts clang/LLVM lowering, the IR semantics of /verif/engine and z3; remaining assumptions are listed in the evidence file.')
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)):
        checks.append({'property': i, 'quick_cmd': 'python3-vt checks/run.py %s' % i, 'thorough_cmd': 'python3-vt checks/run.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': NOTE.get('technique', {}).get(i, 'contract-based deductive verification of the LLVM IR extracted from /repo on every run (SMT)'),
                       'level': 'proof', 'level_note': NOTE.get('level_note', {}).get(i, '') + (' ' if i in NOTE.get('level_note', {}) else '') + DEF})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the contract check for this property is not finished; not claimed')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are attached to the extracted IR from /verif; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
