"""Writes MANIFEST.json from properties.jsonl and the lemma modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'contracts', pid.lower() + '.py')
    lem = os.path.exists(f)
    note = ''
    if lem:
        ns = {}
        src = open(f).read()
        note = src.split('"""')[1].strip() if src.startswith('"""') else ''
        note = ' '.join(note.split())
    c = dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
             evidence_file='evidence/%s.json' % pid)
    if lem:
        c.update(technique='contract-based deductive verification of the Python source (pyvc: symbolic execution, VCs discharged by z3/cvc5), with contracts evaluated on the real code as bounded stand-in',
                 level='proof',
                 level_note=('Proved obligations hold for all inputs in the stated domain; functions outside the verifier\'s reach are decided by contracts '
                             'evaluated on the real code under Jython (bounded, never counted as proved). ' + note)[:1800])
    else:
        c.update(technique='contracts (pre/postconditions, invariants) of the real functions evaluated on the real code, bounded', level='other',
                 level_note='Bounded: the contracts are evaluated on generated and fixed corner-case inputs of the real code under Jython; nothing is counted as proved.')
    checks.append(c)
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
         notes='Each check extracts the ASTs of /repo/pyamf with Jython on every run; see DESIGN.md. No hooks were added to /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
