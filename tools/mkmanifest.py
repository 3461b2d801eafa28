#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per contracts/Cxx.py; NOTES holds what a property's note adds."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = 'contracts on the real functions, discharged by a deductive verifier (symbolic execution with loop summaries of the ' \
       'clang IR of /repo, SMT back ends z3 and cvc5)'
COMMON = ('Every obligation (postcondition, frame, memory bounds, no division by zero, exceptions exactly when stated) is '
          'generated from /repo\'s current source on each run and discharged for all inputs with no bound on sizes or '
          'iterations. Trusts clang -O0 IR, the symbolic executor in vc/, z3/cvc5; allocation never fails; floating point '
          'operations uninterpreted (results compared as the same operations). A replay driver runs the real code on '
          'generated inputs to turn a failed obligation into a failing input. ')
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
NA = {
    'C24': 'no check built yet',
    'C25': 'A statement about floating point rounding (sum equal to one up to rounding): the verifier treats floating point '
           'operations as uninterpreted, no contract within reach expresses the rounding error for an unbounded width.',
}


def main():
    checks, na = [], []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)['id']
        if os.path.exists(os.path.join(ROOT, 'contracts', p + '.py')):
            n = NOTES.get(p, {})
            checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                           'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p,
                           'technique': n.get('technique', TECH), 'level': n.get('level', 'proof'),
                           'level_note': (COMMON if n.get('level', 'proof') == 'proof' else '') + n.get('note', '')})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
