#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from proptext.py (texts) and props.py (what is claimed)"""
import json, os
import props, proptext
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
for pid, d in proptext.TEXT.items():
    out.append(json.dumps(dict(id=pid, title=d['title'], statement=d['statement'],
                               quantifier=dict(over=d['over'], text=d['quant']), why_tests_cant=d['why'],
                               anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']],
                                            observe_at=d.get('observe', []), hook_needed=None))))
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
checks, na = [], []
for pid, d in proptext.TEXT.items():
    if pid in props.PROPS and not props.PROPS[pid].get('pending'):
        P = props.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s' % pid,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
                           technique=P.get('technique', 'contract-based deductive verification of the current sources '
                                           '(own VC generator over the clang AST, z3/cvc5); compiled conformance driver for failing inputs'),
                           level=P.get('level', 'proof'),
                           level_note=P.get('note', props.NOTE)))
    else:
        na.append(dict(property=pid, reason=proptext.NA.get(pid, 'machinery for this property is not finished yet')))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif/dv/specs and are checked against /repo\'s current sources on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
