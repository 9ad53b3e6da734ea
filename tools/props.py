"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', claim=True, reason='', bounded=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
    if not claim:
        NA.append(dict(property=id, reason=reason))
    P[-1]['_note'], P[-1]['_claim'], P[-1]['_bounded'] = note, claim, bounded


exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
BASE = ('Every obligation generated from the compiled MIR of the real entry points is discharged for all inputs; trusted: '
        'rustc front end, the executor, the library contracts listed in the evidence file, z3. ')
BOUNDED = ('Bounded: every obligation generated from the compiled MIR of the real entry points is discharged for all inputs whose lists are '
           'no longer than stated (values, addresses and everything else unbounded); not counted as proved beyond that. Trusted: rustc front end, the '
           'executor, the library contracts listed in the evidence file, z3. ')
m = dict(version=1, setup_cmd='python3-vt engine/check.py --setup',
         checks=[dict(property=p['id'], quick_cmd=f"python3-vt engine/check.py {p['id']}",
                      thorough_cmd=f"python3-vt engine/check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                      technique='contracts on real entry points; verification conditions from compiled MIR, discharged by normal form + z3; failures replayed on the real contract',
                      level='other' if p['_bounded'] else 'proof', level_note=(BOUNDED if p['_bounded'] else BASE) + p['_note']) for p in P if p['_claim']],
         not_applicable=NA,
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
