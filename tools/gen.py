#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts compiled against the real headers, VCs generated from the LLVM IR of the real functions, discharged by exact algebra + z3'
NOTE = 'every obligation generated from the current source is discharged for all inputs of the stated domain over exact real/integer arithmetic; assumptions and any bounded stand-in are listed in the evidence file'
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level='proof', note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}))))
    P[-1]['_m'] = (level, note or NOTE, tech or TECH)


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        h.write(json.dumps({k: v for k, v in p.items() if k != '_m'}) + '\n')
nas = {n['property'] for n in NA}
man = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy" && clang++ --version > /dev/null',
           checks=[dict(property=p['id'], quick_cmd='./checks/run.py %s --tier quick' % p['id'],
                        thorough_cmd='./checks/run.py %s --tier thorough' % p['id'],
                        technique=p['_m'][2], level=p['_m'][0], level_note=p['_m'][1])
                   for p in sorted(P, key=lambda p: p['id']) if p['id'] not in nas],
           not_applicable=NA,
           notes='The checks compile contracts/ against /repo/src on every run (IR for the verifier, native for replaying counterexamples). No hooks in /repo; the defects found were repaired in fix: commits (known_findings.json).')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    for p in P:
        jsonschema.validate({k: v for k, v in p.items() if k != '_m'}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P), 'properties', len(man['checks']), 'checks')
except ImportError:
    print('no jsonschema')
