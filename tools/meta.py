#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a rule set are claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis')); sys.dont_write_bytecode = True
import rules
P = []
def p(id, title, statement, over, quant, why, files, mech, tech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe, state=state))
NA = []
def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))

AI = 'abstract interpretation of monomorphic MIR (value numbering + linear inequalities, trace partitioning, loop invariants)'
BASE = 'Sound over the analysed MIR up to the listed assumptions and the hand-written contracts of std/OS leaf calls (analysis/models.py); undecidable constructs are reported as violations, never skipped. '

exec(open(os.path.join(V, 'tools', 'props.py')).read())

ids = [x['id'] for x in P + NA]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in sorted(P + NA, key=lambda x: x['id']):
        if 'reason' not in x and x['id'] not in rules.RULES: print('not claimed yet:', x['id'], x['title']); continue
        assert len(x['title']) <= 80, x['title']
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
        if x.get('state'): a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']]
        if x.get('observe'): a['observe_at'] = list(x['observe'])
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['quant']}, 'why_tests_cant': x['why'], 'anchors': a}) + '\n')
checks = []
for x in sorted(P, key=lambda x: x['id']):
    if x['id'] not in rules.RULES: continue
    checks.append({'property': x['id'], 'quick_cmd': './check %s' % x['id'], 'thorough_cmd': './check %s --tier thorough' % x['id'],
                   'evidence_file': 'evidence/%s.json' % x['id'], 'technique': x['tech'], 'level': 'other', 'level_note': BASE + x['note']})
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks,
     'not_applicable': [{'property': x['id'], 'reason': x['reason']} for x in NA],
     'notes': 'All checks are static: a rustc_private driver (driver/) dumps the resolved, monomorphic MIR of /repo\'s working tree in both feature configurations; analysis/ interprets it abstractly and never runs it. No hooks are added to /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
missing = [k for k in rules.RULES if k not in ids]
assert not missing, missing
print(len(checks), 'checks')
