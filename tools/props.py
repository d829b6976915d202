#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe='public API results, contents and heap blocks after every operation'):
    ss = statement.split('. '); statement = '. '.join(ss[:2]) + ('. ' + '; '.join([ss[2]] + [x[0].lower() + x[1:] for x in ss[3:]]) if len(ss) > 2 else '')
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))
exec(open(V + '/tools/props_data.py').read())
P.sort(key=lambda p: p['id'])
TECH = "solver-based checking: symbolic execution of the LLVM IR of the real sources, every branch, bound and assertion decided by SAT/SMT; counterexamples replayed natively"
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': [p['observe']], 'hook_needed': None}}) + '\n')
na = [{'property': i, 'reason': r} for i, r in NA]
ids = {i for i, _ in NA}
man = {'version': 1, 'setup_cmd': 'cd /verif && python3 check.py --setup', 'checks': [{'property': p['id'], 'quick_cmd': 'cd /verif && python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'cd /verif && python3 check.py %s --tier thorough' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] not in ids], 'not_applicable': na}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
