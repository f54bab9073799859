'''properties.jsonl and MANIFEST.json from tools/text.py and dst/catalogue.py'''
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(VERIF, 'dst')]
from text import PROPS, NOT_APPLICABLE
from catalogue import CHECKS

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['prop'] for n in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                         'observe_at': list(p['observe']), 'hook_needed': None}}
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        f.write(json.dumps(d) + '\n')

checks = []
for p in PROPS:
    assert p['id'] in CHECKS, p['id']
    c = CHECKS[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3 dst/check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 dst/check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'],
                   'level_note': p['note'] or 'Seeded search: a clean batch is evidence for the histories explored, not a proof. %d seeds quick, '
                   'up to %d thorough.' % (c['seeds']['quick'], c['seeds']['thorough'])})
assert set(CHECKS) == set(p['id'] for p in PROPS), (set(CHECKS) ^ set(p['id'] for p in PROPS))
man = {'version': 1, 'setup_cmd': 'python3 dst/selftest.py',
       'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the simulator interposes on the interpreter (profile hook, '
                 'injected set type, fork) and through the public API.', 'source_commits': []},
       'checks': checks, 'not_applicable': [{'property': n['prop']['id'], 'reason': n['reason']} for n in NOT_APPLICABLE],
       'notes': 'One seed is one exactly repeatable execution; see DESIGN.md. Known findings: known_findings.json'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
