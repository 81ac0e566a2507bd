"""Rewrites MANIFEST.json from plan.py (run by hand after editing the plan)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_SYM = 'symbolic execution of the real generic code on symbolic elements (symx), z3 decides every branch and assertion'
T_KANI = 'bounded model checking of the real functions\' MIR (Kani/CBMC, SAT)'
checks = []
for p, d in sorted(plan.PLAN.items()):
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=' + '.join(([T_SYM] if d['sym'] else []) + ([T_KANI] if d['kani'] else [])), level='other',
                       level_note='Bounded: holds for every value within the bounds in lib/plan.py and the evidence (%s); nothing is claimed outside them. Trusts: %s.' % (d['bounds'], '; '.join(d['assume']))))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(plan.NOT_APPLICABLE.items())],
         notes='No hooks in /repo. known_findings.txt lists the defects found and repaired. See DESIGN.md.')
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
