#!/usr/bin/env python3
"""check.py PROPERTY — decides one property on /repo's current tree.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken, and
the counterexample was reproduced against the ordinary build. Exit 2: the check
could not decide (build failure, solver limit, counterexample not reproduced).
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import kanirun, symrun, plan

VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    deadline = t0 + (840 if tier == 'quick' else 6 * 3600)
    p = plan.PLAN[prop]
    logs = []

    def log(m):
        logs.append(m)
        print('  ' + m, flush=True)

    errors, confirmed, cov = [], [], {}
    harn = []
    # engine 2 first: it is fast
    if p.get('sym'):
        s = symrun.run(prop, p['sym'], tier, deadline, log)
        cov['symx'] = s['summary']
        errors += s['errors']
        confirmed += s['confirmed']
    if p.get('kani') and not confirmed:
        k = kanirun.run(prop, p['kani'], tier, deadline, log, p.get('must_compile', ()))
        confirmed += k['rejected']
        cov['kani'] = dict(
            harnesses=k['harnesses'],
            functions_encoded=sorted(k['functions']),
            source_lines_with_obligations=len(k['lines']),
            queries_discharged=k['checks'],
            reachability_witnesses=k['vacuity'],
            solver_s=round(k['solver_s'], 2), symex_s=round(k['symex_s'], 2))
        if k['violations']:
            c = kanirun.confirm(k, deadline, log)
            confirmed += c
            if not c:
                errors += ['%s: solver counterexample not reproduced natively: %s' % (v[2], v[3]) for v in k['violations']]
        errors += k['errors']
    findings = known(prop)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 0
    if confirmed:
        rc = 1
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, prop + '.json')
        json.dump(confirmed, open(rp, 'w'), indent=1, default=str)
    elif errors:
        rc = 2
    cov['explanation'] = p['explain']
    cov['bounds'] = p['bounds']
    cov['outside'] = p['outside']
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=p['assume'],
              wall_s=round(time.time() - t0, 2), violations=len(confirmed), errors=errors)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if confirmed:
        for c in confirmed[:1]:
            print('  counterexample: %s' % json.dumps(c, default=str)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    elif errors:
        for e in errors:
            print('ERROR %s: %s' % (prop, e))
    else:
        print('HELD %s (%s, %.1f s)' % (prop, tier, time.time() - t0))
    sys.stdout.flush()
    sys.exit(rc)


def known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
