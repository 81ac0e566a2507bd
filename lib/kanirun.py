"""Engine 1: Kani/CBMC harnesses over the real crate.

Runs the harnesses of one property, classifies every solver verdict, and
replays counterexamples against the ordinary build before reporting them.
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.path.join(VERIF, 'kani')
BUILD = os.path.join(VERIF, '.build')

# Verdicts that are artefacts of the tool, not of the code. Each is exact.
#  - CBMC's memset model rejects a zero-length write to a zero-sized object;
#    only core::mem::uninitialized::<[T; 0]> writes that way here.
IGNORED = {('precondition_instance', 'memset destination region writeable')}


def env(extra=None):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'; e['RUST_BACKTRACE'] = '0'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    if extra:
        e.update(extra)
    return e


def harness_list(mod, tier):
    """[(name, unwind)] registered in src/<mod>.rs for this tier."""
    src = open(os.path.join(KANI, 'src', mod + '.rs')).read()
    out = []
    for name, unw, nd in re.findall(r'^\s*(%s_\w+)\s*\[(\d+)\]\s*(\w+)\s*=>' % mod, src, re.M):
        if name.endswith('_t') and tier != 'thorough':
            continue
        out.append((name, int(unw)))
    return out


PROFILE_ENV = {
    'dev': {},
    # release semantics of the library: no debug assertions
    'rel': {'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false', 'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'false'},
}


def cargo_kani(mod, profile, names, timeout, jobs=8, extra=(), hto=None):
    tdir = os.path.join(BUILD, 'kani-%s' % profile)
    out = os.path.join(BUILD, 'kani-%s-%s.json' % (mod, profile))
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = ['cargo', 'kani', '--lib', '--features', mod, '--target-dir', tdir, '-Z', 'unstable-options',
           '--no-assertion-reach-checks', '--exact']
    if hto:
        cmd += ['--harness-timeout', '%ds' % hto]
    for n in names:
        cmd += ['--harness', '%s::proofs::%s' % (mod, n)]
    cmd += list(extra)
    if not extra:
        cmd += ['-j', str(jobs), '--output-format', 'terse', '--export-json', out]
    p = subprocess.Popen(cmd, cwd=KANI, env=env(PROFILE_ENV[profile]), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        txt, _ = p.communicate()
        txt += '\n[check] overall timeout'
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            pass
    return p.returncode, txt, data


def classify(checks, must_panic):
    """-> (verdict, reason); verdict in held, violated, unwind, error, vacuous"""
    bad, unwind, unsup = [], [], []
    end = call = ret = None
    for c in checks:
        d, st, cat = c['description'], c['status'], c['category']
        if cat == 'cover':
            sat = st == 'Satisfied'
            if d == 'REACHED_END':
                end = sat or bool(end)
            elif d == 'REACHED_CALL':
                call = sat or bool(call)
            elif d == 'MUST_NOT_RETURN':
                ret = sat or bool(ret)
            continue
        if st in ('Success', 'Unreachable', 'Satisfied'):
            continue
        if (cat, d) in IGNORED:
            continue
        if st == 'Undetermined':
            continue
        if cat == 'unwind':
            unwind.append(d)
        elif cat in ('unsupported_construct', 'reachability_check') or 'not currently supported' in d:
            unsup.append(d)
        else:
            bad.append((cat, d, c.get('function', ''), c.get('location', {})))
    undet = [c['description'] for c in checks if c['status'] == 'Undetermined' and c['category'] != 'cover']
    if must_panic:
        # panics are what the property demands; anything else is a violation
        serious = [b for b in bad if b[0] != 'assertion' or b[1].startswith('PROP:')
                   or 'intrinsic assumption' in b[1] or 'unsafe precondition' in b[1]]
        if ret:
            return 'violated', 'returned normally where a panic is required'
        if serious:
            return 'violated', '; '.join(sorted({b[1] for b in serious}))
        if unsup:
            return 'error', 'unsupported: ' + unsup[0]
        if unwind:
            return 'unwind', unwind[0]
        if not call:
            return 'vacuous', 'call not reached'
        if not bad:
            return 'vacuous', 'no panic reported and no return reached'
        return 'held', ''
    if bad:
        return 'violated', '; '.join(sorted({b[1] for b in bad}))
    if unsup:
        return 'error', 'unsupported: ' + unsup[0]
    if unwind:
        return 'unwind', unwind[0]
    if undet:
        return 'error', 'undetermined: ' + undet[0]
    if not end:
        return 'vacuous', 'end of harness unreachable'
    return 'held', ''


def parse_playback(txt):
    """All concrete_vals blocks of a --concrete-playback=print run."""
    res = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', txt, re.S):
        vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))]
        res.append(vals)
    return res


def build_replay(mod, release):
    tdir = os.path.join(BUILD, 'replay')
    cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--features', mod, '--target-dir', tdir]
    if release:
        cmd.append('--release')
    r = subprocess.run(cmd, cwd=KANI, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    return os.path.join(tdir, 'release' if release else 'debug', 'replay') if r.returncode == 0 else None


def run_native(binary, name, vals):
    args = [binary, name] + [''.join('%02x' % b for b in v) for v in vals]
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return True, 'did not terminate within 60 s'
    ok = r.returncode not in (0, 20)
    return ok, 'exit %d: %s' % (r.returncode, r.stdout[-600:])


def run_miri(mod, name, vals, timeout):
    args = [''.join('%02x' % b for b in v) for v in vals]
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--bin', 'replay', '--features', mod, '--target-dir',
           os.path.join(BUILD, 'miri'), '--', name] + args
    try:
        r = subprocess.run(cmd, cwd=KANI, env=env({'MIRIFLAGS': '-Zmiri-disable-validation -Zmiri-permissive-provenance -Zmiri-ignore-leaks'}),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, 'miri timeout'
    ub = 'Undefined Behavior' in r.stdout
    return ub or r.returncode in (10, 11), 'miri exit %d: %s' % (r.returncode, r.stdout[-1200:])


def replay(mod, profile, name, candidates, deadline, log):
    """Returns a text describing the reproduced violation, or None."""
    # the profile the solver modelled first
    order = [True, False] if profile == 'rel' else [False, True]
    for rel in order:
        b = build_replay(mod, rel)
        if not b:
            log('replay build failed (%s)' % ('release' if rel else 'dev'))
            continue
        for vals in candidates:
            ok, msg = run_native(b, name, vals)
            if ok:
                return dict(profile='release' if rel else 'dev', values=vals, output=msg)
    for vals in candidates[:4]:
        left = deadline - time.time()
        if left < 30:
            break
        ok, msg = run_miri(mod, name, vals, left)
        if ok:
            return dict(profile='miri', values=vals, output=msg)
        log('miri: ' + msg[-300:])
    return None


def rejected(mod):
    """For modules whose code every user may write: the compiler's complaint, if
    it rejects the module while the crate and the rest of the harness build."""
    cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', os.path.join(BUILD, 'replay')]
    base = subprocess.run(cmd, cwd=KANI, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if base.returncode:
        return None
    r = subprocess.run(cmd + ['--features', mod], cwd=KANI, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if r.returncode and re.search(r'^error', r.stdout, re.M) and 'src/%s.rs' % mod in r.stdout:
        return '\n'.join(l for l in r.stdout.splitlines() if l.strip())[:1500]
    return None


def run(prop, mods, tier, deadline, log, must_compile=()):
    """mods: [(module, profile)]. Returns a dict with verdicts and statistics."""
    res = dict(harnesses=[], violations=[], errors=[], functions=set(), checks=0, solver_s=0.0, symex_s=0.0,
               vccs=0, vacuity=0, lines=set(), rejected=[])
    for mod, profile in mods:
        hl = harness_list(mod, tier)
        if profile == 'rel*':  # every harness, not only the marked ones
            profile = 'rel'
        elif profile == 'rel':
            hl = [h for h in hl if '_rel_' in h[0] or h[0].endswith('_rel') or '_both_' in h[0]]
        else:
            hl = [h for h in hl if '_rel_' not in h[0] and not h[0].endswith('_rel')]
        if not hl:
            continue
        todo = dict(hl)
        rounds = 0
        while todo and rounds < 3:
            left = deadline - time.time()
            if left < 20:
                break
            extra_unw = None
            if rounds:
                # a loop was rewritten to run longer than before: deepen
                extra_unw = {n: u * (3 ** rounds) + 4 for n, u in todo.items()}
            batch = todo
            todo = {}
            if extra_unw is None:
                rc, txt, data = cargo_kani(mod, profile, list(batch), left, hto=int(max(30, left - 40)))
                datas = [data]
            else:
                datas, txt = [], ''
                for n in batch:
                    rc, t, d = cargo_kani_unwind(mod, profile, n, extra_unw[n], deadline - time.time())
                    txt += t
                    datas.append(d)
            seen = set()
            for data in datas:
                if not data:
                    continue
                stats = {r['harness_id']: r.get('cbmc_stats') or {} for r in data.get('cbmc', [])}
                for r in data['verification_results']['results']:
                    name = r['harness_id'].split('::')[-1]
                    if name not in batch or name in seen:
                        continue
                    checks = r.get('checks') or []
                    must = any(c['category'] == 'cover' and c['description'] in ('REACHED_CALL', 'MUST_NOT_RETURN') for c in checks)
                    seen.add(name)
                    if not checks:
                        res['errors'].append('%s/%s: no verdict (solver limit or crash)' % (name, profile))
                        continue
                    v, why = classify(checks, must)
                    s = stats.get(r['harness_id'], {})
                    res['solver_s'] += s.get('runtime_solver_s') or 0
                    res['symex_s'] += s.get('runtime_symex_s') or 0
                    res['checks'] += len([c for c in checks if c['category'] != 'cover'])
                    res['vacuity'] += len([c for c in checks if c['category'] == 'cover'])
                    for c in checks:
                        fn = c.get('function') or ''
                        if 'rowcol' in fn:
                            res['functions'].add(re.sub(r'::<.*', '', fn))
                        loc = (c.get('location') or {})
                        f = str(loc.get('file') or '')
                        if '/repo/src' in f or f.startswith('../../repo/src'):
                            res['lines'].add('%s:%s' % (f.split('src/')[-1], loc.get('line')))
                    if v == 'unwind' and rounds < 2:
                        todo[name] = batch[name]
                        continue
                    res['harnesses'].append(dict(name=name, profile=profile, verdict=v, why=why, must_panic=must,
                                                 checks=len(checks), ms=r.get('duration_ms'),
                                                 solver_s=s.get('runtime_solver_s')))
                    if v == 'violated':
                        res['violations'].append((mod, profile, name, why, must))
                    elif v != 'held':
                        res['errors'].append('%s/%s: %s (%s)' % (name, profile, v, why))
            if not seen and not rounds and mod in must_compile:
                why = rejected(mod)
                if why:
                    res['rejected'].append(dict(module=mod, why='the compiler rejects what the property promises', output=why))
                    break
            for n in batch:
                if n not in seen:
                    res['errors'].append('%s/%s: no result: %s' % (n, profile, tail_error(txt)))
            rounds += 1
        for n in todo:
            res['errors'].append('%s/%s: unwinding bound not reached within the time limit' % (n, profile))
    return res


def cargo_kani_unwind(mod, profile, name, unwind, timeout):
    """One harness with a larger unwinding bound."""
    tdir = os.path.join(BUILD, 'kani-%s' % profile)
    out = os.path.join(BUILD, 'kani-%s-%s-u.json' % (mod, profile))
    if os.path.exists(out):
        os.remove(out)
    cmd = ['cargo', 'kani', '--lib', '--features', mod, '--target-dir', tdir, '-Z', 'unstable-options',
           '--no-assertion-reach-checks', '--exact', '--harness', '%s::proofs::%s' % (mod, name), '--unwind', str(unwind),
           '--output-format', 'terse', '--export-json', out]
    p = subprocess.Popen(cmd, cwd=KANI, env=env(PROFILE_ENV[profile]), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=max(timeout, 5))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        txt, _ = p.communicate()
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            pass
    return p.returncode, txt, data


def tail_error(txt):
    lines = [l for l in txt.splitlines() if re.match(r'\s*error|\[check\]|.*panicked', l)]
    return ' | '.join(lines[:4]) or txt[-300:].replace('\n', ' | ')


def confirm(res, deadline, log):
    """Replays the violations; returns list of confirmed dicts."""
    confirmed = []
    for mod, profile, name, why, must in res['violations'][:6]:
        left = deadline - time.time()
        if left < 20:
            log('no time left to replay ' + name)
            break
        if must and why.startswith('returned normally'):
            cands = []
        else:
            cands = None
        rc, txt, _ = cargo_kani(mod, profile, [name], min(left, 400),
                                extra=['-Z', 'concrete-playback', '--concrete-playback=print'])
        cands = parse_playback(txt)
        if not cands:
            cands = [[]]
        c = replay(mod, profile, name, cands, deadline, log)
        if c:
            c.update(harness=name, module=mod, modelled_profile=profile, why=why)
            confirmed.append(c)
            break
        log('%s: counterexample did not reproduce natively (%s)' % (name, why))
    return confirmed
