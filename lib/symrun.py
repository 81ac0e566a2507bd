"""Engine 2: symx, symbolic execution of the generic code on symbolic element values."""
import glob, json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from kanirun import BUILD, VERIF, env

SYMX = os.path.join(VERIF, 'symx')


def build(feature, prof, timeout):
    """prof: dev (debug assertions) or rel, with -nouw for the library without its unicode_width feature."""
    release = prof.startswith('rel')
    tdir = os.path.join(BUILD, 'symx-cov')
    cmd = ['cargo', 'build', '--offline', '--features', feature, '--target-dir', tdir] + (['--release'] if release else []) + (['--no-default-features'] if prof.endswith('-nouw') else [])
    wrap = {} if os.environ.get('SYMX_NOCOV') else {'RUSTC_WRAPPER': os.path.join(VERIF, 'lib', 'covrustc.sh')}
    r = subprocess.run(cmd, cwd=SYMX, env=env(wrap), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        return None, r.stdout
    src = os.path.join(tdir, 'release' if release else 'debug', 'symx')
    # one binary per property, so that checks may run side by side
    dst = os.path.join(tdir, 'symx-%s-%s' % (feature, prof))
    subprocess.run(['cp', '-f', src, dst + '.new'], check=True)
    os.replace(dst + '.new', dst)
    return dst, ''


def executed(binary, pdir):
    """Functions and lines of /repo/src that were executed symbolically, measured."""
    try:
        sysroot = subprocess.run(['rustc', '--print', 'sysroot'], cwd=SYMX, env=env(), stdout=subprocess.PIPE, text=True, timeout=30).stdout.strip()
        tools = glob.glob(sysroot + '/lib/rustlib/*/bin/llvm-cov')[0].rsplit('/', 1)[0]
        raws = glob.glob(pdir + '/*.profraw')
        data = pdir + '/all.profdata'
        subprocess.run([tools + '/llvm-profdata', 'merge', '-o', data] + raws, check=True, timeout=60, stderr=subprocess.DEVNULL)
        r = subprocess.run([tools + '/llvm-cov', 'export', '-format=text', binary, '-instr-profile=' + data, '/repo/src'], check=True, timeout=60,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        d = json.loads(r.stdout)['data'][0]
        src, fns = {}, set()
        for f in d['functions']:
            fn = f['filenames'][0]
            if not f['count'] or not fn.startswith('/repo/src/'):
                continue
            if fn not in src:
                src[fn] = open(fn).read().split('\n')
            line = f['regions'][0][0]
            m = re.search(r'\bfn ([\w$]+)', src[fn][line - 1])
            if m:
                fns.add('%s:%d %s' % (fn[10:], line, m.group(1)))
        return sorted(fns), {x['filename'][10:]: '%d of the %d lines instantiated' % (x['summary']['lines']['covered'], x['summary']['lines']['count']) for x in d['files'] if x['summary']['lines']['covered']}
    except Exception as e:  # evidence only, never a verdict
        return [], {'unavailable': str(e)[:200]}


def one(binary, feature, tier, name, deadline, pdir):
    left = int(deadline - time.time())
    if left < 5:
        return dict(name=name, error='no time left', violation=None, values=[])
    try:
        r = subprocess.run([binary, 'run', feature, tier, str(left - 3), '0', '1', name], env=env({'LLVM_PROFILE_FILE': pdir + '/%p.profraw'}), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=left)
    except subprocess.TimeoutExpired:
        return dict(name=name, error='time limit', violation=None, values=[])
    for l in r.stdout.splitlines():
        if l.startswith('{"name"'):
            return json.loads(l)
    if r.returncode < 0:
        # the code under test took the process down
        return dict(name=name, error=None, violation='process ended by signal %d' % -r.returncode, values=[], crash=True)
    return dict(name=name, error='no result (exit %d): %s' % (r.returncode, r.stderr[-300:]), violation=None, values=[])


def replay(binary, feature, rec):
    if rec.get('crash'):
        args = [binary, 'run', feature, 'thorough', '300', '0', '1', rec['name']]
    else:
        args = [binary, 'replay', feature, rec['name']] + ['%s=%s' % (k, v) for k, v in rec['values']]
    try:
        r = subprocess.run(args, env=env({'LLVM_PROFILE_FILE': '/dev/null'}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, 'replay did not end'
    return (r.returncode == 10 or r.returncode < 0), 'exit %d: %s' % (r.returncode, r.stdout[-600:])


def run(prop, profiles, tier, deadline, log):
    f = prop.lower()
    out = dict(errors=[], confirmed=[], summary=dict(harnesses=[], paths=0, branches=0, obligations=0, queries=0, lemmas=0, solver_s=0.0))
    s = out['summary']
    for prof in profiles:
        binary, txt = build(f, prof, max(deadline - time.time(), 10))
        if not binary:
            errs = [l for l in txt.splitlines() if l.startswith('error')]
            out['errors'].append('symx does not build (%s): %s' % (prof, ' | '.join(errs[:3])))
            continue
        ls = subprocess.run([binary, 'list', f], stdout=subprocess.PIPE, text=True, env=env({'LLVM_PROFILE_FILE': '/dev/null'})).stdout.split('\n')
        names = [l.split()[0] for l in ls if l and (tier == 'thorough' or l.split()[1] == '0')]
        if not names:
            out['errors'].append('symx: no harness')
        pdir = os.path.join(BUILD, 'prof-%s-%s' % (f, prof))
        shutil.rmtree(pdir, ignore_errors=True)
        os.makedirs(pdir)
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(lambda n: one(binary, f, tier, n, deadline, pdir), names))
        fns, lines = executed(binary, pdir)
        shutil.rmtree(pdir, ignore_errors=True)
        s['functions_executed_symbolically'] = sorted(set(s.get('functions_executed_symbolically', [])) | set(fns))
        s.setdefault('source_lines_executed', {})[prof] = lines
        for r in recs:
            s['harnesses'].append(dict(name=r['name'], profile=prof, paths=r.get('paths'), obligations=r.get('obligations'), ms=r.get('ms'),
                                       verdict='violated' if r['violation'] else 'undecided' if r['error'] else 'held'))
            for k in ('paths', 'branches', 'obligations', 'queries', 'lemmas'):
                s[k] += r.get(k) or 0
            s['solver_s'] = round(s['solver_s'] + (r.get('solver_ms') or 0) / 1000, 3)
            if r['error']:
                out['errors'].append('%s/%s: %s' % (r['name'], prof, r['error']))
        for r in [r for r in recs if r['violation']]:
            if out['confirmed']:
                break
            ok, msg = replay(binary, f, r)
            if ok:
                out['confirmed'].append(dict(engine='symx', harness=r['name'], profile=prof, why=r['violation'], values=r['values'], output=msg))
            else:
                log('%s: counterexample did not reproduce: %s; %s' % (r['name'], r['violation'], msg))
        if not out['confirmed']:
            out['errors'] += ['%s: solver counterexample not reproduced: %s' % (r['name'], r['violation']) for r in recs if r['violation']]
    return out
