#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree
check.py --replay FILE                         run a recorded counterexample against the real code
check.py --setup                               build the engine and the model
check.py --list                                list properties and runs

Compiles /repo's sources, the property's harness and the environment model to
LLVM bitcode, runs the symbolic engine on every harness entry, replays each
counterexample natively before reporting it."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
REPO = '/repo'
B = os.path.join(V, 'build')
LL = '/usr/lib/llvm-18/bin/'
CXX = LL + 'clang++'
FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_ASSERTIONS',
         '-I' + V + '/model/shim', '-I' + V + '/model', '-I' + REPO + '/src/include', '-include', 'stdexcept', '-c', '-emit-llvm']
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/root'}
T0 = time.time()


class NoAnswer(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=kw.pop('env', ENV), timeout=timeout, **kw)


def must(cmd, what):
    r = run(cmd)
    if r.returncode:
        raise NoAnswer('%s failed:\n%s' % (what, r.stdout.decode(errors='replace')[-4000:]))


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()


def tree(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(os.path.join(V, d)):
            out += [os.path.join(r, f) for f in fs]
    return out


def ensure_built():
    """engine and model/rt bitcode: functions of /verif's own files only"""
    os.makedirs(B, exist_ok=True)
    lk = open(os.path.join(B, '.lock'), 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        d = digest(tree('engine'))
        stamp = os.path.join(B, 'engine.stamp')
        if not (os.path.exists(B + '/engine') and os.path.exists(stamp) and open(stamp).read() == d):
            must(['/usr/bin/make', '-B', '-s', '-j8', '-C', V + '/engine', 'OUT=' + B], 'engine build')
            open(stamp, 'w').write(d)
        d = digest(tree('model'))
        stamp = os.path.join(B, 'model.stamp')
        if not (os.path.exists(B + '/env.bc') and os.path.exists(stamp) and open(stamp).read() == d):
            with cf.ThreadPoolExecutor(2) as ex:
                a = ex.submit(must, [CXX] + FLAGS + ['-fno-builtin', '-fno-threadsafe-statics', V + '/model/rt.cc', '-o', B + '/rt.bc'], 'runtime bitcode')
                b = ex.submit(must, [CXX] + FLAGS[:-4] + FLAGS[-2:] + [V + '/model/model.cc', '-o', B + '/model.bc'], 'model bitcode')
                a.result(); b.result()
            must([LL + 'llvm-link', B + '/rt.bc', B + '/model.bc', '-o', B + '/env.bc'], 'link')
            open(stamp, 'w').write(d)
    finally:
        fcntl.flock(lk, fcntl.LOCK_UN)


def build_program(work, harness, flags=()):
    """bitcode of the current /repo sources plus the harness"""
    srcs = sorted(glob.glob(REPO + '/src/lib/*.cc'))
    if not srcs:
        raise NoAnswer('no sources in /repo/src/lib')
    jobs = [([CXX] + FLAGS + list(flags) + [s, '-o', '%s/r%d.bc' % (work, i)], 'compiling ' + s) for i, s in enumerate(srcs)]
    hs = harness if isinstance(harness, list) else [harness]
    jobs += [([CXX] + FLAGS + list(flags) + ['-I' + V + '/harness', os.path.join(V, 'harness', h), '-o', '%s/h%d.bc' % (work, i)], 'compiling the harness ' + h) for i, h in enumerate(hs)]
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(must, *j) for j in jobs]:
            f.result()
    objs = ['%s/r%d.bc' % (work, i) for i in range(len(srcs))] + ['%s/h%d.bc' % (work, i) for i in range(len(hs))]
    must([LL + 'llvm-link'] + objs + ['-o', work + '/prog.bc'], 'link')
    must([LL + 'llvm-link', work + '/prog.bc', B + '/env.bc', '-o', work + '/all.bc'], 'link')


def engine_run(work, r, params, tier, idx):
    out = '%s/out%d.json' % (work, idx)
    tl = r.get('time', 60) if tier == 'quick' else r.get('ttime', 600)
    cmd = [B + '/engine', work + '/all.bc', '--entry', r['entry'], '--out', out, '--time', str(tl), '--fuel', str(r.get('fuel', 20000000)),
           '--cpus', str(r.get('cpus', 4)), '--maxviol', '8', '--repo', REPO + '/', '--solver-timeout', str(r.get('solver_ms', 20000))]
    if r.get('race'):
        cmd.append('--race')
    if r.get('atomic'):
        cmd.append('--atomic-hook')
    for k, v in params.items():
        cmd += ['--param', '%s=%d' % (k, v)]
    t = time.time()
    try:
        p = run(cmd, timeout=tl + 60)
        rc, msg = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, msg = -1, 'engine timed out'
    parts = []
    if os.path.exists(out):
        for line in open(out):
            try:
                parts.append(json.loads(line))
            except ValueError:
                pass
    return dict(rc=rc, msg=msg, parts=parts, wall=time.time() - t)


def merge(parts):
    tot = {}
    for p in parts:
        for k, v in p.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                tot.setdefault(k, []).extend(v)
    tot['functions'] = sorted(set(tot.get('functions', [])))
    return tot


_native = {}


def native(work, mode):
    if mode not in _native:
        out = work + '/native_' + mode
        e = dict(ENV, VK_ENGINE=B + '/engine')
        p = run(['/bin/bash', V + '/native/build.sh', out, mode, work + '/prog.bc'], env=e)
        _native[mode] = (out + '/replay') if p.returncode == 0 else None
        if p.returncode:
            print('note: native %s build failed: %s' % (mode, p.stdout.decode(errors='replace')[-500:]))
    return _native[mode]


def replay_one(work, mode, valuesfile, entry, params, fill=None):
    exe = native(work, mode)
    if not exe:
        return 'ERROR', 'native build failed'
    e = dict(ENV)
    for k, v in params.items():
        e['VKPARAM_' + k] = str(v)
    if fill is not None:
        e['VKFILL'] = str(fill)
    cmd = [exe, valuesfile, entry]
    try:
        p = run(cmd, timeout=60, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        return 'VIOLATED', 'hang'
    txt = p.stdout.decode(errors='replace')
    m = re.search(r'REPLAY (\w+) ?(.*)', txt)
    if 'ERROR: AddressSanitizer' in txt:
        return 'VIOLATED', 'asan: ' + (re.search(r'ERROR: AddressSanitizer: (.*)', txt).group(1))[:120]
    if 'WARNING: ThreadSanitizer: data race' in txt:
        return 'VIOLATED', 'tsan: data race'
    if m:
        return m.group(1), m.group(2)
    if p.returncode < 0:
        return 'VIOLATED', 'killed by signal %d' % -p.returncode
    return 'ERROR', 'exit %d %s' % (p.returncode, txt[-200:])


def confirm(work, v, entry, params, vf):
    """does the real, natively compiled code fail on the counterexample?"""
    tries = {'race': [('tsan', None)], 'memory': [('asan', None), ('plain', None), ('plain', 0), ('plain', 255)]}.get(v['kind'], [('plain', None), ('plain', 0), ('plain', 255), ('asan', None)])
    log = []
    for mode, fill in tries:
        st, lab = replay_one(work, mode, vf, entry, params, fill)
        log.append('%s%s: %s %s' % (mode, '' if fill is None else ' fill=%d' % fill, st, lab))
        if st == 'VIOLATED':
            return True, mode, log
        if st == 'COMPLETED' and mode == 'plain' and fill is None and v['kind'] == 'assert' and not v.get('uninit'):
            pass
    return False, '', log


def known_findings(prop):
    out = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) entry=(\S+) label="([^"]*)"(?: where=(\S+))? (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(entry=m.group(2), label=m.group(3), where=m.group(4), text=m.group(5)))
    return out


def is_known(kf, entry, v):
    for k in kf:
        if k['entry'] == entry and k['label'] == v['label'] and (not k['where'] or k['where'] in v['where']):
            return k
    return None


def check(prop, tier, only=None, keep=False, verbose=False):
    import props
    P = props.PROPS[prop]
    runs = [r for r in P['runs'] if (tier != 'quick' or not r.get('thorough_only')) and (not only or r['entry'] == only)]
    ensure_built()
    os.makedirs(V + '/work', exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=V + '/work')
    try:
        build_program(work, P['harness'], P.get('flags', ()))
        tb = time.time() - T0
        jobs = []
        for r in runs:
            ps = r.get('t') if tier == 'thorough' and r.get('t') else r.get('q', {})
            for p in (ps if isinstance(ps, list) else [ps]):
                jobs.append((r, dict(p, _atomic=1) if r.get('atomic') else dict(p)))
        kf = known_findings(prop)
        results, violations, knowns, unconfirmed, notes = [], [], {}, [], []
        conc = P.get('conc', 3)
        with cf.ThreadPoolExecutor(conc) as ex:
            fs = [ex.submit(engine_run, work, r, p, tier, i) for i, (r, p) in enumerate(jobs)]
            for f in fs:
                f.result()
        unreached = []
        for (r, p), f in zip(jobs, fs):
            e = f.result()
            if not e['parts']:
                raise NoAnswer('engine gave no result for %s: rc=%s %s' % (r['entry'], e['rc'], e['msg'][-1500:]))
            t = merge(e['parts'])
            t['entry'], t['params'], t['wall'], t['job'] = r['entry'], p, round(e['wall'], 2), r
            results.append(t)
            complete = not t.get('incomplete') and not t.get('truncated') and not t.get('unknown') and not t.get('violations')
            t['complete'] = complete
            miss = [l for l in r.get('reach', []) if not t.get('reach', {}).get(l)]
            if miss and not t.get('violations'):
                unreached.append((r['entry'], p, miss))
        # counterexamples
        nconf = 0
        seen, tried = set(), {}
        for t in results:                       # grows by the reruns below
            for v in sorted(t.get('violations', []), key=lambda v: len(v['values'])):
                k = is_known(kf, t['entry'], v)
                key = (t['entry'], v['label'], v['kind'], v['where'] if v['kind'] != 'assert' else '')
                if key in seen or (len(violations) >= 3 and not k) or tried.get(key, 0) >= 3:
                    continue
                tried[key] = tried.get(key, 0) + 1
                d = V + '/build/replays'
                os.makedirs(d, exist_ok=True)
                vf = '%s/%s-%s-%s.txt' % (d, prop, t['entry'], hashlib.sha256(json.dumps([v['label'], v['values']]).encode()).hexdigest()[:10])
                with open(vf, 'w') as fp:
                    fp.write('# property=%s entry=%s params=%s\n# %s: %s\n# %s\n# at %s\n' % (prop, t['entry'], json.dumps(t['params']), v['kind'], v['label'], v['msg'].replace('\n', ' '), v['where']))
                    for s in v.get('trace', [])[:40]:
                        fp.write('#   ' + s.replace('\n', ' ') + '\n')
                    for s in v['values']:
                        fp.write(s + '\n')
                if k:
                    knowns[k['text']] = vf
                    continue
                ok, mode, log = confirm(work, v, t['entry'], t['params'], vf)
                with open(vf, 'a') as fp:
                    for l in log:
                        fp.write('# replay ' + l + '\n')
                if ok:
                    seen.add(key)
                    nconf += 1
                    violations.append((t, v, vf, mode))
                else:
                    unconfirmed.append((t, v, vf, log))
            if t['job'].get('race') and not violations and any(u[0] is t and u[1]['kind'] == 'race' for u in unconfirmed):
                # a race that is one of the translation only has cut paths short: explore them without race detection
                r = dict(t['job'], race=False)
                e = engine_run(work, r, t['params'], tier, 1000 + len(results))
                if e['parts']:
                    t2 = merge(e['parts'])
                    t2['entry'], t2['params'], t2['wall'], t2['job'], t2['complete'] = t['entry'], t['params'], round(e['wall'], 2), r, False
                    results.append(t2)
        validated = 0
        if not violations:
            for t in results:
                for i, s in enumerate(t.get('samples', [])[:4 if tier == 'thorough' else 1]):
                    vf = '%s/s-%s-%d.txt' % (work, t['entry'], i)
                    open(vf, 'w').write('\n'.join(s) + '\n')
                    st, lab = replay_one(work, 'plain', vf, t['entry'], t['params'])
                    if st == 'COMPLETED':
                        validated += 1
                    else:
                        notes.append('sample of %s did not replay: %s %s' % (t['entry'], st, lab))
        for text in sorted(knowns):
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        for t, v, vf, mode in violations:
            print('%s: %s (%s) in %s, %s; confirmed by the %s replay' % (v['kind'], v['label'], v['msg'], t['entry'], v['where'], mode))
            print('VIOLATION property=%s replay=%s' % (prop, vf))
        for t, v, vf, log in unconfirmed:
            print('unconfirmed counterexample (not reported): %s %s in %s at %s: %s' % (v['kind'], v['label'], t['entry'], v['where'], '; '.join(log)))
        write_evidence(prop, P, tier, results, violations, unconfirmed, knowns, validated, notes, tb)
        for t in results:
            if verbose or not t['complete']:
                print('%s %s: paths=%d wall=%.1fs %s%s' % (t['entry'], t['params'], t.get('paths', 0), t['wall'], 'complete' if t['complete'] else 'incomplete %s truncated=%d unknown=%d' % (t.get('incomplete_why', {}), t.get('truncated', 0), t.get('unknown', 0)),
                      (' reach=%s' % json.dumps(t.get('reach', {}))) if verbose else ''))
        for n in notes:
            print('note: ' + n)
        if violations:
            return 1
        if unreached:
            for u in unreached:
                print('expected situation not reached: %s %s %s' % u)
            return 2
        print('%s: held on everything explored (%d paths, %.1f s)' % (prop, sum(t.get('paths', 0) for t in results), time.time() - T0))
        return 0
    finally:
        if keep:
            print('work directory kept: ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, P, tier, results, violations, unconfirmed, knowns, validated, notes, tb):
    S = lambda k: sum(t.get(k, 0) for t in results)
    fns = sorted(set(f for t in results for f in t.get('functions', [])))
    samples = []
    for t in results:
        for s in t.get('samples', [])[:1]:
            samples.append({'entry': t['entry'], 'params': t['params'], 'path_values': [x for x in s if not x.startswith('#')][:40]})
    runs = []
    for t in results:
        runs.append({'entry': t['entry'], 'bounds': t['params'], 'paths': t.get('paths', 0), 'complete_within_bounds': t['complete'], 'incomplete_paths': t.get('incomplete', 0),
                     'incomplete_reasons': dict(list(t.get('incomplete_why', {}).items())[:5]), 'paths_not_explored_for_time': t.get('truncated', 0), 'assertions': t.get('asserted', {}), 'situations_reached': t.get('reach', {}), 'queries': t.get('queries', 0),
                     'solver_s': round(t.get('solver_time', 0), 3), 'wall_s': t['wall']})
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {'states': int(S('paths')), 'transitions': int(S('instructions')), 'traces_validated_against_impl': validated,
                       'samples': samples[:8], 'exhaustive': all(t['complete'] for t in results),
                       'rule': 'states are symbolic execution paths of the compiled code (each stands for every value satisfying its path condition); transitions are LLVM instructions executed symbolically',
                       'bounds': P.get('bounds', ''), 'functions_encoded': fns[:150], 'functions_encoded_count': len(fns),
                       'assertions_checked_by_solver': int(S('assert_symbolic')), 'assertions_constant_on_path': int(S('assert_concrete')),
                       'queries': int(S('queries')), 'solver_calls': int(S('solver_calls')), 'sat': int(S('sat')), 'unsat': int(S('unsat')), 'unknown': int(S('unknown')), 'solver_time_s': round(S('solver_time'), 3),
                       'runs': runs, 'unconfirmed_counterexamples': ['%s: %s at %s' % (t['entry'], v['label'], v['where']) for t, v, _, _ in unconfirmed], 'known_findings': sorted(knowns), 'notes': notes[:10], 'build_s': round(tb, 2)},
          'assumptions': props_assumptions(P), 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    os.makedirs(V + '/evidence', exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev['coverage']['functions_encoded']:
        ev['coverage']['functions_encoded'] = ev['coverage']['functions_encoded'][:len(ev['coverage']['functions_encoded']) // 2]
        ev['coverage']['samples'] = ev['coverage']['samples'][:2]
        s = json.dumps(ev, indent=1)
    open(V + '/evidence/%s.json' % prop, 'w').write(s)


def props_assumptions(P):
    import props
    return props.COMMON_ASSUMPTIONS + P.get('assume', [])


def do_replay(path):
    import props
    h = open(path).readline()
    m = re.match(r'# property=(\S+) entry=(\S+) params=(.*)', h)
    prop, entry, params = m.group(1), m.group(2), json.loads(m.group(3))
    ensure_built()
    os.makedirs(V + '/work', exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=V + '/work')
    try:
        build_program(work, props.PROPS[prop]['harness'], props.PROPS[prop].get('flags', ()))
        kind = re.search(r'^# (\w+): ', open(path).read(), re.M).group(1)
        ok, mode, log = confirm(work, {'kind': kind}, entry, params, path)
        print('\n'.join(log)); print('violation reproduced (%s)' % mode if ok else 'not reproduced')
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--setup', action='store_true')
    ap.add_argument('--list', action='store_true'); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    try:
        if a.setup:
            ensure_built(); print('built'); return 0
        if a.list:
            import props
            for k, p in props.PROPS.items():
                print(k, [r['entry'] for r in p['runs']])
            return 0
        if a.replay:
            return do_replay(a.replay)
        return check(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.only, a.keep, a.v)
    except NoAnswer as e:
        print('no answer: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
