#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property; see DESIGN.md
   check.py --replay FILE         run a reported counterexample again
   check.py --setup               build everything and self-test the engine"""
import json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
WSYM = os.path.join(BUILD, 'wsym', 'release', 'wsym')
JOBS = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.97.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)
FEATURES = {'prod': [], 'tt': ['--features', 'tt'], 'sd': ['--features', 'sd'],
            'u-heap': ['--features', 'u-heap'], 'u-list': ['--features', 'u-list'], 'u-gone': ['--features', 'u-gone']}
DIRS = {'prod': 'harness', 'tt': 'harness', 'sd': 'harness', 'u-heap': 'unit', 'u-list': 'unit', 'u-gone': 'unit'}
CRATE = {'harness': 'whar', 'unit': 'wunit'}


class Broken(Exception):
    """the check itself could not do its work"""


def say(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_engine():
    rc, out = sh(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(HERE, 'wsym', 'Cargo.toml'),
                  '--target-dir', os.path.join(BUILD, 'wsym')])
    if rc:
        raise Broken('the engine does not build:\n' + out[-4000:])


def wasm_path(build, profile):
    return os.path.join(BUILD, '%s-%s.wasm' % (build, profile))


def build_subject(build, profile):
    """compile the harness together with /repo's current tree"""
    d = DIRS[build]
    tgt = os.path.join(BUILD, 'har-' + build)
    prof = ['--release'] if profile == 'release' else ['--profile', profile]
    rc, out = sh(['cargo', 'build', '--offline', '--locked', '--target', 'wasm32-unknown-unknown', '--target-dir', tgt] + prof + FEATURES[build],
                 cwd=os.path.join(HERE, d))
    if rc:
        return out
    src = os.path.join(tgt, 'wasm32-unknown-unknown', profile, CRATE[d] + '.wasm')
    dst = wasm_path(build, profile)
    tmp = dst + '.%d' % os.getpid()
    with open(src, 'rb') as f, open(tmp, 'wb') as g:
        g.write(f.read())
    os.replace(tmp, dst)
    return None


def build_all(pairs):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    err, res = [], {}

    def one(b):
        try:
            for (bb, p) in pairs:
                if bb == b:
                    res[(b, p)] = build_subject(b, p)
        except Exception as e:
            err.append(e)

    def eng():
        try:
            build_engine()
        except Exception as e:
            err.append(e)

    ts = [threading.Thread(target=one, args=(b,)) for b in sorted({b for b, _ in pairs})]
    ts.append(threading.Thread(target=eng))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise Broken(str(err[0]))
    return res


def node(wasm, jobs, timeout=120):
    try:
        p = subprocess.run(['node', os.path.join(HERE, 'replay.mjs'), wasm], input=json.dumps(jobs),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        raise Broken('node: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def strs(xs):
    return [str(x) for x in xs]


def engine(run, params, limit):
    out = os.path.join(BUILD, 'report-%d.json' % os.getpid())
    cmd = [WSYM, 'run', wasm_path(run['build'], run['profile']), run['entry'], '--jobs', str(JOBS), '--time', str(int(limit)),
           '--samples', str(run.get('samples', 12)), '--out', out, '--steps', str(run.get('steps', 3000000)),
           '--timeout', str(run.get('timeout', 60000))]
    for p in params:
        cmd += ['--param', str(p)]
    if run.get('cross'):
        cmd += ['--cross', str(run['cross'])]
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        with open(out) as f:
            rep = json.load(f)
        os.unlink(out)
    except (OSError, ValueError):
        raise Broken('engine gave no report (exit %d): %s' % (p.returncode, p.stdout[-2000:]))
    rep['exit'] = p.returncode
    return rep


def reproduces(run, params, v, profile):
    """run a counterexample for real; returns a description, or None if it does not fail"""
    wasm = wasm_path(run['build'], profile)
    if v['kind'] == 'memory':
        cmd = [WSYM, 'replay', wasm, run['entry'], '--inputs', ','.join(strs(v['inputs'])) or '0']
        for p in params:
            cmd += ['--param', str(p)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.stdout.strip() if p.returncode == 1 else None
    r = node(wasm, [{'entry': run['entry'], 'params': strs(params), 'inputs': strs(v['inputs'])}], timeout=60)
    if r is None:
        return 'does not terminate (stopped after 60 s)' if v['kind'] == 'nonterm' else None
    r = r[0]
    if r['end'] in ('check', 'trap', 'memory'):
        return '%s: %s' % (r['end'], r['what'])
    return None


def pretty(n):
    """the identifiers of a mangled Rust name"""
    if not n.startswith('_R'):
        return n
    out, i = [], 2
    while i < len(n):
        m = re.match(r's[0-9A-Za-z]*_', n[i:])
        if m and re.match(r'\d', n[i + m.end():i + m.end() + 1]):
            i += m.end()
        m = re.match(r'[1-9]\d*', n[i:])
        if m:
            k = int(m.group())
            j = i + m.end()
            if n[j:j + 1] == '_':
                j += 1
            w = n[j:j + k]
            if len(w) == k and re.match(r'^[A-Za-z_]\w*$', w):
                out.append(w)
                i = j + k
                continue
        i += 1
    return '::'.join(out)


def known():
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) entry=(\S+) check="([^"]*)" (.*)', l)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def check(pid, tier):
    t0 = time.time()
    runs = [dict(r) for r in props.RUNS[pid][tier]]
    for r in runs:
        r.setdefault('build', 'prod')
        r.setdefault('profile', 'release')
    pairs = sorted({(r['build'], r['profile']) for r in runs})
    ev_path = os.path.join(EVID, pid + '.json')
    os.makedirs(EVID, exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    failed = build_all(pairs)
    left_out = []
    for (b, p), msg in failed.items():
        if msg is None:
            continue
        if DIRS[b] == 'unit':
            # the unit-level part reads internal modules; it is left out where they changed shape
            say('NOTE: the unit-level harness %s (%s) does not compile against this tree and is left out' % (b, p))
            left_out.append('the unit-level harness ' + b + ' did not compile against this tree; its runs were left out: ' + msg[-300:])
            runs = [r for r in runs if (r['build'], r['profile']) != (b, p)]
        else:
            raise Broken('/repo with the harness does not build (%s):\n%s' % (b, msg[-4000:]))
    if not runs:
        raise Broken('nothing left to run')

    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'queries': 0, 'queries_sat': 0,
           'queries_unsat': 0, 'queries_unknown': 0, 'answers_from_unsat_core_or_cache': 0, 'answers_from_model_reuse': 0,
           'solver_seconds': 0.0, 'assertions_checked': 0, 'assertions_needing_solver': 0, 'instructions_executed': 0, 'runs': [],
           'functions_encoded': {}}
    funcs = {}
    viols, notes, shown, broken = [], list(left_out), [], []
    # runs that were decided for every value within their bounds, and those that were not
    decided, undecided = 0, []
    kn = known()
    budget = 840 if tier == 'quick' else 6 * 3600
    for r in runs:
        tries = [r['params']] + r.get('smaller', [])
        rep = None
        for k, params in enumerate(tries):
            limit = min(r.get('time', 240), max(20, budget - (time.time() - t0)))
            try:
                rep = engine(r, params, limit)
            except Broken as e:
                broken.append(str(e))
                break
            if rep['exit'] != 2 or rep['violations']:
                break
            notes.append('%s %s did not finish in %ds (%d paths done, %d left)' % (r['entry'], params, limit, rep['paths'], rep['left']))
            say('NOTE: ' + notes[-1])
        if rep is None:
            continue
        cov['states'] += rep['paths']
        cov['transitions'] += rep['branches'] + rep['forks']
        cov['queries'] += rep['queries']
        cov['queries_sat'] += rep['sat']
        cov['queries_unsat'] += rep['unsat']
        cov['queries_unknown'] += rep['unknown']
        cov['answers_from_unsat_core_or_cache'] += rep['cached']
        cov['answers_from_model_reuse'] += rep['model_reuse']
        cov['solver_seconds'] = round(cov['solver_seconds'] + rep['solver_us'] / 1e6, 3)
        cov['assertions_checked'] += rep['checks']
        cov['assertions_needing_solver'] += rep['checks_by_solver']
        cov['instructions_executed'] += rep['instructions']
        for n, c, t in rep['functions']:
            a = funcs.setdefault((r['build'], n), [0, t])
            a[0] = max(a[0], c)
        cov['runs'].append({'entry': r['entry'], 'build': r['build'], 'profile': r['profile'], 'params': params, 'bounds': props.bounds(r, params),
                            'status': rep['exit'], 'paths': rep['paths'], 'pruned': rep['pruned'], 'branches': rep['branches'],
                            'queries': rep['queries'], 'seconds': round(rep['seconds'], 2), 'reached': rep['reach']})
        say('%s %s %s: exit %d, %d paths, %d queries, %.1fs' % (r['entry'], r['build'], params, rep['exit'], rep['paths'], rep['queries'], rep['seconds']))
        # counterexamples: only what really fails counts
        unreal = []
        for v in rep['violations']:
            how = reproduces(r, params, v, r['profile'])
            if how is None:
                unreal.append(v)
                continue
            k = [x for x in kn if x[0] == pid and x[1] == r['entry'] and x[2] == v['msg']]
            if k:
                if k[0] not in shown:
                    shown.append(k[0])
                    say('KNOWN-FINDING: property=%s %s' % (pid, k[0][3]))
                continue
            viols.append({'property': pid, 'build': r['build'], 'profile': r['profile'], 'entry': r['entry'], 'params': params,
                          'kind': v['kind'], 'msg': v['msg'], 'inputs': strs(v['inputs']), 'backtrace': [pretty(b) for b in v['backtrace']],
                          'replayed': how})
        if viols:
            break
        # from here on trouble does not end the check: another run may still find a violation
        if unreal:
            broken.append('a counterexample does not reproduce: %s' % json.dumps(unreal[0]))
        if rep['errors'] or rep['exit'] == 3:
            undecided.append('%s %s: on %d of its paths: %s' % (r['entry'], params, len(rep['errors']), '; '.join(rep['errors'][:3])))
        elif rep['exit'] == 2:
            undecided.append('%s %s: not all paths within its time, %d done' % (r['entry'], params, rep['paths']))
        else:
            decided += 1
            for lab in r.get('need', []):
                if not rep['reach'].get(lab):
                    broken.append('vacuous: %s %s never reached "%s"' % (r['entry'], params, lab))
        # the encoding against the real thing
        jobs = [{'entry': r['entry'], 'params': strs(params), 'inputs': strs(s['inputs'])} for s in rep['samples']]
        if jobs:
            real = node(wasm_path(r['build'], r['profile']), jobs)
            if real is None:
                broken.append('sample paths do not finish in node')
                continue
            for s, q in zip(rep['samples'], real):
                if s['end'] != q['end'] or strs(s['obs']) != q['obs']:
                    broken.append('the engine and node disagree on %s %s inputs %s: %s %s / %s %s %s' % (
                        r['entry'], params, s['inputs'], s['end'], s['obs'], q['end'], q['obs'], q['what']))
            cov['traces_validated_against_impl'] += len(jobs)
            for s in rep['samples'][:3]:
                cov['samples'].append({'entry': r['entry'], 'params': params, 'inputs': strs(s['inputs']), 'observed': strs(s['obs']), 'end': s['end']})
    names = {}
    for (b, n), (c, t) in funcs.items():
        q = pretty(n)
        if 'wasmtimer' in n or DIRS[b] == 'unit' or 'futures' in n:
            names[q] = max(names.get(q, [0, 0]), [c, t])
    cov['functions_encoded'] = {q: '%d of %d instructions executed' % (c, t) for q, (c, t) in sorted(names.items())}
    cov['notes'] = notes + broken
    cov['undecided'] = undecided
    cov['runs_decided'] = decided
    cov['rule'] = ('states = completed symbolic paths, transitions = decided branch points; every path stands for all input '
                   'values satisfying its path condition')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': props.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    if viols:
        rp = os.path.join(EVID, 'replay-%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(viols, f, indent=1)
        for v in viols[:3]:
            say('%s: %s (%s)\n  inputs %s\n  %s' % (v['entry'], v['msg'], v['kind'], ' '.join(v['inputs']), v['replayed'][:1500]))
        say('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for u in undecided:
        say('NOTE: undecided beyond what was explored: ' + u)
    if broken:
        raise Broken('; '.join(broken[:5]))
    if not decided:
        raise Broken('nothing was decided: ' + '; '.join(undecided[:5]))
    say('OK property=%s tier=%s paths=%d queries=%d wall=%.1fs' % (pid, tier, cov['states'], cov['queries'], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        vs = json.load(f)
    bad = 0
    for v in vs:
        for prof in [v['profile']] + (['ship'] if v['profile'] == 'release' else []):
            res = build_all([(v['build'], prof)])
            if any(res.values()):
                raise Broken('build failed')
            how = reproduces(v, v['params'], v, prof)
            say('%s profile: %s' % ('checked' if prof == 'release' else 'shipping', how or 'does not fail'))
            bad |= how is not None
    return int(bad)


def setup():
    pairs = sorted({(r.get('build', 'prod'), r.get('profile', 'release')) for t in props.RUNS.values() for rs in t.values() for r in rs})
    res = build_all(pairs)
    for k, msg in res.items():
        if msg:
            raise Broken('%s: %s' % (k, msg[-3000:]))
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    rc, out = sh([WSYM, 'selftest', seed, '20000', '60'])
    say(out.strip()[-500:])
    return rc


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--setup':
            return setup()
        if a and a[0] == '--replay':
            return replay(a[1])
        tier = a[1] if len(a) > 1 else 'quick'
        return check(a[0], tier)
    except Broken as e:
        say('ERROR: ' + str(e))
        return 3


sys.exit(main())
