#!/usr/bin/env python3
"""mkseed.py [--only ID,..] [--check]   make the planted bugs under /verif/seeded from bugs.py and try them out.

For each: apply to a scratch copy of /repo, diff, build and run the stable tests, run the demonstration on the
unchanged and on the changed tree; with --check also run the property's check against the changed /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = '/verif/seeded'
SCRATCH = '/tmp/seedrepo'
sys.path.insert(0, HERE)


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def scratch():
    if not os.path.isdir(SCRATCH):
        sh(['cp', '-a', '/repo', SCRATCH])
    sh('git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=SCRATCH)


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('stable') or base.get('stable_pass') or base.get('passed') or [])
    env = '. /opt/vp/env.sh; cd %s; ' % SCRATCH
    rc, a = sh(env + 'cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 2>&1')
    rc2, b = sh(env + 'cargo test -p wasmtimer --lib --tests --target $WASM --features $WASM_FEATURES --no-fail-fast --offline 2>&1')
    ok = len(re.findall(r'^test .* \.\.\. ok', a + b, re.M))
    bad = re.findall(r'^test (.*) \.\.\. (?:FAILED|FAIL)', a + b, re.M)
    for f in ('tokio-util', 'tokio-test-util', 'tokio', 'serde'):
        rc3, c = sh(env + 'cargo check --offline --no-default-features --features %s 2>&1' % f)
        if rc3:
            bad.append('check ' + f)
    if 'error' in a and not ok:
        bad.append(a[-800:])
    return ok, bad


def main():
    import bugs
    only = None
    chk = '--check' in sys.argv
    notest = '--notest' in sys.argv
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    for b in bugs.BUGS:
        if only and b['id'] not in only:
            continue
        scratch()
        for f, old, new in b['edits']:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), f, repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            d = os.path.join(SEEDED, b['id'])
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
            rc, diff = sh(['git', 'diff'], cwd=SCRATCH)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            feats = b.get('features', [])
            text = open(os.path.join(HERE, 'demo.sh')).read().replace('@FEATURES@', ', features = [%s]' % ', '.join('"%s"' % x for x in feats) if feats else '')
            open(os.path.join(d, 'demo.sh'), 'w').write(text)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            shutil.copy(os.path.join(HERE, 'host.rs'), d)
            shutil.copytree('/verif/stubs', os.path.join(d, 'stubs'), ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            open(os.path.join(d, 'main.rs'), 'w').write(b['demo'] if 'mod host;' in b['demo'] else 'mod host;\nuse host::*;\n' + b['demo'])
            msg = []
            if not notest:
                ok, bad = tests()
                msg.append('tests %d ok %s' % (ok, bad or ''))
            rc0, o0 = sh([os.path.join(d, 'demo.sh')], cwd='/repo', timeout=300)
            rc1, o1 = sh([os.path.join(d, 'demo.sh')], cwd=SCRATCH, timeout=300)
            msg.append('demo clean=%d patched=%d' % (rc0, rc1))
            if rc0 or rc1 in (0, 98, 99):
                msg.append('\n--clean\n' + o0[-1500:] + '\n--patched\n' + o1[-1500:])
            if chk:
                sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
                for pid in [b['property']] + b.get('also', []):
                    rc, o = sh(['python3', '/verif/check.py', pid, 'quick'], cwd='/verif')
                    msg.append('check %s rc=%d %s' % (pid, rc, [l for l in o.splitlines() if 'VIOLATION' in l or 'ERROR' in l or 'OK' in l or 'exit 1' in l]))
                sh(['git', '-C', '/repo', 'checkout', '--', '.'])
            print(b['id'], b['property'], '; '.join(msg), flush=True)


main()
