#!/usr/bin/env python3
"""handrun.py [--workers N] [--only a,b]   try hand.py's changes: do the tests notice, which check does?"""
import os, queue, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hand
from mutate import PROPS
from refactor import sh, ROOT
ORDER = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29'.split()


def worker(k, todo, jobs):
    w = '%s/h%d' % (ROOT, k)
    repo, ver = w + '/repo', w + '/verif'
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(ver)
    sh('cp -a /repo %s; git -C %s checkout -q -- .' % (repo, repo))
    sh('cp -a /verif/{check.py,props.py,replay.mjs,harness,unit,stubs,wsym,known-findings.txt,properties.jsonl,MANIFEST.json} %s/' % ver)
    sh(r'''grep -rl '"/repo' harness unit --include=*.toml --include=*.rs | xargs sed -i 's#"/repo#"%s#g' ''' % repo, cwd=ver)
    sh("sed -i 's/^JOBS = .*/JOBS = %d/' check.py" % jobs, cwd=ver)
    rc, o = sh('python3 check.py --setup', cwd=ver)
    if rc:
        print(o[-2000:])
        return
    env = '. /opt/vp/env.sh; cd %s; ' % repo
    while True:
        try:
            name, prop, edits = todo.get_nowait()
        except queue.Empty:
            return
        sh('git checkout -q -- .', cwd=repo)
        msg = []
        for f, old, new in edits:
            s = open(os.path.join(repo, f)).read()
            if s.count(old) != 1:
                msg.append('EDIT MATCHES %d %s %r' % (s.count(old), f, old[:50]))
                continue
            open(os.path.join(repo, f), 'w').write(s.replace(old, new))
        if not msg:
            rc, o = sh(env + 'cargo check --offline --features serde,tokio-test-util 2>&1')
            if rc:
                msg.append('does not build: ' + o[-1500:])
        if not msg:
            rc, a = sh(env + 'timeout 60 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 2>&1')
            rc, b = sh(env + 'timeout 60 cargo test -p wasmtimer --lib --tests --target $WASM --features $WASM_FEATURES --no-fail-fast --offline 2>&1')
            ok = len(re.findall(r'^test .* \.\.\. ok', a + b, re.M))
            if ok < 36:
                msg.append('(tests: %d)' % ok)
            by = []
            mine = {x for f, _, _ in edits for x in PROPS[f[4:]].split()}
            for p in [prop] + [x for x in ORDER if x != prop and x in mine]:
                rc, o = sh('python3 check.py %s quick' % p, cwd=ver)
                if rc == 1 and 'VIOLATION' in o:
                    by.append(p)
                    break
                if rc:
                    msg.append('%s rc=%d %s' % (p, rc, o[-600:]))
            msg.append('caught by own check' if by == [prop] else 'only by %s' % by if by else 'MISSED')
        print(name, prop, '; '.join(msg), flush=True)
        sh('git checkout -q -- .', cwd=repo)


if __name__ == '__main__':
    a = sys.argv
    n = int(a[a.index('--workers') + 1]) if '--workers' in a else 4
    only = a[a.index('--only') + 1].split(',') if '--only' in a else None
    q = queue.Queue()
    for x in hand.H:
        if not only or x[0] in only:
            q.put(x)
    ts = [threading.Thread(target=worker, args=(i, q, max(1, 8 // n))) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
