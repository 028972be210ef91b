#!/usr/bin/env python3
"""refactor.py [--workers N] [--only a,b] [--props C01,..]   run every check on the edits of refactors.py, in scratch copies"""
import os, queue, re, shutil, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors
from mutate import PROPS
ALL = ['C%02d' % i for i in range(1, 30)]
ROOT = '/tmp/mw'
PICK = sys.argv[sys.argv.index('--props') + 1].split(',') if '--props' in sys.argv else None


def sh(cmd, cwd=None, timeout=1500):
    import subprocess
    try:
        p = subprocess.run(cmd, shell=True, executable='/bin/bash', cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def worker(k, todo, jobs):
    w = '%s/r%d' % (ROOT, k)
    repo, ver = w + '/repo', w + '/verif'
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(ver)
    sh('cp -a /repo %s; git -C %s checkout -q -- .' % (repo, repo))
    sh('cp -a /verif/{check.py,props.py,replay.mjs,harness,unit,stubs,wsym,known-findings.txt,properties.jsonl,MANIFEST.json} %s/' % ver)
    sh(r'''grep -rl '"/repo' harness unit --include=*.toml --include=*.rs | xargs sed -i 's#"/repo#"%s#g' ''' % repo, cwd=ver)
    sh("sed -i 's/^JOBS = .*/JOBS = %d/' check.py" % jobs, cwd=ver)
    rc, o = sh('python3 check.py --setup', cwd=ver)
    if rc:
        print(o[-2000:])
        return
    while True:
        try:
            name, edits = todo.get_nowait()
        except queue.Empty:
            return
        sh('git checkout -q -- .', cwd=repo)
        msg = []
        for f, old, new in edits:
            s = open(os.path.join(repo, f)).read()
            if s.count(old) != 1:
                msg.append('EDIT MATCHES %d %s %r' % (s.count(old), f, old[:50]))
                continue
            open(os.path.join(repo, f), 'w').write(s.replace(old, new))
        if not msg:
            rc, o = sh('. /opt/vp/env.sh; cd %s; cargo test --workspace --lib --offline 2>&1; cargo check --offline --features serde,tokio-test-util 2>&1' % repo)
            if rc or 'FAILED' in o:
                msg.append('does not build: ' + o[-1500:])
        if not msg:
            mine = {p for f, _, _ in edits for p in PROPS[f[4:]].split()}
            for p in [p for p in ALL if p in mine and (not PICK or p in PICK)]:
                rc, o = sh('python3 check.py %s quick' % p, cwd=ver)
                if rc or 'VIOLATION' in o:
                    msg.append('%s rc=%d %s' % (p, rc, o[-700:]))
                elif 'NOTE' in o or 'undecided' in o:
                    msg.append('%s: %s' % (p, [l for l in o.splitlines() if 'NOTE' in l or 'undecided' in l]))
        print(name, 'quiet' if not msg else '\n  '.join(msg), flush=True)
        sh('git checkout -q -- .', cwd=repo)


def main():
    a = sys.argv
    n = int(a[a.index('--workers') + 1]) if '--workers' in a else 4
    only = a[a.index('--only') + 1].split(',') if '--only' in a else None
    q = queue.Queue()
    for x in refactors.R:
        if not only or x[0] in only:
            q.put(x)
    ts = [threading.Thread(target=worker, args=(i, q, max(1, 8 // n))) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
