#!/usr/bin/env python3
"""mutate.py [--workers N] [--files a.rs,b.rs] [--sample K] [--out FILE]

A sweep of small mechanical changes over /repo's sources, each in scratch copies under /tmp/mw: which of them compile
and pass the existing tests, and which of those do the checks catch?  Used to find blind spots; nothing registered in
MANIFEST.json needs it."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time

ROOT = '/tmp/mw'
PROPS = {
    'js.rs': 'C05 C06 C14 C02', 'std.rs': 'C13 C14 C15 C16 C25 C11 C08 C17',
    'timer/heap.rs': 'C07 C01 C02 C26', 'timer/arc_list.rs': 'C23 C26 C01 C02 C24',
    'timer/mod.rs': 'C02 C04 C01 C03 C05 C06 C07 C24 C26 C27 C29',
    'timer/global.rs': 'C05 C06 C02 C12 C29 C27 C25 C26 C01',
    'tokio/sleep.rs': 'C01 C02 C03 C04 C10 C12 C25 C26 C05 C28', 'tokio/interval.rs': 'C08 C09 C25 C26 C28', 'tokio/timeout.rs': 'C10 C25 C26',
    'tokio/test_utils.rs': 'C11 C12', 'tokio/error.rs': 'C10',
    'tokio_util/mod.rs': 'C17 C18 C19 C22', 'tokio_util/delay_queue.rs': 'C18 C21 C20 C17 C19 C22 C26',
    'tokio_util/wheel/mod.rs': 'C18 C22 C17 C19 C21 C26',
    'tokio_util/wheel/stack.rs': 'C18 C19 C26',
}
OPS = [
    (r' < ', [' <= ', ' >= ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' <= ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'if !', ['if ']), (r'\bis_some\(', ['is_none(']), (r'\bis_none\(', ['is_some(']),
    (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']),
    (r'\.floor\(', ['.ceil(', '.round(']), (r'\.ceil\(', ['.floor(']), (r'saturating_', ['wrapping_']), (r'checked_add\(', ['checked_sub(']), (r'checked_sub\(', ['checked_add(']),
    (r'(?<![\w.\]])(\d+)(?![\w.])', ['+1', '-1']),
    (r'\bif (?!let )([^{]+) \{$', ['if true {', 'if false {']),
    (r'\?;', [';']),
]


def mutants(path, rel):
    src = open(path).read().split('\n')
    res = []
    skip = False
    depth = None
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('#[test]'):
            skip = True
            depth = None
        if skip:
            # skip the following item
            if depth is None:
                if '{' in l:
                    depth = l.count('{') - l.count('}')
                    if depth == 0:
                        skip = False
                elif s.endswith(';'):
                    skip = False
            else:
                depth += l.count('{') - l.count('}')
                if depth <= 0:
                    skip = False
            continue
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or s.startswith('fmt.') or 'assert' in s or 'panic!' in s or 'expect(' in s and False:
            continue
        code = l.split(' // ')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if '<' in pat and re.search(r'(impl|fn|struct|Poll<|Option<)', code) and pat.strip() in ('<', '>'):
                    continue
                for r in reps:
                    if r in ('+1', '-1'):
                        v = int(m.group(1)) + int(r)
                        if v < 0:
                            continue
                        t = code[:m.start()] + str(v) + code[m.end():]
                    elif r.startswith('if '):
                        t = code[:m.start()] + r + code[m.end():]
                    else:
                        t = code[:m.start()] + r + code[m.end():]
                    if t != code:
                        res.append((rel, n, t))
        if s.endswith(';') and not re.match(r'(let|use|pub|return|const|type|fn|struct|mod|static|extern)\b', s) and (src[n - 1].strip().endswith(('{', ';', '}')) or not src[n - 1].strip()):
            res.append((rel, n, re.sub(r'\S.*', '// deleted', code)))
        if re.match(r'return\b.*;$', s):
            res.append((rel, n, re.sub(r'\S.*', '// deleted', code)))
    return res


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, executable='/bin/bash', cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def worker(k, todo, out, lock, jobs):
    w = '%s/%d' % (ROOT, k)
    repo, ver = w + '/repo', w + '/verif'
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(w)
    sh('cp -a /repo %s; git -C %s checkout -q -- .' % (repo, repo))
    os.makedirs(ver)
    sh('cp -a /verif/{check.py,props.py,replay.mjs,harness,unit,stubs,wsym,known-findings.txt,properties.jsonl,MANIFEST.json} %s/' % ver)
    sh(r'''grep -rl '"/repo' harness unit --include=*.toml --include=*.rs | xargs sed -i 's#"/repo#"%s#g' ''' % repo, cwd=ver)
    sh("sed -i 's/^JOBS = .*/JOBS = %d/' check.py" % jobs, cwd=ver)
    env = '. /opt/vp/env.sh; cd %s; ' % repo
    want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    rc, o = sh('python3 check.py --setup', cwd=ver, timeout=1800)
    if rc:
        print('setup failed', o[-2000:])
        return
    while True:
        try:
            m = todo.get_nowait()
        except queue.Empty:
            return
        rel, n, t = m['file'], m['line'], m['new']
        p = '%s/src/%s' % (repo, rel)
        src = open(p).read()
        ls = src.split('\n')
        m['old'] = ls[n]
        ls[n] = t
        open(p, 'w').write('\n'.join(ls))
        t0 = time.time()
        try:
            rc, o = sh(env + 'cargo check --offline --features serde,tokio-test-util 2>&1')
            if rc:
                m['res'] = 'nocompile'
                continue
            rc, a = sh(env + 'timeout 60 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 2>&1')
            ok = len(re.findall(r'^test .* \.\.\. ok', a, re.M))
            if rc or ok < 1:
                m['res'] = 'tests'
                continue
            rc, b = sh(env + 'timeout 60 cargo test -p wasmtimer --lib --tests --target $WASM --features $WASM_FEATURES --no-fail-fast --offline 2>&1')
            ok += len(re.findall(r'^test .* \.\.\. ok', b, re.M))
            if ok < 36:
                m['res'] = 'tests'
                continue
            m['res'] = 'MISSED'
            for pid in PROPS[rel].split():
                rc, o = sh('python3 check.py %s quick' % pid, cwd=ver, timeout=1200)
                if rc == 1 and 'VIOLATION' in o:
                    m['res'] = 'caught ' + pid
                    break
                if rc:
                    m['res'] = 'MISSED'
                    m.setdefault('odd', []).append('%s rc=%d %s' % (pid, rc, o[-600:]))
                if 'undecided' in o:
                    m.setdefault('undecided', []).append(pid)
        finally:
            open(p, 'w').write(src)
            m['t'] = round(time.time() - t0, 1)
            with lock:
                with open(out, 'a') as f:
                    f.write(json.dumps(m) + '\n')


def main():
    a = sys.argv
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    N = int(opt('--workers', '4'))
    out = opt('--out', '/tmp/mutants.jsonl')
    files = opt('--files', '').split(',') if '--files' in a else list(PROPS)
    ms = []
    for f in files:
        ms += mutants('/repo/src/' + f, f)
    random.Random(int(opt('--seed', '7'))).shuffle(ms)
    k = int(opt('--sample', '0'))
    if k:
        ms = ms[:k]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    q = queue.Queue()
    for m in ms:
        if m not in done:
            q.put({'file': m[0], 'line': m[1], 'new': m[2]})
    print(q.qsize(), 'mutants')
    if '--list' in a:
        from collections import Counter
        print(Counter(m[0] for m in ms))
        return
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, out, lock, max(1, 8 // N))) for i in range(N)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
