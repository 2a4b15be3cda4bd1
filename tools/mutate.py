#!/usr/bin/env python3
"""Development aid: applies source mutants to scratch copies of /repo and runs
checks against them.  usage: mutate.py LIST.json [workers]
LIST: [{"name":, "file":, "old":, "new":, "nth": 0, "props": ["S01"], "patch": path}]"""
import json, os, sys, subprocess, shutil, multiprocessing as mp, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/mut'


def one(m):
    w = int(mp.current_process()._identity[0]) if mp.current_process()._identity else 0
    d = '%s/w%d' % (TMP, w)
    repo = d + '/repo'
    if not os.path.exists(repo):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        if os.path.exists(V + '/.build'):
            subprocess.run(['cp', '-a', V + '/.build', d + '/build'], check=True)
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    if 'patch' in m:
        r = subprocess.run(['git', '-C', repo, 'apply', m['patch']], capture_output=True, text=True)
        if r.returncode:
            return m, 'patch does not apply', {}
    else:
        p = os.path.join(repo, m['file'])
        s = open(p).read()
        parts = s.split(m['old'])
        n = m.get('nth', 0)
        if len(parts) < n + 2:
            return m, 'text not found (%d)' % (len(parts) - 1), {}
        s = m['old'].join(parts[:n + 1]) + m['new'] + m['old'].join(parts[n + 1:])
        open(p, 'w').write(s)
    e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + '/build', VERIF_EVID=d + '/out')
    res = {}
    for pid in m['props']:
        t = time.time()
        r = subprocess.run(['timeout', '900', 'python3-vt', V + '/vcg/check.py', pid], env=e, capture_output=True, text=True, cwd=V)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        res[pid] = (r.returncode, len(v), sum('no-failing' in l for l in v), round(time.time() - t, 1), r.stdout[:2500] if (m.get('show') or r.returncode == 2) else '\n'.join(r.stdout.split('\n')[:4])[:500])
    tst = ''
    if m.get('test'):
        r = subprocess.run('. /opt/vp/env.sh; cd %s; cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|error" | head -20' % repo, shell=True, capture_output=True, text=True, executable='/bin/bash')
        tst = r.stdout
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    return m, tst, res


if __name__ == '__main__':
    L = json.load(open(sys.argv[1]))
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    verbose = '-v' in sys.argv
    with mp.Pool(n) as p:
        for m, t, res in p.imap_unordered(one, L):
            print('==', m['name'], '|', t.strip()[-300:] if t else '', '|', {k: v[:4] for k, v in res.items()}, flush=True)
            for k, v in res.items():
                if verbose or v[0] == 2 or m.get('show'):
                    print(v[4])
