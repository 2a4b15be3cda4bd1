#!/usr/bin/env python3
"""Development aid: makes and confirms planted bugs.  usage: seed.py SPEC.py [id ...]
SPEC.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=rust main body)"""
import sys, os, subprocess, json, shutil, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
mkdir -p "$repo/target/debug/include"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n\\n[workspace]\\n\\n[dependencies]\\nqcd-sme = { path = "%s/qcd-sme" }\\n@DEPS@\\n[profile.dev]\\ndebug = false\\n' "$repo" @ARGS@ > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock.saved "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 2; }
timeout 200 "$w/target/debug/demo"
'''


def sh(cmd, cwd=None, t=900):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def one(b):
    d = '/tmp/seed/' + b['id']
    out = V + '/seeded/' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = d + '/repo'
    sh('cp -a /repo ' + repo)
    sh('git checkout -q -- .', repo)
    os.makedirs(out, exist_ok=True)
    tc = b.get('tc')
    demo = DEMO.replace('@DEPS@', 'tc_long_prop = { path = "%s/tc_long_prop" }\\n' if tc else '').replace('@ARGS@', '"$repo"' if tc else '')
    open(out + '/demo.sh', 'w').write(b.get('sh') or demo)
    if 'demo' in b:
        open(out + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    for n, t in b.get('files', {}).items():
        open(out + '/' + n, 'w').write(t)
    rc0, o0 = sh('bash %s/demo.sh' % out, repo)
    for e in b['edits']:
        p = os.path.join(repo, e[0])
        s = open(p).read()
        parts = s.split(e[1])
        n = e[3] if len(e) > 3 else None
        if n is None and len(parts) != 2 or len(parts) < 2:
            return b['id'], 'edit text occurs %d times: %s' % (len(parts) - 1, e[1][:60])
        n = n or 0
        if n == 'all':
            s = e[2].join(parts)
        else:
            s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
        open(p, 'w').write(s)
    rc, diff = sh('git diff', repo)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    env = 'export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only PYO3_PYTHON=/usr/bin/python3; '
    rc, o = sh(env + 'cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > log.txt 2>&1; grep -c "^test .* ok$" log.txt; grep "^test .*FAILED" log.txt; grep -E "^error|^warning: unused" log.txt | head', repo)
    rc1, o1 = sh('bash %s/demo.sh' % out, repo)
    shutil.rmtree(d, ignore_errors=True)
    okn = o.strip().split('\n')[0]
    good = rc0 == 0 and rc1 not in (0,) and 'FAILED' not in o and 'error' not in o
    return b['id'], '%s demo %d -> %d (%s) tests ok %s' % ('GOOD' if good else 'BAD ', rc0, rc1, (o0 + '|' + o1).strip()[-160:].replace('\n', ' '), o.strip().replace('\n', ' ')[:300])


if __name__ == '__main__':
    ns = {'V': V}
    exec(open(sys.argv[1]).read(), ns)
    L = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with mp.Pool(4) as p:
        for i, r in p.imap_unordered(one, L):
            print(i, r, flush=True)
