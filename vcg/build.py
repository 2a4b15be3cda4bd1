"""Extract the verified text: the MIR rustc produces from /repo's working tree.

Nothing in /repo is modified; objects go to /verif/.build (git-ignored) and are
keyed by the content of the sources, so an unchanged tree is not rebuilt.
"""
import os, subprocess, hashlib, fcntl, glob, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')

TARGETS = {
    'qcd_sme': ['-p', 'qcd-sme', '--lib'],
    'tc_lib': ['-p', 'tc_long_prop', '--lib'],
    'tc_bin': ['-p', 'tc_long_prop', '--bin', 'physical_tc'],
    'one_bin': ['-p', 'tc_long_prop', '--bin', 'one_mass_overall'],
    'two_bin': ['-p', 'tc_long_prop', '--bin', 'two_masses_overall'],
}
GLOBS = {'qcd_sme': 'qcd_sme.mir', 'tc_lib': 'tc_long_prop-*.mir', 'tc_bin': 'physical_tc-*.mir',
         'one_bin': 'one_mass_overall-*.mir', 'two_bin': 'two_masses_overall-*.mir'}


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
             PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), PYO3_PYTHON='/usr/bin/python3')
    e.pop('RUSTFLAGS', None)
    return e


def srchash():
    h = hashlib.sha256()
    files = []
    for pat in ('Cargo.toml', 'qcd-sme/Cargo.toml', 'qcd-sme/build.rs', 'tc_long_prop/Cargo.toml',
                'qcd-sme/src/**/*.rs', 'tc_long_prop/src/**/*.rs'):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(set(files)):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def prepare():
    lock = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock.saved'):
        import shutil
        shutil.copy('/opt/vp/Cargo.lock.saved', lock)
    os.makedirs(os.path.join(REPO, 'target', 'debug', 'include'), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)


def extract(which=('qcd_sme',)):
    """returns {target: path of the .mir text}"""
    prepare()
    out = {}
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = srchash()
        d = os.path.join(BUILD, 'mir', key)
        os.makedirs(d, exist_ok=True)
        for w in which:
            dst = os.path.join(d, w + '.mir')
            if not os.path.exists(dst):
                e = env()
                e['RUSTC_BOOTSTRAP'] = '1'
                deps = os.path.join(BUILD, 'target', 'debug', 'deps')
                for old in glob.glob(os.path.join(deps, GLOBS[w])):
                    os.remove(old)
                # make sure cargo really recompiles the crate
                cmd = ['cargo', 'rustc', '--offline'] + TARGETS[w] + ['--', '--emit=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no']
                for attempt in (0, 1):
                    r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode != 0:
                        raise BuildError(r.stdout[-4000:])
                    got = glob.glob(os.path.join(deps, GLOBS[w]))
                    if got:
                        break
                    # fresh: drop the fingerprint and build again
                    pk = 'qcd-sme' if w == 'qcd_sme' else 'tc_long_prop'
                    subprocess.run(['cargo', 'clean', '--offline', '-p', pk], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if not got:
                    raise BuildError('no MIR produced for ' + w)
                txt = open(got[0]).read()
                tmp = dst + '.tmp'
                open(tmp, 'w').write(txt)
                os.rename(tmp, dst)
                os.remove(got[0])
            out[w] = dst
        # keep only a few old extractions
        ds = sorted(glob.glob(os.path.join(BUILD, 'mir', '*')), key=os.path.getmtime)
        for o in ds[:-4]:
            if o != d:
                for f in glob.glob(o + '/*'):
                    os.remove(f)
                os.rmdir(o)
    return out


if __name__ == '__main__':
    print(extract(sys.argv[1:] or ('qcd_sme',)))
