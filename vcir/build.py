"""Builds, from the repository's current working tree, (a) the LLVM IR the verifier reads and (b) shared libraries for
running the same code natively.  Everything goes under /verif/.build (git-ignored); /repo is only read."""
import glob
import os
import shutil
import subprocess
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(HERE, '.build'))
TRIPLE = 'x86_64-unknown-linux-gnu'

CONFIGS = {
    # name: (kind, feature args, RUSTFLAGS)
    'ir': ('lib', [], '--emit=llvm-ir -C codegen-units=1 -C panic=abort -C symbol-mangling-version=v0 '
           '-Z share-generics=no -C debuginfo=0'),
    'ir-nodebug': ('lib', [], '--emit=llvm-ir -C codegen-units=1 -C panic=abort -C symbol-mangling-version=v0 '
                   '-Z share-generics=no -C debuginfo=0 -C debug-assertions=off -C overflow-checks=off'),
    'ir-borsh': ('lib', ['--no-default-features', '--features', 'borsh'],
                 '--emit=llvm-ir -C codegen-units=1 -C panic=abort -C symbol-mangling-version=v0 '
                 '-Z share-generics=no -C debuginfo=0'),
    'native': ('cdylib', [], '-C opt-level=2 -C debug-assertions=on -C overflow-checks=on -C panic=abort -C debuginfo=0'),
    'native-nodebug': ('cdylib', [], '-C opt-level=2 -C debug-assertions=off -C overflow-checks=off -C panic=abort -C debuginfo=0'),
    'native-borsh': ('cdylib', ['--no-default-features', '--features', 'borsh'],
                     '-C opt-level=2 -C debug-assertions=on -C overflow-checks=on -C panic=abort -C debuginfo=0'),
}


class BuildError(Exception):
    pass


def _driver(name):
    d = os.path.join(BUILD, name, 'driver')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'src'))
    src = os.path.join(HERE, 'driver')
    for f in ['Cargo.toml', 'Cargo.lock'] + [os.path.join('src', x) for x in os.listdir(os.path.join(src, 'src'))]:
        t = open(os.path.join(src, f)).read()
        if f == 'Cargo.toml':
            t = t.replace('"/repo"', '"%s"' % REPO)
        with open(os.path.join(d, f), 'w') as o:
            o.write(t)
    return d


def _one(name, out):
    kind, feats, flags = CONFIGS[name]
    try:
        d = _driver(name)
        td = os.path.join(BUILD, name, 'target')
        deps = os.path.join(td, TRIPLE, 'debug', 'deps')
        for f in glob.glob(os.path.join(deps, '*.ll')):       # never read a stale module
            os.remove(f)
        for f in glob.glob(os.path.join(deps, 'librabe_bn*')) + glob.glob(os.path.join(deps, 'libvpdriver*')) + \
                glob.glob(os.path.join(td, TRIPLE, 'debug', '.fingerprint', '*')):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        env = dict(os.environ, CARGO_TARGET_DIR=td, RUSTC_BOOTSTRAP='1', RUSTFLAGS=flags, CARGO_INCREMENTAL='0')
        cmd = ['cargo', 'rustc', '--offline', '--target', TRIPLE, '--crate-type', 'rlib' if kind == 'lib' else 'cdylib',
               '--lib'] + feats
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise BuildError('%s: %s' % (name, p.stdout[-3000:]))
        if kind == 'lib':
            out[name] = sorted(glob.glob(os.path.join(deps, '*.ll')))
        else:
            c = glob.glob(os.path.join(td, TRIPLE, 'debug', '**', 'libvpdriver*.so'), recursive=True)
            if not c:
                raise BuildError(name + ': no shared library produced')
            out[name] = c[0]
    except Exception as e:          # reported by the caller
        out[name] = e


def rng_lib():
    so = os.path.join(BUILD, 'librng.so')
    os.makedirs(BUILD, exist_ok=True)
    tmp = so + '.%d' % os.getpid()
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, os.path.join(HERE, 'vcir', 'rng.c')], check=True)
    os.replace(tmp, so)
    return so


def build(names):
    """{config: list of .ll files or path of the .so}; raises BuildError if one fails"""
    out = {}
    ts = [threading.Thread(target=_one, args=(n, out)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n in names:
        if isinstance(out.get(n), Exception):
            raise BuildError(str(out[n]))
    return out


def existing(names):
    """the products of an earlier build (for working on the verifier itself)"""
    out = {}
    for n in names:
        base = os.path.join(BUILD, n, 'target', TRIPLE, 'debug')
        if CONFIGS[n][0] == 'lib':
            out[n] = sorted(glob.glob(os.path.join(base, 'deps', '*.ll')))
        else:
            out[n] = os.path.join(base, 'libvpdriver.so')
    return out
