"""Mechanical extraction of the verified text from /repo's current working tree.

Everything is produced by the pinned rustc itself:
  * MIR of diman_lib and diman_unit_system:  cargo rustc -Zunpretty=mir
  * MIR of a unit system's generated code:   cargo rustc -Zunpretty=expanded, then MIR of the
    expanded text (dropped: macro hygiene, the derive/macro invocations themselves; added: feature
    gates needed to name std internals that built-in derives expand to).
Nothing is written inside /repo.
"""
import hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get('MIRVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('MIRVC_BUILD') or os.path.join(VERIF, '.build')
TOOLCHAIN = 'nightly-2024-10-20-x86_64-unknown-linux-gnu'
NIGHTLY_INTERNAL = ['liballoc_internals', 'fmt_internals', 'fmt_helpers_for_derive', 'core_intrinsics',
                    'structural_match', 'rt', 'panic_internals', 'coverage_attribute', 'unsized_const_params',
                    'hint_must_use', 'derive_eq', 'derive_clone_copy', 'custom_inner_attributes', 'generic_const_exprs',
                    'adt_const_params']


class BuildError(Exception):
    """the tree under test does not build: no verdict about the property is possible"""


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
             RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_PROFILE_DEV_DEBUG='0', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTC_ICE='0', RUST_BACKTRACE='0',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    e.update(extra or {})
    return e


def tracked():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard'], capture_output=True, text=True)
    if out.returncode != 0 or not out.stdout:
        fs = []
        for base, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in ('target', '.git')]
            fs += [os.path.relpath(os.path.join(base, f), REPO) for f in files]
        return sorted(fs)
    return sorted(f for f in out.stdout.split('\n') if f and os.path.isfile(os.path.join(REPO, f)))


def tree_hash():
    h = hashlib.sha256()
    for f in tracked():
        if not (f.startswith(('src/', 'crates/')) or f.endswith('.toml')):
            continue
        h.update(f.encode() + b'\0')
        h.update(open(os.path.join(REPO, f), 'rb').read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def scratch_tree():
    """a copy of the working tree keyed by content"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    d = os.path.join(BUILD, 'tree-' + key)
    if not os.path.exists(os.path.join(d, '.done')):
        for o in os.listdir(BUILD):
            if o.startswith('tree-') and o != 'tree-' + key:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in tracked():
            dst = os.path.join(d, 'repo', f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        lock = os.path.join(REPO, 'Cargo.lock')
        if not os.path.exists(lock):
            lock = '/opt/vp/Cargo.lock'
        shutil.copyfile(lock, os.path.join(d, 'repo', 'Cargo.lock'))
        os.makedirs(os.path.join(d, 'out'), exist_ok=True)
        open(os.path.join(d, '.done'), 'w').write(key)
    return d


def target_dir():
    return os.path.join(BUILD, 'target')


def run(cmd, cwd, extra=None, timeout=600):
    e = env(extra)
    e['CARGO_TARGET_DIR'] = target_dir()
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p


def cached(name, producer):
    d = scratch_tree()
    f = os.path.join(d, 'out', name)
    if not os.path.exists(f):
        txt = producer(d)
        tmp = f + f'.{os.getpid()}.tmp'
        open(tmp, 'w').write(txt)
        os.rename(tmp, f)
    return open(f).read()


FEATURES = {   # feature sets of the CI
    'all': ['--all-features'],
    'norational': ['--features', 'glam,glam-vec2,glam-dvec2,glam-vec3,glam-dvec3,f32,f64,si,mpi,hdf5,rand,serde'],
    'default': [],
    'nostd': ['--no-default-features', '--features', 'f32,f64,si'],
    'libm': ['--no-default-features', '--features', 'f32,f64,num-traits-libm,si'],
}
LIB_FEATURES = {
    'all': ['--features', 'std,num-traits-libm'],
    'std': ['--features', 'std'],
    'libm': ['--features', 'num-traits-libm'],
    'nostd': [],
}
US_BASE = 'glam,glam-vec2,glam-dvec2,glam-vec3,glam-dvec3,f32,f64,mpi,hdf5,rand,serde,std'
US_FEATURES = {
    'rational': ['--features', US_BASE + ',rational-dimensions,num-traits-libm'],
    'integer': ['--features', US_BASE],
}


def _mir(d, cwd, args, what):
    p = run(['cargo', 'rustc', '--offline', '--lib'] + args + ['--', '-Zunpretty=mir'], cwd)
    if p.returncode != 0 or not p.stdout.strip():
        raise BuildError(f'{what} does not compile:\n' + p.stderr[-4000:])
    return p.stdout


def lib_mir(cfg):
    return cached(f'lib-{cfg}.mir',
                  lambda d: _mir(d, os.path.join(d, 'repo', 'crates', 'diman_lib'), LIB_FEATURES[cfg], f'diman_lib[{cfg}]'))


def us_mir(cfg):
    return cached(f'us-{cfg}.mir',
                  lambda d: _mir(d, os.path.join(d, 'repo', 'crates', 'diman_unit_system'), US_FEATURES[cfg],
                                 f'diman_unit_system[{cfg}]'))


def us_expanded(cfg):
    """macro-expanded text of the proc-macro crate (enums written by macros)"""
    def prod(d):
        p = run(['cargo', 'rustc', '--offline', '--lib'] + US_FEATURES[cfg] + ['--', '-Zunpretty=expanded'], os.path.join(d, 'repo', 'crates', 'diman_unit_system'))
        if p.returncode != 0 or not p.stdout.strip():
            raise BuildError(f'diman_unit_system[{cfg}] does not expand:\n' + p.stderr[-4000:])
        return p.stdout
    return cached(f'us-{cfg}.rs', prod)


def _add_features(src, feats):
    have = set()
    for m in re.finditer(r'#!\[feature\(([^)]*)\)\]', src):
        have |= {x.strip() for x in m.group(1).split(',')}
    new = [f for f in feats if f not in have]
    return (f'#![feature({",".join(new)})]\n' if new else '') + src


def expanded(cfg):
    """macro-expanded text of /repo's crate (bundled SI system)"""
    def prod(d):
        p = run(['cargo', 'rustc', '--offline', '--lib'] + FEATURES[cfg] + ['--', '-Zunpretty=expanded'],
                os.path.join(d, 'repo'))
        if p.returncode != 0 or not p.stdout.strip():
            raise BuildError(f'diman[{cfg}] does not expand:\n' + p.stderr[-4000:])
        return p.stdout
    return cached(f'si-{cfg}.rs', prod)


def gate(src, extra=()):
    src = _add_features(src, NIGHTLY_INTERNAL + list(extra))
    if 'extern crate alloc;' not in src:
        src = re.sub(r'(extern crate (std|core);)', r'\1 extern crate alloc;', src, count=1)
    return src


def compile_expanded(root, crate_dir, cargo_args, what, src, out_src):
    """write src as the crate's lib and produce MIR; adds missing feature gates on demand"""
    extra = []
    for _ in range(6):
        txt = gate(src, extra)
        path = os.path.join(crate_dir, 'src', 'lib.rs')
        open(path, 'w').write(txt)
        p = run(['cargo', 'rustc', '--offline', '--lib'] + cargo_args + ['--', '-Zunpretty=mir', '--cap-lints', 'allow'], crate_dir)
        if p.returncode == 0 and p.stdout.strip():
            open(out_src, 'w').write(txt)
            return p.stdout
        fs = set(re.findall(r'add `#!\[feature\((\w+)\)\]`', p.stderr)) | set(re.findall(r"use of unstable library feature '(\w+)'", p.stderr))
        fs -= set(extra)
        if not fs:
            raise BuildError(f'{what}: expanded code does not compile:\n' + p.stderr[-4000:])
        extra += sorted(fs)
    raise BuildError(f'{what}: expanded code does not compile')


def si_mir(cfg):
    """-> (mir text, expanded source text)"""
    def prod(d):
        src = expanded(cfg)
        cd = os.path.join(d, 'exp-' + cfg)
        if os.path.isdir(cd):
            shutil.rmtree(cd)
        shutil.copytree(os.path.join(d, 'repo'), cd)
        return compile_expanded(d, cd, FEATURES[cfg], f'diman[{cfg}]', src, os.path.join(d, 'out', f'si-{cfg}.exp.rs'))
    m = cached(f'si-{cfg}.mir', prod)
    d = scratch_tree()
    return m, open(os.path.join(d, 'out', f'si-{cfg}.exp.rs')).read()


if __name__ == '__main__':
    t0 = time.time()
    for c in LIB_FEATURES:
        print('lib', c, len(lib_mir(c)), time.time() - t0, flush=True)
    for c in US_FEATURES:
        print('us', c, len(us_mir(c)), time.time() - t0, flush=True)
    for c in ('all', 'norational'):
        m, s = si_mir(c)
        print('si', c, len(m), len(s), time.time() - t0, flush=True)
