"""Native tier: builds harness crates of /verif/native against the tree under test and runs them.
Used to replay refutations on the real code (finding a failing input) and as labelled bounded
stand-in for functions outside the verifier's reach; never counted as proved."""
import hashlib, json, os, re, shutil, subprocess
import extract
from extract import VERIF, BUILD


def crate(name):
    """copy of /verif/native/<name> whose path dependencies point at the tree under test"""
    d = extract.scratch_tree()
    dst = os.path.join(d, 'native', name)
    src = os.path.join(VERIF, 'native', name)
    os.makedirs(dst, exist_ok=True)
    for base, _, fs in os.walk(src):
        if 'target' in base.split(os.sep):
            continue
        for f in fs:
            s = os.path.join(base, f)
            t = os.path.join(dst, os.path.relpath(s, src))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            txt = open(s).read()
            if f == 'Cargo.toml':
                txt = txt.replace('"/repo/', '"' + os.path.join(d, 'repo') + '/').replace('"/repo"', '"' + os.path.join(d, 'repo') + '"')
            if (name, f) in (('us_h', 'main.rs'), ('sys_h', 'main.rs'), ('corpus_h', 'lib.rs')) and (name == 'us_h' or os.path.exists(t)):
                continue
            if not os.path.exists(t) or open(t).read() != txt:
                open(t, 'w').write(txt)
    if name == 'us_h':
        us_sources(d, dst)
    shutil.copyfile(os.path.join(d, 'repo', 'Cargo.lock'), os.path.join(dst, 'Cargo.lock'))
    return dst


def us_sources(d, dst):
    """the macro crate's sources as an ordinary program: only the compiler-provided proc_macro API is
    replaced (diagnostics are recorded instead of printed)"""
    src = os.path.join(d, 'repo', 'crates', 'diman_unit_system', 'src')
    own = os.path.join(VERIF, 'native', 'us_h', 'src')
    for base, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(base, f), src)
            t = open(os.path.join(base, f)).read()
            lib = rel == 'lib.rs'
            if lib:
                t = re.sub(r'#!\[feature\([^)]*\)\]', '', t)
                t = re.sub(r'#\[proc_macro\]', '', t)
                t = t.replace('proc_macro::TokenStream', 'proc_macro2::TokenStream')
                t = re.sub(r'(?:syn::)?parse_macro_input!\(\s*(\w+)\s+as\s+([^)]*)\)',
                           r'match syn::parse2::<\2>(\1) { Ok(x) => x, Err(e) => return e.to_compile_error() }', t)
            else:
                t = re.sub(r'\bproc_macro::', 'crate::shim::', t)
                t = re.sub(r'((?:\.span\(\)|Span::call_site\(\)))(\s*)\.unwrap\(\)', r'\1\2.shim()', t)
                if '.shim()' in t:
                    t = 'use crate::shim::Shim as _;\n' + t
            if lib:
                rel = 'main.rs'
                t = t + '\n' + open(os.path.join(own, 'main.rs')).read()
            o = os.path.join(dst, 'src', rel)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            if not os.path.exists(o) or open(o).read() != t:
                open(o, 'w').write(t)


def literals(files, limit=60):
    """numeric literals of the source files under test, as extra sample values"""
    out = []
    for f in files:
        p = os.path.join(extract.REPO, f)
        if not os.path.exists(p):
            continue
        src = re.sub(r'#\[cfg\(test\)\].*', '', open(p).read(), flags=re.S)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)', src):
            t = m.group(1).replace('_', '')
            try:
                v = float(int(t, 16)) if t.startswith('0x') else float(t)
            except ValueError:
                continue
            for w in (v, v - 1, v + 1):
                if w not in out:
                    out.append(w)
    return out[:limit]


def build(name, feats=(), timeout=700):
    dst = crate(name)
    args = ['cargo', 'build', '--offline', '--message-format=json-render-diagnostics']
    if feats:
        args += ['--features', ','.join(feats)]
    p = extract.run(args, dst, timeout=timeout)
    if p.returncode != 0:
        own = re.findall(r'^error[^\n]*\n\s*--> (src/[^\n]*)', p.stderr, flags=re.M)
        e = RuntimeError(f'{name} does not build:\n' + p.stderr[-3000:])
        e.own = own and p.stderr[p.stderr.find('error'):][:1500]
        raise e
    exe = None
    for l in p.stdout.split('\n'):
        if l.startswith('{'):
            j = json.loads(l)
            if j.get('executable'):
                exe = j['executable']
    return exe


def run(exe, args, timeout=600):
    p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout,
                       env=extract.env(), cwd='/tmp')
    cases, fails = 0, []
    for l in p.stdout.split('\n'):
        if l.startswith('{'):
            j = json.loads(l)
            if 'skipped' in j:
                continue
            if 'cases' in j:
                cases += j['cases']
            else:
                fails.append(j)
    if p.returncode != 0 and not fails:
        raise RuntimeError(f'{exe} {args[:2]} ended with {p.returncode}: ' + p.stderr[-1500:])
    return cases, fails


def lib_suite(ck, bound, files, feats=('std',)):
    def f(check, reasons):
        exe = build('lib_h', feats)
        lits = literals(files)
        cases, fails = run(exe, [ck, check.seed, check.tier] + [repr(x) for x in lits])
        check.bounded.append({'name': f'native differential run of diman_lib ({",".join(feats)})', 'bound': bound, 'cases': cases,
                              'failures': len(fails), 'label': 'bounded: not counted as proved'})
        for x in fails:
            check.failures.append({'key': x['fail'].replace(' ', '_'), 'what': x['fail'], 'input': x['input'], 'count': x['count'],
                                   'replay': f'{exe} {ck} {check.seed} {check.tier}'})
    return f


SI_CFG = {'rational': 'rational,ffi', 'integer': ''}


def si_suite(ck, bound, cfgs=('rational',), api=True):
    """suite of native/si_h; api: user code of the harness no longer compiling against the (compiling)
    crate is itself a failing input"""
    def f(check, reasons):
        for cfg in (('rational', 'integer') if check.tier == 'thorough' else cfgs):
            feats = [x for x in SI_CFG[cfg].split(',') if x]
            try:
                exe = build('si_h', feats)
            except RuntimeError as e:
                if api and getattr(e, 'own', None):
                    check.failures.append({'key': 'harness-does-not-compile', 'what': 'code using the documented API no longer compiles', 'input': e.own, 'count': 1,
                                           'replay': 'cargo build in native/si_h'})
                    return
                raise
            cases, fails = run(exe, [ck, check.seed, check.tier])
            check.bounded.append({'name': f'native differential run of the generated SI code ({cfg} exponents)', 'bound': bound, 'cases': cases,
                                  'failures': len(fails), 'label': 'bounded: not counted as proved'})
            for x in fails:
                check.failures.append({'key': x['fail'].replace(' ', '_'), 'what': x['fail'], 'input': x['input'], 'count': x['count'],
                                       'replay': f'{exe} {ck} {check.seed} {check.tier}'})
    return f


def us_suite(ck, bound, n=None):
    """suite of native/us_h in both exponent configurations"""
    def f(check, reasons):
        for cfg, feats in (('integer', []), ('rational', ['rational-dimensions'])):
            exe = build('us_h', feats)
            cases, fails = run(exe, [ck, check.seed, check.tier])
            check.bounded.append({'name': f'native run of the macro implementation on generated unit systems ({cfg} exponents)', 'bound': bound, 'cases': cases,
                                  'failures': len(fails), 'label': 'bounded: not counted as proved'})
            for x in fails:
                check.failures.append({'key': x['fail'].replace(' ', '_'), 'what': x['fail'], 'input': x['input'], 'count': x['count'],
                                       'replay': f'{exe} {ck} {check.seed} {check.tier}'})
    return f


def gen(args):
    """generated inputs for the harnesses that go through the real proc macro (independent of the tree under test)"""
    src = os.path.join(VERIF, 'native', 'gen_h', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(VERIF, 'native', 'us_h', 'src', 'model.rs'), 'rb').read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'gen-' + h)
    if not os.path.exists(exe):
        tmp = f'{exe}.{os.getpid()}'
        p = extract.run(['rustc', '--edition', '2021', '-O', src, '-o', tmp], BUILD)
        if p.returncode:
            raise RuntimeError('gen_h: ' + p.stderr[-2000:])
        os.rename(tmp, exe)
    return subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=300, check=True).stdout


def sys_suite(ck, bound):
    """generated unit systems through the real proc macro, compiled and run"""
    def f(check, reasons):
        for cfg in ('integer', 'rational'):
            n = 16 if check.tier == 'thorough' else 6
            dst = crate('sys_h')
            src = gen(['sys', check.seed, cfg, n])
            m = os.path.join(dst, 'src', 'main.rs')
            if open(m).read() != src:
                open(m, 'w').write(src)
            feats = ['rational'] if cfg == 'rational' else []
            exe = None
            for fs in (feats + ['direct'], feats):
                try:
                    exe = build('sys_h', fs)
                    break
                except RuntimeError as e:
                    why = e
                    if not getattr(e, 'own', None):
                        raise
            if exe is None:
                # only errors in the macro's output or at uses of its items are failing inputs
                ls = src.split('\n')
                inside, c = set(), False
                for i, l in enumerate(ls):
                    c = c or '::unit_system!(' in l
                    if c or 'units::' in l or 'constants::' in l or 'dimensions::' in l:
                        inside.add(i + 1)
                    c = c and l != ');'
                if not any(int(x) in inside for x in re.findall(r'--> src/main\.rs:(\d+)', str(why.own))):
                    check.notes.append('sys_h not buildable: ' + str(why.own)[:300])
                    continue
                check.failures.append({'key': 'generated-system-does-not-compile', 'what': 'a consistent unit system (or plain uses of its items) does not compile', 'input': why.own, 'count': 1,
                                       'replay': 'cargo build in native/sys_h'})
                continue
            cases, fails = run(exe, [ck, check.seed, check.tier])
            check.bounded.append({'name': f'generated unit systems through the real macro ({cfg} exponents)', 'bound': f'{n} unit systems; ' + bound, 'cases': cases,
                                  'failures': len(fails), 'label': 'bounded: not counted as proved'})
            for x in fails:
                check.failures.append({'key': x['fail'].replace(' ', '_'), 'what': x['fail'], 'input': x['input'], 'count': x['count'],
                                       'replay': f'{exe} {ck} {check.seed} {check.tier}'})
    return f
