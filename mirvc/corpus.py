"""Compile corpus for C06, C08, C09, C10: user programs, one per line, each of which must be accepted
or rejected by the type checker.  Decided by one `cargo check` over the whole corpus against the tree
under test; the set of snippets with a diagnostic must equal the expected set.  Bounded (a stated finite
list of programs); it accompanies the obligations over the impl headers and is never counted as proved."""
import json, os, re
import extract, native

FL = ('f64', 'f32')
VE = ('DVec2', 'DVec3', 'Vec2', 'Vec3')
FT = {'DVec2': 'f64', 'DVec3': 'f64', 'Vec2': 'f32', 'Vec3': 'f32'}
HEAD = '''#![allow(incomplete_features, unused, unused_mut)]
#![feature(generic_const_exprs, adt_const_params)]
use diman::si::dimensions::*; use diman::si::units::*; use glam::*;
use core::cmp::Ordering; use core::ops::*;
'''


def c06():
    out = []

    def s(ok, code):
        out.append((ok, code))
    # dimensions with a name, and their base exponents (length, time) for the expected result
    for t in FL + VE:
        for op in '+-':
            for ra in ('', '&'):
                for rb in ('', '&'):
                    s(True, f'fn F(a: Length<{t}>, b: Length<{t}>) {{ let _: Length<{t}> = {ra}a {op} {rb}b; }}')
                    s(False, f'fn F(a: Length<{t}>, b: Time<{t}>) {{ let _ = {ra}a {op} {rb}b; }}')
                    s(False, f'fn F(a: Length<{t}>, b: Length<{t}>) {{ let _: Area<{t}> = {ra}a {op} {rb}b; }}')
                    s(True, f'fn F(a: Dimensionless<{t}>, b: {t}) {{ let _: Dimensionless<{t}> = {ra}a {op} {rb}b; }}')
                    s(True, f'fn F(a: Dimensionless<{t}>, b: {t}) {{ let _: Dimensionless<{t}> = {rb}b {op} {ra}a; }}')
                    s(False, f'fn F(a: Length<{t}>, b: {t}) {{ let _ = {ra}a {op} {rb}b; }}')
                    s(False, f'fn F(a: Length<{t}>, b: {t}) {{ let _ = {rb}b {op} {ra}a; }}')
                    s(False, f'fn F(a: Dimensionless<{t}>, b: Time<{t}>) {{ let _ = {ra}a {op} {rb}b; }}')
            for rb in ('', '&'):
                for ra in ('a', '*(&mut a)'):
                    s(True, f'fn F(mut a: Length<{t}>, b: Length<{t}>) {{ {ra} {op}= {rb}b; }}')
                    s(False, f'fn F(mut a: Length<{t}>, b: Time<{t}>) {{ {ra} {op}= {rb}b; }}')
                    s(True, f'fn F(mut a: Dimensionless<{t}>, b: {t}) {{ {ra} {op}= {rb}b; }}')
                    s(False, f'fn F(mut a: Length<{t}>, b: {t}) {{ {ra} {op}= {rb}b; }}')
                s(True, f'fn F(mut a: {t}, b: Dimensionless<{t}>) {{ a {op}= {rb}b; }}')
                s(False, f'fn F(mut a: {t}, b: Length<{t}>) {{ a {op}= {rb}b; }}')
                s(True, f'fn F(mut a: Length<{t}>, b: Length<{t}>) {{ let mut r = &mut a; r {op}= {rb}b; }}')
                s(False, f'fn F(mut a: Length<{t}>, b: Time<{t}>) {{ let mut r = &mut a; r {op}= {rb}b; }}')
                s(False, f'fn F(mut a: Length<{t}>, b: {t}) {{ let mut r = &mut a; r {op}= {rb}b; }}')
        for op in '*/':
            for rb in ('', '&'):
                s(True, f'fn F(mut a: Length<{t}>, b: Dimensionless<{t}>) {{ a {op}= {rb}b; }}')
                s(False, f'fn F(mut a: Length<{t}>, b: Length<{t}>) {{ a {op}= {rb}b; }}')
                s(False, f'fn F(mut a: Length<{t}>, b: Length<{t}>) {{ let mut r = &mut a; r {op}= {rb}b; }}')
                s(True, f'fn F(mut a: Length<{t}>, b: {t}) {{ a {op}= {rb}b; }}')
                s(True, f'fn F(mut a: {t}, b: Dimensionless<{t}>) {{ a {op}= {rb}b; }}')
                s(False, f'fn F(mut a: {t}, b: Length<{t}>) {{ a {op}= {rb}b; }}')
        s(True, f'fn F(a: Length<{t}>) {{ let _: Length<{t}> = -a; }}')
        s(False, f'fn F(a: Length<{t}>) {{ let _: Wavenumber<{t}> = -a; }}')
        s(True, f'fn F(a: Vec<Length<{t}>>) {{ let _: Length<{t}> = a.into_iter().sum(); }}')
        s(False, f'fn F(a: Vec<Length<{t}>>) {{ let _: Time<{t}> = a.into_iter().sum(); }}')
        s(False, f'fn F(a: Vec<Length<{t}>>) {{ let _: Dimensionless<{t}> = a.into_iter().sum(); }}')
        s(True, f'fn F(a: {t}) {{ let _: Dimensionless<{t}> = a.into(); }}')
        s(False, f'fn F(a: {t}) {{ let _: Length<{t}> = a.into(); }}')
        s(True, f'fn F(a: Dimensionless<{t}>) -> {t} {{ a.value() }}')
        s(False, f'fn F(a: Length<{t}>) -> {t} {{ a.value() }}')
        s(False, f'fn F(a: Length<{t}>) -> &\'static {t} {{ a.value_ref() }}')
        s(False, f'fn F(a: Length<{t}>) -> {t} {{ *a }}')
        s(False, f'fn F(a: Length<{t}>) -> {t} {{ a.into() }}')
    for t in FL:
        for op in ('<', '>', '<=', '>=', '==', '!='):
            for ra, rb in (('', ''), ('', '&'), ('&', ''), ('&', '&')):
                s(True, f'fn F(a: Length<{t}>, b: Length<{t}>) -> bool {{ ({ra}a) {op} ({rb}b) }}')
                s(False, f'fn F(a: Length<{t}>, b: Time<{t}>) -> bool {{ ({ra}a) {op} ({rb}b) }}')
            s(True, f'fn F(a: Dimensionless<{t}>, b: {t}) -> bool {{ a {op} b }}')
            s(True, f'fn F(a: Dimensionless<{t}>, b: {t}) -> bool {{ b {op} a }}')
            s(False, f'fn F(a: Length<{t}>, b: {t}) -> bool {{ a {op} b }}')
            s(False, f'fn F(a: Length<{t}>, b: {t}) -> bool {{ b {op} a }}')
        s(False, f'fn F(a: Length<{t}>, b: Dimensionless<{t}>) {{ let _ = a.partial_cmp(&b); }}')
        s(True, f'fn F(a: Length<{t}>, b: Length<{t}>) {{ let _: Option<Ordering> = a.partial_cmp(&b); }}')
    for t in VE:
        s(True, f'fn F(a: Length<{t}>, b: Length<{t}>) -> bool {{ a == b }}')
        s(False, f'fn F(a: Length<{t}>, b: Time<{t}>) -> bool {{ a == b }}')
        s(False, f'fn F(a: Length<{t}>, b: {t}) -> bool {{ a == b }}')
        for op in '*/':
            s(True, f'fn F(mut a: Length<{t}>, b: Dimensionless<{FT[t]}>) {{ a {op}= b; }}')
            s(False, f'fn F(mut a: Length<{t}>, b: Length<{FT[t]}>) {{ a {op}= b; }}')
    pairs = [(t, t, t) for t in FL + VE] + [(v, FT[v], v) for v in VE] + [(FT[v], v, v) for v in VE]
    muls = [('Length', '*', 'Length', 'Area'), ('Velocity', '*', 'Time', 'Length'), ('Force', '*', 'Length', 'Energy'), ('Length', '*', 'Dimensionless', 'Length'),
            ('Length', '*', 'Wavenumber', 'Dimensionless'), ('Current', '*', 'Time', 'ElectricCharge'), ('Length', '/', 'Time', 'Velocity'), ('Length', '/', 'Length', 'Dimensionless'),
            ('Dimensionless', '/', 'Time', 'Frequency'), ('Mass', '/', 'AmountOfSubstance', 'MolarMass'), ('Energy', '/', 'Temperature', 'HeatCapacity'), ('LuminousFlux', '/', 'Area', 'Illuminance')]
    wrong = {'Area': 'Length', 'Length': 'Time', 'Energy': 'Force', 'Dimensionless': 'Length', 'Velocity': 'KinematicViscosity', 'Frequency': 'Time',
             'ElectricCharge': 'Current', 'MolarMass': 'Mass', 'HeatCapacity': 'Energy', 'Illuminance': 'LuminousFlux'}
    for ta, tb, tr in pairs:
        for a, op, b, r in muls:
            if op == '/' and ta in FL and tb in VE:
                continue
            for ra in ('', '&'):
                for rb in ('', '&'):
                    if a == 'Length' or not (ra or rb):
                        s(True, f'fn F(a: {a}<{ta}>, b: {b}<{tb}>) {{ let _: {r}<{tr}> = {ra}a {op} {rb}b; }}')
                        s(False, f'fn F(a: {a}<{ta}>, b: {b}<{tb}>) {{ let _: {wrong[r]}<{tr}> = {ra}a {op} {rb}b; }}')
        for ra in ('', '&'):
            for rb in ('', '&'):
                s(True, f'fn F(a: Length<{ta}>, b: {tb}) {{ let _: Length<{tr}> = {ra}a * {rb}b; }}')
                s(False, f'fn F(a: Length<{ta}>, b: {tb}) {{ let _: Dimensionless<{tr}> = {ra}a * {rb}b; }}')
                s(True, f'fn F(a: {ta}, b: Length<{tb}>) {{ let _: Length<{tr}> = {ra}a * {rb}b; }}')
                s(False, f'fn F(a: {ta}, b: Length<{tb}>) {{ let _: Wavenumber<{tr}> = {ra}a * {rb}b; }}')
                if not (ta in FL and tb in VE):
                    s(True, f'fn F(a: Length<{ta}>, b: {tb}) {{ let _: Length<{tr}> = {ra}a / {rb}b; }}')
                    s(False, f'fn F(a: Length<{ta}>, b: {tb}) {{ let _: Wavenumber<{tr}> = {ra}a / {rb}b; }}')
                    s(True, f'fn F(a: {ta}, b: Length<{tb}>) {{ let _: Wavenumber<{tr}> = {ra}a / {rb}b; }}')
                    s(False, f'fn F(a: {ta}, b: Length<{tb}>) {{ let _: Length<{tr}> = {ra}a / {rb}b; }}')
    return out


def c08():
    out = []

    def s(ok, code):
        out.append((ok, code))

    def both(sig, expr, t, right, *wrongs):
        s(True, f'fn F({sig}) {{ let _: {right}<{t}> = {expr}; }}')
        for w in wrongs:
            s(False, f'fn F({sig}) {{ let _: {w}<{t}> = {expr}; }}')
    units = [('meters', 'Length', 'Wavenumber', 'Area', 'Length / Time'), ('seconds', 'Time', 'Frequency', None, None)]
    for t in FL + VE:
        both(f'x: {t}', 'x * meters', t, 'Length', 'Wavenumber', 'Dimensionless', 'Area')
        both(f'x: {t}', 'x / meters', t, 'Wavenumber', 'Length', 'Dimensionless')
        both(f'x: {t}', 'meters * x', t, 'Length', 'Wavenumber', 'Dimensionless')
        both(f'x: {t}', 'x * (meters * meters)', t, 'Area', 'Length', 'Dimensionless')
        both(f'x: {t}', 'x * (meters / seconds)', t, 'Velocity', 'Wavenumber', 'KinematicViscosity', 'Length')
        both(f'x: {t}', '(meters / seconds) * x', t, 'Velocity', 'Wavenumber', 'Length')
        both(f'x: {t}', 'x / seconds', t, 'Frequency', 'Time')
        both(f'x: {t}', 'x / (meters / meters)', t, 'Dimensionless', 'Length')
        if t in VE:     # the quantity forms exist for floats only
            continue
        both(f'x: {t}', 'x / (seconds * seconds) * meters', t, 'Acceleration', 'Jerk', 'Length')
        both(f'q: Length<{t}>', 'q * meters', t, 'Area', 'Length', 'Dimensionless')
        both(f'q: Length<{t}>', 'q / meters', t, 'Dimensionless', 'Area', 'Length')
        both(f'q: Length<{t}>', 'meters * q', t, 'Area', 'Length', 'Dimensionless')
        both(f'q: Length<{t}>', 'q / seconds', t, 'Velocity', 'Length')
        both(f'q: Velocity<{t}>', 'q / (meters / seconds)', t, 'Dimensionless', 'Velocity')
        both(f'q: Velocity<{t}>', 'q * (seconds / meters)', t, 'Dimensionless', 'Velocity')
        both(f'q: Time<{t}>', '(meters / seconds) * q', t, 'Length', 'Time', 'Acceleration')
        both(f'q: Length<{t}>', 'q / (meters / seconds)', t, 'Time', 'Frequency', 'KinematicViscosity', 'Length')
        both(f'q: Length<{t}>', 'q * (meters / seconds)', t, 'KinematicViscosity', 'Velocity', 'Time')
        both(f'q: Length<{t}>', '(meters / seconds) * q', t, 'KinematicViscosity', 'Velocity', 'Frequency')
        both(f'q: Length<{t}>', 'q * seconds / seconds', t, 'Length', 'Time')
        both(f'q: Volume<{t}>', 'q / (meters * meters)', t, 'Length', 'Wavenumber', 'Area')
        both(f'q: Volume<{t}>', 'q / meters', t, 'Area', 'Length', 'Volume')
    for t in FL:
        both(f'x: {t}', 'meters / x', t, 'Length', 'Wavenumber', 'Dimensionless')
        both(f'x: {t}', '(meters / seconds) / x', t, 'Velocity', 'Frequency', 'Length')
        both(f'q: Length<{t}>', 'meters / q', t, 'Dimensionless', 'Area', 'Length')
        both(f'q: Time<{t}>', 'meters / q', t, 'Velocity', 'Length', 'KinematicViscosity')
        both(f'q: Length<{t}>', '(meters * meters) / q', t, 'Length', 'Volume', 'Wavenumber')
        both(f'x: {t}', 'meters.new(x)', t, 'Length', 'Wavenumber', 'Dimensionless')
        both(f'x: {t}', '(meters / seconds).new(x)', t, 'Velocity', 'Length')
    for t in FL:
        s(True, f'fn F(q: Length<{t}>) -> {t} {{ q.value_in(meters) }}')
        s(True, f'fn F(q: Length<{t}>) -> {t} {{ q.value_in(kilometers) }}')
        s(True, f'fn F(q: Velocity<{t}>) -> {t} {{ q.value_in(meters / seconds) }}')
        s(True, f'fn F(q: Area<{t}>) -> {t} {{ q.value_in(meters * meters) }}')
        s(True, f'fn F(q: Energy<{t}>) -> {t} {{ q.value_in(joules) }}')
        for d, u in (('Length', 'seconds'), ('Length', 'meters * meters'), ('Velocity', 'meters'), ('Velocity', 'seconds / meters'), ('Energy', 'newtons'), ('Time', 'hertz'),
                     ('Area', 'meters'), ('Dimensionless', 'meters'), ('Length', '2.0'), ('Mass', 'kelvins'), ('Frequency', 'seconds')):
            s(False, f'fn F(q: {d}<{t}>) -> {t} {{ q.value_in({u}) }}')
    return out


DLESS = 'log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p'.split()


def c09():
    out = []

    def s(ok, code):
        out.append((ok, code))

    def both(sig, expr, right, *wrongs):
        s(True, f'fn F({sig}) {{ let _: {right} = {expr}; }}')
        for w in wrongs:
            s(False, f'fn F({sig}) {{ let _: {w} = {expr}; }}')
    for t in FL:
        for n in DLESS:
            s(True, f'fn F(q: Dimensionless<{t}>) {{ let _: Dimensionless<{t}> = q.{n}(); }}')
            for d in ('Length', 'Frequency', 'LuminousIntensity'):
                s(False, f'fn F(q: {d}<{t}>) {{ let _ = q.{n}(); }}')
        for n, r, w in (('squared()', 'Area', 'Volume'), ('cubed()', 'Volume', 'Area'), ('powi::<2>()', 'Area', 'Length'), ('powi::<3>()', 'Volume', 'Area'),
                        ('powi::<{-1}>()', 'Wavenumber', 'Length'), ('powi::<0>()', 'Dimensionless', 'Length'), ('powi::<1>()', 'Length', 'Area'), ('abs()', 'Length', 'Dimensionless')):
            both(f'q: Length<{t}>', 'q.' + n, f'{r}<{t}>', f'{w}<{t}>')
        both(f'q: Area<{t}>', 'q.sqrt()', f'Length<{t}>', f'Area<{t}>', f'Dimensionless<{t}>')
        both(f'q: SpecificEnergy<{t}>', 'q.sqrt()', f'Velocity<{t}>', f'Length<{t}>')
        both(f'q: Volume<{t}>', 'q.cbrt()', f'Length<{t}>', f'Area<{t}>', f'Dimensionless<{t}>')
        for n in ('min', 'max'):
            both(f'q: Length<{t}>, r: Length<{t}>', f'q.{n}(r)', f'Length<{t}>', f'Dimensionless<{t}>')
            s(False, f'fn F(q: Length<{t}>, r: Time<{t}>) {{ let _ = q.{n}(r); }}')
            s(False, f'fn F(q: Length<{t}>, r: {t}) {{ let _ = q.{n}(r); }}')
            s(True, f'fn F(q: Dimensionless<{t}>, r: {t}) {{ let _: Dimensionless<{t}> = q.{n}(r); }}')
        both(f'q: Length<{t}>, r: Length<{t}>', 'q.clamp(r, r)', f'Length<{t}>', f'Dimensionless<{t}>')
        s(False, f'fn F(q: Length<{t}>, r: Time<{t}>) {{ let _ = q.clamp(r, r); }}')
        s(False, f'fn F(q: Length<{t}>, r: Time<{t}>) {{ let _ = q.clamp(q, r); }}')
        s(False, f'fn F(q: Length<{t}>, r: {t}) {{ let _ = q.clamp(r, r); }}')
        for n in ('is_positive', 'is_positive_or_zero', 'is_negative', 'is_negative_or_zero', 'is_nan'):
            both(f'q: Length<{t}>', f'q.{n}()', 'bool', f'Length<{t}>')
        s(True, f'fn F() {{ let _: Length<{t}> = Length::<{t}>::zero(); }}')
        s(False, f'fn F() {{ let _: Time<{t}> = Length::<{t}>::zero(); }}')
        # powf is the storage's own, for dimensionless quantities only
        s(False, f'fn F(q: Length<{t}>) {{ let _ = q.powf(0.5); }}')
        s(False, f'fn F(q: Length<{t}>) {{ let _ = q.atan2(q); }}')
    return out


def c09_cfg(cfg):
    """root of an odd power: a fractional exponent where these exist, rejected otherwise"""
    out = []
    for t in FL:
        if cfg == 'rational':
            out.append((True, f'fn F(q: Length<{t}>) {{ let _: Length<{t}> = q.sqrt().squared(); }}'))
            out.append((True, f'fn F(q: Length<{t}>) {{ let _: Length<{t}> = q.cbrt().cubed(); }}'))
            out.append((False, f'fn F(q: Length<{t}>) {{ let _: Length<{t}> = q.sqrt(); }}'))
            out.append((False, f'fn F(q: Length<{t}>) {{ let _: Dimensionless<{t}> = q.cbrt(); }}'))
    return out


def c10():
    out = []

    def s(ok, code):
        out.append((ok, code))

    def both(sig, expr, right, *wrongs):
        s(True, f'fn F({sig}) {{ let _: {right} = {expr}; }}')
        for w in wrongs:
            s(False, f'fn F({sig}) {{ let _: {w} = {expr}; }}')
    for v in VE:
        f, n = FT[v], int(v[-1])
        q = f'q: Length<{v}>'
        args = ', '.join(['r'] * n)
        both(f'r: Length<{f}>', f'Length::<{v}>::new({args})', f'Length<{v}>', f'Time<{v}>')
        s(False, f'fn F(r: Time<{f}>) {{ let _ = Length::<{v}>::new({args}); }}')
        s(False, f'fn F(r: {f}) {{ let _ = Length::<{v}>::new({args}); }}')
        for c in 'xyz'[:n]:
            both(q, f'q.{c}()', f'Length<{f}>', f'Dimensionless<{f}>', f'Area<{f}>')
            both(f'r: Length<{f}>', f'Length::<{v}>::new_{c}(r)', f'Length<{v}>', f'Area<{v}>')
            s(False, f'fn F(r: Time<{f}>) {{ let _ = Length::<{v}>::new_{c}(r); }}')
            s(True, f'fn F(mut q: Length<{v}>, r: Length<{f}>) {{ q.set_{c}(r); }}')
            s(False, f'fn F(mut q: Length<{v}>, r: Time<{f}>) {{ q.set_{c}(r); }}')
            s(False, f'fn F(mut q: Length<{v}>, r: {f}) {{ q.set_{c}(r); }}')
        both(q, 'q.length()', f'Length<{f}>', f'Area<{f}>', f'Dimensionless<{f}>')
        both(q, 'q.distance(&q)', f'Length<{f}>', f'Area<{f}>')
        both(q, 'q.distance_squared(&q)', f'Area<{f}>', f'Length<{f}>')
        both(q, 'q.normalize()', f'Dimensionless<{v}>', f'Length<{v}>')
        both(q, 'q.dot(q)', f'Area<{f}>', f'Length<{f}>', f'Dimensionless<{f}>')
        both(f'q: Force<{v}>, r: Length<{v}>', 'q.dot(r)', f'Energy<{f}>', f'Force<{f}>')
        both(f'q: Length<{v}>, r: Wavenumber<{v}>', 'q.dot(r)', f'Dimensionless<{f}>', f'Area<{f}>')
        for m in ('min', 'max'):
            both(q, f'q.{m}(q)', f'Length<{v}>', f'Dimensionless<{v}>')
            s(False, f'fn F(q: Length<{v}>, r: Time<{v}>) {{ let _ = q.{m}(r); }}')
        for m in ('distance', 'distance_squared'):
            s(False, f'fn F(q: Length<{v}>, r: Time<{v}>) {{ let _ = q.{m}(&r); }}')
        s(True, f'fn F() {{ let _: Length<{v}> = Length::<{v}>::zero(); }}')
        s(False, f'fn F() {{ let _: Time<{v}> = Length::<{v}>::zero(); }}')
        if n == 2:
            s(False, f'fn F(q: Length<{v}>) {{ let _ = q.z(); }}')
    return out


CORPUS = {'C06': c06, 'C08': c08, 'C09': c09, 'C10': c10}


def write(pid, cfg, d):
    sn = CORPUS[pid]() + (c09_cfg(cfg) if pid == 'C09' else [])
    head = HEAD.rstrip('\n').split('\n')
    lines = head + [c.replace('fn F(', f'pub fn s{i}(') for i, (_, c) in enumerate(sn)]
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write('\n'.join(lines) + '\n')
    return sn, len(head)


def run(pid, cfg):
    """-> (number of snippets, [failure])"""
    d = native.crate('corpus_h')
    sn, off = write(pid, cfg, d)
    args = ['cargo', 'check', '--offline', '--message-format=json'] + (['--features', 'rational'] if cfg == 'rational' else [])
    p = extract.run(args, d, timeout=700)
    bad, other, seen = {}, [], False
    for l in p.stdout.split('\n'):
        if not l.startswith('{'):
            continue
        j = json.loads(l)
        if j.get('reason') == 'build-finished':
            seen = True
        if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error':
            continue
        m = j['message']
        if j['target']['name'] != 'corpus_h':
            raise RuntimeError('dependency does not build: ' + m['rendered'][:1500])
        ls = set()

        def spans(mm):
            for sp in mm['spans']:
                while sp:
                    if sp['file_name'].endswith('src/lib.rs') and not sp['file_name'].startswith('/'):
                        ls.add(sp['line_start'])
                    sp = (sp.get('expansion') or {}).get('span')
            for c in mm.get('children', []):
                spans(c)
        spans(m)
        ls = {x - off - 1 for x in ls if 0 <= x - off - 1 < len(sn)}
        if not ls and not m['message'].startswith('aborting'):
            other.append(m['rendered'][:600])
        for x in ls:
            bad.setdefault(x, m['message'][:200])
    if not seen:
        raise RuntimeError('cargo check did not finish: ' + p.stderr[-1500:])
    fails = []
    if other and not bad:
        raise RuntimeError('unattributed error: ' + other[0])
    for i, (ok, c) in enumerate(sn):
        if ok and i in bad:
            fails.append({'fail': 'a dimensionally correct program is rejected', 'input': c.replace('fn F(', 'fn f(') + '   // ' + bad[i]})
        if not ok and i not in bad:
            fails.append({'fail': 'a dimensionally wrong program is accepted', 'input': c.replace('fn F(', 'fn f(')})
    return len(sn), fails


FAULTS = {'C12': [16], 'C13': [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22, 23, 24], 'C14': [3, 13, 14, 15]}


def faults(pid, cfg, n, seed):
    """unit systems through the real macro: every faulty one must produce a compile error, every consistent
    one must compile"""
    d = native.crate('sys_h')
    c = os.path.join(os.path.dirname(d), 'fault_h')
    os.makedirs(os.path.join(c, 'src'), exist_ok=True)
    open(os.path.join(c, 'Cargo.toml'), 'w').write(open(os.path.join(d, 'Cargo.toml')).read().replace('sys_h', 'fault_h'))
    open(os.path.join(c, 'Cargo.lock'), 'w').write(open(os.path.join(d, 'Cargo.lock')).read())
    rows = [l.split('\t', 1) for l in native.gen(['corpus', seed, cfg, n, ','.join(map(str, FAULTS[pid]))]).split('\n') if l]
    head = '#![allow(warnings)]\n#![feature(generic_const_exprs, adt_const_params)]\n'
    open(os.path.join(c, 'src', 'lib.rs'), 'w').write(head + ''.join(f'pub mod s{i} {{ ::diman::unit_system!({t}); }}\n' for i, (_, t) in enumerate(rows)))
    p = extract.run(['cargo', 'check', '--offline', '--message-format=json'] + (['--features', 'rational'] if cfg == 'rational' else []), c, timeout=700)
    seen, bad, other = False, {}, []
    for l in p.stdout.split('\n'):
        if not l.startswith('{'):
            continue
        j = json.loads(l)
        seen = seen or j.get('reason') == 'build-finished'
        if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error':
            continue
        m = j['message']
        if j['target']['name'] != 'fault_h':
            raise RuntimeError('dependency does not build: ' + m['rendered'][:1500])
        ls = set()
        for sp in m['spans'] + [x for ch in m.get('children', []) for x in ch['spans']]:
            while sp:
                if sp['file_name'].endswith('src/lib.rs') and not sp['file_name'].startswith('/'):
                    ls.add(sp['line_start'] - 3)
                sp = (sp.get('expansion') or {}).get('span')
        if not ls and not m['message'].startswith(('aborting', 'Some errors')):
            other.append(m['rendered'][:600])
        for x in ls:
            bad.setdefault(x, m['message'][:300])
    if not seen:
        raise RuntimeError('cargo check did not finish: ' + p.stderr[-1500:])
    if other and not bad:
        raise RuntimeError('unattributed error: ' + other[0])
    out = []
    for i, (what, t) in enumerate(rows):
        if what and i not in bad:
            out.append({'fail': f'accepted by the real macro: {what}', 'input': t})
        if not what and i in bad:
            out.append({'fail': 'consistent unit system rejected by the real macro', 'input': bad[i] + ': ' + t})
    return len(rows), out


def fault_suite(pid):
    def f(check, reasons):
        for cfg in ('integer', 'rational'):
            n, fails = faults(pid, cfg, 40 if check.tier == 'thorough' else (5 if pid == 'C13' else 10), check.seed)
            record(check, f'unit systems with and without faults through the real macro ({cfg} exponents)', n, fails, f'python3-vt mirvc/corpus.py faults {pid} {cfg}')
    return f


ROOTS = [('Length', 'sqrt'), ('Area', 'cbrt'), ('Wavenumber', 'sqrt'), ('Volume', 'sqrt'), ('SpecificEnergy', 'cbrt'), ('Length', 'cbrt'), ('Frequency', 'cbrt'),
         ('Current', 'sqrt'), ('LuminousIntensity', 'sqrt'), ('AmountOfSubstance', 'cbrt'), ('MassDensity', 'sqrt'), ('Acceleration', 'cbrt')]


def roots():
    """with integer exponents, a root of a non-divisible exponent is rejected when the program is built
    (the dimension is computed at monomorphisation, past the type checker)"""
    d = native.crate('corpus_h')
    want = [(dm, m, t) for dm, m in ROOTS for t in FL]
    src = HEAD + '\n'.join(f'pub fn s{i}(q: {dm}<{t}>) {{ let _ = q.{m}(); }}' for i, (dm, m, t) in enumerate(want)) + '\n'
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write(src)
    p = extract.run(['cargo', 'build', '--offline'], d, timeout=700)
    if p.returncode and 'could not compile `corpus_h`' not in p.stderr:
        raise RuntimeError('corpus build: ' + p.stderr[-1500:])
    if p.returncode and not re.search(r'error\[E0080\]', p.stderr):
        raise RuntimeError('corpus build: ' + p.stderr[-1500:])
    got = set(re.findall(r'evaluation of `Quantity::<(f32|f64), [^`]*?(\w+)::\{constant#0\}>::(sqrt|cbrt)', p.stderr))
    fails = [{'fail': 'the root of a non-divisible exponent is accepted', 'input': f'fn f(q: {dm}<{t}>) {{ let _ = q.{m}(); }}'} for dm, m, t in want if (t, dm, m) not in got]
    if p.returncode and len(fails) and not got:
        raise RuntimeError('corpus build: errors not attributed: ' + p.stderr[-1500:])
    return len(want), fails


def record(check, name, n, fails, replay):
    check.bounded.append({'name': name, 'bound': f'{n} listed programs that must be accepted or rejected', 'cases': n,
                          'failures': len(fails), 'label': 'bounded: not counted as proved'})
    for x in fails[:20]:
        check.failures.append({'key': x['fail'].replace(' ', '_'), 'what': x['fail'], 'input': x['input'], 'count': len(fails), 'replay': replay})


def roots_suite(check, reasons):
    n, fails = roots()
    record(check, 'roots rejected at build time (integer exponents)', n, fails, 'python3-vt mirvc/corpus.py roots')


def suite(pid):
    def f(check, reasons):
        for cfg in (('rational', 'integer') if check.tier == 'thorough' else ('rational',)):
            n, fails = run(pid, cfg)
            record(check, f'compile corpus against the real crate ({cfg} exponents)', n, fails, f'python3-vt mirvc/corpus.py {pid} {cfg}')
        if pid == 'C09':
            roots_suite(check, reasons)
    return f


if __name__ == '__main__':
    import sys, time
    if sys.argv[1] == 'faults':
        t = time.time()
        n, fs = faults(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4, 1)
        print(n, len(fs), time.time() - t)
        for x in fs:
            print('  ', x['fail'], x['input'])
        sys.exit()
    if sys.argv[1] == 'roots':
        print(roots())
        sys.exit()
    for cfg in sys.argv[2:] or ['rational', 'integer']:
        t = time.time()
        n, fs = run(sys.argv[1], cfg)
        print(sys.argv[1], cfg, n, len(fs), time.time() - t)
        for x in fs[:60]:
            print('  ', x['fail'], x['input'][:300])
