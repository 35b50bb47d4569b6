"""C16: every item the macro generates for the bundled SI system, as it stands in the expanded source of
the tree under test, against the independent table si_table.  Each generated constant / type alias is an
obligation: its dimension equals the tabulated one in every base dimension and its magnitude (exactly
mantissa * 2^exponent * sign by the C01 contract) lies within 1e-14 relative of the tabulated exact value."""
import re
from fractions import Fraction as Fr
import z3
import extract
import si_table as T
from mir import Unsupported
import props_gen
from mir import lex

TOL = Fr(1, 10 ** 14)


def block(src, start):
    i = src.index('{', start)
    d = 0
    for j in range(i, len(src)):
        if src[j] == '{':
            d += 1
        elif src[j] == '}':
            d -= 1
            if d == 0:
                return src[i + 1:j]
    raise Unsupported('unbalanced braces')


def module(src, name):
    ms = list(re.finditer(r'\bpub mod ' + name + r'\s*\{', src))
    if len(ms) != 1:
        raise Unsupported(f'module {name} of the expanded source')
    return block(src, ms[0].start())


NUM = r'-?[\d_]+(?:\.[\d_]*)?(?:[eE][-+]?\d+)?(?:_?[iuf](?:8|16|32|64|128|size))?'


def num(s):
    s = re.sub(r'_?[iuf](?:8|16|32|64|128|size)$', '', s.strip()).replace('_', '')
    return Fr(s)


def debrace(s):
    s = re.sub(r'\s+', '', s)
    while s.startswith('{') and s.endswith('}'):
        s = s[1:-1]
    return s


def dim_expr(s):
    """Dimension { f: e, .. , ..Dimension::none() } -> {f: Fraction}"""
    s = debrace(s)
    m = re.fullmatch(r'(?:\w+::)*Dimension\{(.*)\}', s)
    if not m:
        if re.fullmatch(r'(?:\w+::)*Dimension::none\(\)', s):
            return {}
        raise Unsupported('dimension expression ' + s[:80])
    out = {}
    rest = m.group(1)
    for part in re.split(r',(?![^()]*\))', rest):
        if not part or re.fullmatch(r'\.\.(?:\w+::)*Dimension::none\(\)', part):
            continue
        k = re.fullmatch(r'(\w+):(.*)', part)
        if not k:
            raise Unsupported('dimension field ' + part)
        v = k.group(2)
        a = re.fullmatch(rf'(?:\w+::)*(?:Exponent|Ratio)::new\(({NUM}),({NUM})\)', v)
        b = re.fullmatch(rf'(?:\w+::)*(?:Exponent|Ratio)::int\(({NUM})\)', v)
        if a:
            e = num(a.group(1)) / num(a.group(2))
        elif b:
            e = num(b.group(1))
        elif re.fullmatch(NUM, v):
            e = num(v)
        else:
            raise Unsupported('exponent ' + v)
        if k.group(1) in out:
            raise Unsupported('field given twice')
        out[k.group(1)] = e
    return out


def mag_expr(s):
    s = debrace(s)
    m = re.fullmatch(r'(?:\w+::)*Magnitude\{(.*?),?\}', s)
    if m:
        f = {}
        for p in m.group(1).split(','):
            k, v = p.split(':')
            f[k] = int(num(v))
        if set(f) != {'mantissa', 'exponent', 'sign'}:
            raise Unsupported('magnitude fields ' + s)
        return Fr(f['mantissa']) * Fr(2) ** f['exponent'] * f['sign']
    m = re.fullmatch(rf'(?:\w+::)*Magnitude::from_f64\(({NUM})\)', s)
    if m:
        return Fr(float(num(m.group(1))))
    raise Unsupported('magnitude expression ' + s[:80])


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '{([<':
            d += 1
        elif c in '})]>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def consts(mod):
    """pub const NAME: Unit<{dim}, {mag}> = Unit;  -> {name: (dimtext, magtext)}"""
    out = {}
    for m in re.finditer(r'\bpub const\s+(\w+)\s*:\s*(?:\w+::)*Unit\s*<', mod):
        i = m.end()
        d = 1
        j = i
        while d:
            if mod[j] in '<{(':
                d += 1
            elif mod[j] in '>})':
                d -= 1
            j += 1
        a = split_args(mod[i:j - 1])
        if len(a) != 2:
            raise Unsupported('unit constant ' + m.group(1))
        if m.group(1) in out:
            raise Unsupported('constant defined twice')
        out[m.group(1)] = a
    return out


def aliases(mod):
    out = {}
    for m in re.finditer(r'\bpub type\s+(\w+)\s*<\s*(\w+)\s*>\s*=\s*(?:\w+::)*Quantity\s*(?:::)?\s*<\s*(\w+)\s*,', mod):
        if m.group(2) != m.group(3):
            raise Unsupported('alias ' + m.group(1))
        i = m.end()
        j = mod.index(';', i)
        t = mod[i:j].strip()
        if not t.endswith('>'):
            raise Unsupported('alias ' + m.group(1))
        out[m.group(1)] = t[:-1]
    return out


def runtime_lists(src):
    """the RuntimeUnit arrays: list of lists of (symbol, dim text, magnitude)"""
    out = []
    for m in re.finditer(r'\blet units_array\b.*?=\s*&\[', src, re.S):
        i = m.end()
        d = 1
        j = i
        while d:
            if src[j] in '[{(':
                d += 1
            elif src[j] in ']})':
                d -= 1
            j += 1
        body = src[i:j - 1]
        l = []
        for a in split_args(body):
            k = re.fullmatch(r'\s*(?:::)?(?:\w+::)*RuntimeUnit::new\s*\((.*)\)\s*', a, re.S)
            if not k:
                raise Unsupported('runtime unit ' + a[:60])
            p = split_args(k.group(1))
            if len(p) != 3:
                raise Unsupported('runtime unit arguments')
            s = re.fullmatch(r'\s*"(.*)"\s*', p[0])
            if not s:
                raise Unsupported('runtime unit symbol')
            l.append((s.group(1), p[1], p[2]))
        out.append(l)
    return out


def real(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def dim_goal(got, want):
    fs = set(got) | set(want) | set(T.FIELDS)
    return z3.And([real(Fr(got.get(f, 0))) == real(Fr(want.get(f, 0))) for f in sorted(fs)])


def near(m, v, tol=TOL):
    d = real(m) - real(v)
    t = real(abs(v) * tol)
    return z3.And(d <= t, -d <= t)


def c16(ck):
    ck.assumptions |= {'rustc evaluates the const expression of a generated item as written (exponent literals, struct literals)',
                       'Magnitude { mantissa, exponent, sign } denotes sign * mantissa * 2^exponent (C01)',
                       'the table mirvc/si_table.py states the SI brochure (9th ed.), CODATA 2018 and the exact unit definitions'}
    units = T.all_units()
    for cfg in ('all', 'norational'):
        src = extract.expanded(cfg)

        def items(name, f):
            r = ck.guard(f'module {name} [{cfg}]', lambda: f(module(src, name)))
            return r or {}
        us = items('units', consts)
        cs = items('constants', consts)
        al = items('dimensions', aliases)
        for n, (d, v, s) in sorted(units.items()):
            lab = f'units::{n} [{cfg}]'
            if n not in us:
                if us:
                    ck.prove(lab, f'the unit {n} of the SI exists', [], z3.BoolVal(False), (), vocab=None)
                continue

            def go():
                got = dim_expr(us[n][0])
                ck.prove(lab, 'dimension is the tabulated one in every base dimension', [], dim_goal(got, d))
                ck.prove(lab, 'magnitude is the tabulated value', [], near(mag_expr(us[n][1]), v))
            ck.guard(lab, go)
        # prefixed form / its unit is exactly a power of ten (up to rounding)
        for names, sym, pre, d, v in T.UNITS:
            if not pre:
                continue
            for nm in names.split():
                for p, ps, e in T.PREFIX:
                    if p == pre or p + nm not in us or nm not in us:
                        continue
                    ck.guard(f'units::{p}{nm} [{cfg}]', lambda: ck.prove(
                        f'units::{p}{nm} [{cfg}]', f'differs from {nm} by exactly 10^{e} (up to rounding)', [],
                        near(mag_expr(us[p + nm][1]), mag_expr(us[nm][1]) * Fr(10) ** e, Fr(1, 2 ** 50))))
        for n in sorted(set(us) - set(units)):
            ck.notes.append(f'unit {n} is not in the independent table: not judged')
        for n, (dt, v) in T.CONSTANTS.items():
            lab = f'constants::{n} [{cfg}]'
            if n in cs:
                ck.guard(lab, lambda: (ck.prove(lab, 'dimension', [], dim_goal(dim_expr(cs[n][0]), T.dims(dt) if dt else {})),
                                       ck.prove(lab, 'value', [], near(mag_expr(cs[n][1]), v))))
            elif cs or not ck.undecided:
                ck.prove(lab, f'the constant {n} exists', [], z3.BoolVal(False))
        for n, dt in sorted(T.DIMENSIONS.items()):
            lab = f'dimensions::{n} [{cfg}]'
            if n in al:
                ck.guard(lab, lambda: ck.prove(lab, 'dimension is the tabulated one in every base dimension', [], dim_goal(dim_expr(al[n]), T.dims(dt) if dt else {})))
            elif al:
                ck.prove(lab, f'the dimension {n} exists', [], z3.BoolVal(False))
        for n in sorted(set(al) - set(T.DIMENSIONS)) + sorted(set(cs) - set(T.CONSTANTS)):
            ck.notes.append(f'{n} is not in the independent table: not judged')
        lists = ck.guard(f'runtime unit lists [{cfg}]', lambda: runtime_lists(src)) or []
        for k, l in enumerate(lists):
            runtime_obligations(ck, f'runtime unit list {k} [{cfg}]', l)
        ck.covers += len(us) + len(al)


def runtime_obligations(ck, lab, l, ones=None):
    """each symbol names exactly one unit, and every entry carries that unit's dimension and magnitude"""
    syms = T.symbols()
    seen = {}
    for s, dt, mt in l:
        seen[s] = seen.get(s, 0) + 1
    ck.prove(lab, 'each symbol names one unit', [], z3.And([z3.IntVal(v) == 1 for v in seen.values()] or [z3.BoolVal(True)]))

    def go():
        for s, dt, mt in l:
            if s not in syms:
                ck.notes.append(f'symbol {s} is not in the independent table: not judged')
                continue
            d, v, n = syms[s]
            m = Fr(float(num(mt)))
            ck.prove(lab, f'entry {s}', [], z3.And(dim_goal(dim_expr(dt), d), near(m, v)))
    ck.guard(lab, go)
