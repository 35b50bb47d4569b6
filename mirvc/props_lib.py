"""C01, C02, C03, C19: diman_lib"""
import os, sys, time, multiprocessing as mp
import z3
from mir import *
import engine as E
from engine import *
import models as M
import extract

_prog = {}


def lib_prog(cfg):
    if cfg not in _prog:
        d = extract.scratch_tree()
        _prog[cfg] = Program(f'diman_lib[{cfg}]', extract.lib_mir(cfg), lambda f: open(os.path.join(d, 'repo', f)).read())
    return _prog[cfg]


def find_inherent(P, ty, name):
    xs = [x for x in P.by_last.get(name, []) if (lambda i: i and i.trait is None and i.ty and i.ty.last == ty)(P.impl_of(x.name))]
    if not xs:
        raise Unsupported(f'anchor {ty}::{name} not found')
    return xs[-1]


def find_trait(P, trait, ty, name):
    """trait/ty: strings compared with the trimmed header"""
    want_t, want_s = trim(parse_ty(trait)), trim(parse_ty(ty))
    xs = []
    for x in P.by_last.get(name, []):
        i = P.impl_of(x.name)
        if i and i.trait is not None and i.ty is not None:
            t = trim(i.trait)
            if not t.args and want_t.args and str(want_t.args[0]) == str(want_s):
                t = Ty('path', t.name, want_t.args)
            if str(t) == str(want_t) and str(trim(i.ty)) == str(want_s):
                xs.append(x)
    if not xs:
        raise Unsupported(f'anchor <{ty} as {trait}>::{name} not found')
    return xs[-1]


MAGTY = Ty('path', 'Magnitude')
FIELDS = {'fields:Magnitude': [Ty('path', 'u64'), Ty('path', 'i16'), Ty('path', 'i8')],
          'fields:Ratio': [Ty('path', 'i64'), Ty('path', 'i64')]}


# ------------------------------------------------------------------ C01
def _c01_chunk(a):
    cfg, lo, hi = a
    P = lib_prog(cfg)
    res = []
    for Ex in range(lo, hi):
        try:
            eng = Engine(P, mode='bv', fp=True, models=M.BASIC, consts=FIELDS)
            st = State(eng)
            s, frac = z3.BitVec('sign', 1), z3.BitVec('frac', 52)
            bits = z3.Concat(s, z3.BitVecVal(Ex, 11), frac)
            t0 = time.time()
            out = []
            for o1 in eng.call_body(find_inherent(P, 'Magnitude', 'from_f64'), [M.FpBits(bits)], st, {}):
                if o1.kind != 'ret':
                    out.append((o1.st.pc, z3.BoolVal(False), 'from_f64 panics: ' + o1.msg))
                    continue
                v = o1.val
                if isinstance(v, Agg):
                    v = Agg(v.ty, v.var, {k: z3.simplify(x) for k, x in v.f.items()})
                for o2 in eng.call_body(find_inherent(P, 'Magnitude', 'into_f64'), [v], o1.st, {}):
                    if o2.kind != 'ret':
                        out.append((o2.st.pc, z3.BoolVal(False), 'into_f64 panics: ' + o2.msg))
                    else:
                        out.append((o2.st.pc, o2.val == z3.fpBVToFP(bits, F64), 'round trip'))
            status, det = 'proved', ''
            for pc, goal, what in out:
                sv = z3.SolverFor('QF_FPBV')
                sv.set('timeout', 30000)
                sv.add(*pc)
                sv.add(z3.Not(goal))
                r = sv.check()
                if r == z3.sat:
                    m = sv.model()
                    b = (m.eval(s, True).as_long() << 63) | (Ex << 52) | m.eval(frac, True).as_long()
                    status, det = 'refuted', f'{what}: bits=0x{b:016x}'
                    break
                if r != z3.unsat:
                    status, det = 'undecided', f'{what}: solver'
            if not out:
                status, det = 'undecided', 'no path'
            res.append((Ex, status, det, time.time() - t0, sorted(eng.used_models), sorted(eng.inlined)))
        except Unsupported as e:
            res.append((Ex, 'undecided', str(e), 0, [], []))
        except Exception as e:
            res.append((Ex, 'undecided', repr(e), 0, [], []))
    return res


def c01(ck):
    ck.trusted |= {'2.0f64.powi(n) = 2^n exactly for |n| <= 1022 (std, num_traits FloatCore and Float); checked exhaustively by the replay harness in the thorough tier',
                   'f64::to_bits / IEEE-754 round-to-nearest-even arithmetic as in SMT-LIB FloatingPoint'}
    for cfg in (['all', 'nostd'] if ck.tier == 'quick' else ['all', 'std', 'libm', 'nostd']):
        fn = f'Magnitude::from_f64 ; Magnitude::into_f64 [{cfg}]'
        def go():
            P = lib_prog(cfg)
            find_inherent(P, 'Magnitude', 'from_f64'), find_inherent(P, 'Magnitude', 'into_f64')
            step = 32
            jobs = [(cfg, a, min(a + step, 2047)) for a in range(0, 2047, step)]
            with mp.Pool(8) as pool:
                for rs in pool.imap(_c01_chunk, jobs):
                    for Ex, stt, det, secs, ms, inl in rs:
                        ck.models |= set(ms)
                        ck.inlined |= set(inl)
                        if stt == 'undecided':
                            ck.und(fn, f'biased exponent {Ex}: {det}')
                        ck.add(fn, f'into_f64(from_f64(x)) is x, bit for bit, for every x with biased exponent {Ex}', stt, 'z3 QF_FPBV', secs, det)
        ck.guard(fn, go)
        c01_rest(ck, cfg)


def c01_rest(ck, cfg):
    P = lib_prog(cfg)

    def f32_():
        fn = f'Magnitude::into_f32 [{cfg}]'
        eng = Engine(P, mode='int', models=M.BASIC, consts=FIELDS, contracts=mag_contracts())
        st = State(eng)
        m = eng.fresh(MAGTY, st, 'm')
        want = eng.cast(Opq(dec(m.t), Ty('path', 'f64')), Ty('path', 'f64'), Ty('path', 'f32'), 'FloatToFloat', st)
        check_fn(ck, eng, fn, find_inherent(P, 'Magnitude', 'into_f32'), [m], st, want, 'is the f32 nearest to the represented f64')
    ck.guard(f'Magnitude::into_f32 [{cfg}]', f32_)

    def eq_():
        fn = f'<Magnitude as PartialEq>::eq [{cfg}]'
        eng = Engine(P, mode='bv', models=M.BASIC, consts=FIELDS)
        st = State(eng)
        ft = FIELDS['fields:Magnitude']
        a = Agg(MAGTY, None, [eng.fresh(t, st, 'a') for t in ft])
        b = Agg(MAGTY, None, [eng.fresh(t, st, 'b') for t in ft])
        x = find_trait(P, 'PartialEq', 'Magnitude', 'eq')
        for o in eng.call_body(x, [Ref(st.cell(a)), Ref(st.cell(b))], st, {}):
            if o.kind == 'ret':
                ck.prove(fn, 'is equality of mantissa, exponent and sign', o.st.pc, o.val == z3.And([a.f[i] == b.f[i] for i in range(3)]))
            else:
                ck.add(fn, 'does not panic', 'refuted', 'z3', 0, o.msg)
        ck.use(eng)
    ck.guard(f'<Magnitude as PartialEq>::eq [{cfg}]', eq_)


def dec(t):
    """the f64 a Magnitude represents"""
    return uf('mag.value', U, U)(t)


def enc(t):
    """the Magnitude of an f64"""
    return uf('mag.of', U, U)(t)


class FnContract:
    """functional contract: result == spec(args)   (proved separately for the callee's body)"""

    def __init__(self, name, match, spec):
        self.name, self.match, self.spec = name, match, spec

    def matches(self, eng, callee, key, args):
        return self.match(key)

    def apply(self, eng, callee, key, args, dty, st):
        r = self.spec(eng, st, args)
        return eng._outs(r, st)


def mag_contracts():
    """Magnitude::from_f64 / into_f64 are inverse (C01); the roundtrip law is used at dec(enc(x))"""
    def frm(eng, st, args):
        x = eng.to_u(args[0], st)
        t = enc(x)
        eng.facts.setdefault(('mag', t.get_id()), (t, [dec(t) == x]))
        return Opq(t, MAGTY)

    def into(eng, st, args):
        x = eng.to_u(args[0], st)
        return Opq(z3.simplify(dec(x)) if False else dec(x), Ty('path', 'f64'))
    return [FnContract('Magnitude::from_f64 (C01)', lambda k: k == 'Magnitude::from_f64', frm),
            FnContract('Magnitude::into_f64 (C01)', lambda k: k == 'Magnitude::into_f64', into)]


def check_fn(ck, eng, fn, item, args, st, want, what, panics_ok=None, vocab=None):
    outs = eng.call_body(item, args, st, {})
    rets = 0
    for o in outs:
        if o.kind == 'ret':
            rets += 1
            w = want(o.st) if callable(want) else want
            g = eng.eqv(o.val, w, o.st)
            ck.prove(fn, what, o.st.pc, g, eng.axioms(), vocab=vocab)
        elif o.kind == 'panic':
            if panics_ok and panics_ok(o.msg):
                continue
            ck.prove(fn, f'does not panic ({o.msg[:60]})', o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
    if rets == 0:
        ck.und(fn, 'no returning path')
    else:
        ck.covers += 1
    ck.use(eng)
    return outs


# ------------------------------------------------------------------ C02
def mag_vocab(n):
    return n in ('mag.value', 'mag.of', 'f64.Mul', 'f64.Div', 'f32.Mul', 'f32.Div', 'f64->f32', 'f32->f64', 'f64.powi', 'f64.powf',
                 'f64.Eq', 'int', 'bool') or n.startswith(('u<', 'i64->', 'i32->', 'int')) or re.fullmatch(r'\d+', n) is not None


def c02(ck):
    f64, f32 = Ty('path', 'f64'), Ty('path', 'f32')
    ck.trusted |= {'f64/f32 operators and std powi/powf are uninterpreted: the contract says which operation is applied to which operands',
                   'Magnitude::from_f64/into_f64 contract (property C01)'}
    for cfg in extract.LIB_FEATURES:
        P = lib_prog(cfg)

        def new():
            eng = Engine(P, mode='int', models=M.BASIC, consts=FIELDS, contracts=mag_contracts())
            return eng, State(eng)

        def val64(eng, st, v, ty):
            return Opq(dec(v.t), f64) if ty == 'Magnitude' else v

        for op in ('Mul', 'Div'):
            for lhs, rhs in (('Magnitude', 'Magnitude'), ('Magnitude', 'f64'), ('f64', 'Magnitude'), ('Magnitude', 'f32'), ('f32', 'Magnitude')):
                fn = f'<{lhs} as {op}<{rhs}>>::{op.lower()} [{cfg}]'

                def go():
                    eng, st = new()
                    item = find_trait(P, f'{op}<{rhs}>', lhs, op.lower())
                    a = eng.fresh(Ty('path', lhs), st, 'a')
                    b = eng.fresh(Ty('path', rhs), st, 'b')
                    if 'f32' in (lhs, rhs):
                        def c(v, t):
                            return eng.cast(Opq(dec(v.t), f64), f64, f32, 'FloatToFloat', st) if t == 'Magnitude' else v
                        r = eng.binop(op, c(a, lhs), c(b, rhs), f32, st)
                        if lhs == 'Magnitude':
                            r = eng.cast(r, f32, f64, 'FloatToFloat', st)
                    else:
                        r = eng.binop(op, val64(eng, st, a, lhs), val64(eng, st, b, rhs), f64, st)
                    want = Opq(enc(r.t), MAGTY) if lhs == 'Magnitude' else r
                    check_fn(ck, eng, fn, item, [a, b], st, want, f'applies {op.lower()} to the represented numbers in the order written', vocab=mag_vocab)
                ck.guard(fn, go)

        def is_one():
            fn = f'Magnitude::is_one [{cfg}]'
            eng, st = new()
            a = eng.fresh(MAGTY, st, 'a')
            one = eng.float_const('1.0', 'f64')
            want = eng.binop('Eq', Opq(dec(a.t), f64), one, f64, st)
            check_fn(ck, eng, fn, find_inherent(P, 'Magnitude', 'is_one'), [Ref(st.cell(a))], st, want, 'is true exactly for 1.0', vocab=mag_vocab)
        ck.guard(f'Magnitude::is_one [{cfg}]', is_one)

        def fpow():
            fn = f'<i64 as DimensionExponent>::float_pow [{cfg}]'
            eng, st = new()
            a = eng.fresh(MAGTY, st, 'a')
            n = eng.fresh(Ty('path', 'i64'), st, 'n')
            st.assume(eng.rng('i32', n))     # precondition: the exponent fits in an i32
            want = Opq(enc(eng.float_uf('powi', f64, [Opq(dec(a.t), f64), n], st).t), MAGTY)
            check_fn(ck, eng, fn, find_trait(P, 'DimensionExponent', 'i64', 'float_pow'), [a, n], st, want,
                     'raises the represented number to the exponent (|exponent| within i32)', vocab=mag_vocab)
        ck.guard(f'<i64 as DimensionExponent>::float_pow [{cfg}]', fpow)
        for nm, val in (('one', 1), ('zero', 0)):
            fn = f'<i64 as DimensionExponent>::{nm} [{cfg}]'
            def go():
                eng, st = new()
                check_fn(ck, eng, fn, find_trait(P, 'DimensionExponent', 'i64', nm), [], st, z3.IntVal(val), f'is {val}')
            ck.guard(fn, go)
        fn = f'<i64 as DimensionExponent>::from_int [{cfg}]'
        def go():
            eng, st = new()
            n = eng.fresh(Ty('path', 'i32'), st, 'n')
            check_fn(ck, eng, fn, find_trait(P, 'DimensionExponent', 'i64', 'from_int'), [n], st, n, 'is the same number')
        ck.guard(fn, go)
        if cfg in ('all', 'std', 'libm'):
            def prat():
                fn = f'Magnitude::pow_rational [{cfg}]'
                eng, st = new()
                a = eng.fresh(MAGTY, st, 'a')
                n = eng.fresh(Ty('path', 'i64'), st, 'n')
                d = eng.fresh(Ty('path', 'i64'), st, 'd')
                fl = lambda x: eng.cast(x, Ty('path', 'i64'), f64, 'IntToFloat', st)
                want = Opq(enc(eng.float_uf('powf', f64, [Opq(dec(a.t), f64), eng.binop('Div', fl(n), fl(d), f64, st)], st).t), MAGTY)
                check_fn(ck, eng, fn, find_inherent(P, 'Magnitude', 'pow_rational'), [Ref(st.cell(a)), n, d], st, want,
                         'raises the represented number to num/denom', vocab=mag_vocab)
            ck.guard(f'Magnitude::pow_rational [{cfg}]', prat)

            def rpow():
                fn = f'<Ratio as DimensionExponent>::float_pow [{cfg}]'
                eng, st = new()
                a = eng.fresh(MAGTY, st, 'a')
                n = eng.fresh(Ty('path', 'i64'), st, 'n')
                d = eng.fresh(Ty('path', 'i64'), st, 'd')
                fl = lambda x: eng.cast(x, Ty('path', 'i64'), f64, 'IntToFloat', st)
                want = Opq(enc(eng.float_uf('powf', f64, [Opq(dec(a.t), f64), eng.binop('Div', fl(n), fl(d), f64, st)], st).t), MAGTY)
                r = Agg(Ty('path', 'Ratio'), None, [n, d])
                check_fn(ck, eng, fn, find_trait(P, 'DimensionExponent', 'Ratio', 'float_pow'), [a, r], st, want,
                         'raises the represented number to num/denom', vocab=mag_vocab)
            ck.guard(f'<Ratio as DimensionExponent>::float_pow [{cfg}]', rpow)


# ------------------------------------------------------------------ C03
I = z3.IntSort()
GF = z3.Function('gcd', I, I, I)
COP = z3.Function('coprime', I, I, z3.BoolSort())
CN = z3.Function('canon_num', I, I, I)
CD = z3.Function('canon_den', I, I, I)
RN = z3.Function('red_num', I, I, I)
RD = z3.Function('red_den', I, I, I)
RATIO = Ty('path', 'Ratio')


def tdiv_(a, b):
    return z3.If(a >= 0, a / b, -((-a) / b))


def trem_(a, b):
    return a - b * tdiv_(a, b)


def gcd_facts(x, y, deep=True):
    """instances of lemmas/Gcd.lean"""
    g = GF(x, y)
    fs = [z3.Implies(y == 0, g == z3.If(x >= 0, x, -x)), g >= 0, z3.Implies(z3.Or(x != 0, y != 0), g > 0),
          GF(x, y) == GF(y, x), GF(-x, y) == g, GF(x, -y) == g,
          z3.Implies(y != 0, g == GF(y, trem_(x, y))), z3.Implies(x != 0, g == GF(x, trem_(y, x)))]
    return fs


def reduce_facts(n, d):
    """n = g*n1, d = g*d1, coprime n1 d1, exact divisions by g and -g   (G_reduce, div_exact, div_exact_neg)"""
    g = GF(n, d)
    n1, d1 = RN(n, d), RD(n, d)
    nz = d != 0
    fs = [z3.Implies(nz, z3.And(g > 0, n == g * n1, d == g * d1, COP(n1, d1), d1 != 0)),
          z3.Implies(nz, z3.And((d1 > 0) == (d > 0), (n1 > 0) == (n > 0), (n1 < 0) == (n < 0)))]
    for a, a1 in ((n, n1), (d, d1)):
        fs += [z3.Implies(nz, z3.And(a / g == a1, (-a) / g == -a1, a / (-g) == -a1, (-a) / (-g) == a1))]
    fs += cop_facts(n1, d1)
    return fs


def cop_facts(a, b):
    return [COP(a, b) == COP(-a, b), COP(a, b) == COP(a, -b), COP(a, b) == COP(b, a), COP(-a, -b) == COP(a, b), COP(a, z3.IntVal(1))]


def canon_facts(n, d):
    """definition of the canonical pair of n/d, and what it satisfies (lemma canonical pair)"""
    n1, d1 = RN(n, d), RD(n, d)
    return [z3.Implies(d > 0, z3.And(CN(n, d) == n1, CD(n, d) == d1)),
            z3.Implies(d < 0, z3.And(CN(n, d) == -n1, CD(n, d) == -d1)),
            z3.Implies(d != 0, z3.And(CD(n, d) > 0, COP(CN(n, d), CD(n, d)), CN(n, d) * d == n * CD(n, d)))] + cop_facts(CN(n, d), CD(n, d))


def fact(eng, key, fs):
    k = ('f', key)
    if k not in eng.facts:
        eng.facts[k] = (None, fs)


def gcd_contract(names):
    def spec(eng, st, args):
        x, y = args
        fact(eng, ('gcd', str(x), str(y)), gcd_facts(x, y))
        g = GF(x, y)
        st.assume(eng.rng('i64', g))
        return g
    return FnContract('gcd: result is the greatest common divisor', lambda k: k.split('::')[-1] in names, spec)


def new_contract():
    def spec(eng, st, args):
        n, d = args
        fact(eng, ('canon', str(n), str(d)), canon_facts(n, d))
        s2 = st.copy()
        outs = []
        if eng.feasible(st, d == 0):
            s2.assume(d == 0)
            outs.append(Outcome('panic', s2, msg='denominator zero'))
            st.assume(d != 0)
        st.assume(eng.rng('i64', CN(n, d)))
        st.assume(eng.rng('i64', CD(n, d)))
        outs.append(Outcome('ret', st, Agg(RATIO, None, [CN(n, d), CD(n, d)])))
        return outs
    return FnContract('Ratio::new: the canonical pair of num/denom', lambda k: k == 'Ratio::new', spec)


def arith_panic(msg):
    return 'overflow' in msg or 'zero' in msg


def gcd_items(P):
    out = []
    seen = set()
    for x in P.fns:
        if x.name in seen or '<impl' in x.name or '{closure' in x.name:
            continue
        try:
            a = x.args()
        except Unsupported:
            continue
        if len(a) == 2 and all(str(t) == 'i64' for _, t in a) and x.ret_txt == 'i64':
            seen.add(x.name)
            out.append(P.by_last[Program.lastname(x.name)][-1])
    return out


def c03(ck):
    ck.trusted |= {'lemmas/Gcd.lean (Lean 4 + Mathlib): gcd and canonical-form lemmas, checked by lean in the thorough tier'}
    ck.assumptions |= {'numerators and denominators of intermediate results fit in an i64 (overflow panics are outside the property)',
                       'denominators and divisors are non-zero'}
    if ck.tier == 'thorough':
        lean(ck, 'Gcd.lean')
    for cfg in (['all'] if ck.tier == 'quick' else ['all', 'std', 'libm']):
        P = lib_prog(cfg)
        gs = gcd_items(P)
        names = {Program.lastname(x.name) for x in gs}
        for g in gs:
            fn = f'{g.name} [{cfg}]'
            ck.guard(fn, lambda: c03_gcd(ck, P, g, fn, names))
        c03_ratio(ck, P, cfg, names)


def lean(ck, f):
    import subprocess
    t0 = time.time()
    p = subprocess.run(['lean', os.path.join(extract.VERIF, 'lemmas', f)], capture_output=True, text=True)
    ck.add('lemmas/' + f, 'all lemmas check', 'proved' if p.returncode == 0 and 'sorry' not in p.stdout else 'undecided', 'lean', time.time() - t0, p.stdout[:300])


def c03_gcd(ck, P, item, fn, names):
    """role search: which two i64 locals carry the invariant G(x,y) = G(a,b)"""
    f = item.fn()
    probe = Engine(P, mode='int', models=M.BASIC, consts=FIELDS)
    heads = probe.loop_heads(f)

    def attempt(roles):
        eng = Engine(P, mode='int', models=M.BASIC, consts=FIELDS, contracts=[gcd_contract(names)])
        st = State(eng)
        a0, b0 = eng.fresh(Ty('path', 'i64'), st, 'a'), eng.fresh(Ty('path', 'i64'), st, 'b')
        fact(eng, 'args', gcd_facts(a0, b0))
        sink = []
        if heads:
            def rd(fr, st, l):
                return st.mem[fr['cells'][l]]

            def inv(eng, fr, st, snap):
                x, y = rd(fr, st, roles[0]), rd(fr, st, roles[1])
                return z3.And(GF(x, y) == GF(a0, b0), eng.rng('i64', x), eng.rng('i64', y))

            def facts(eng, fr, st):
                x, y = rd(fr, st, roles[0]), rd(fr, st, roles[1])
                fact(eng, ('gcd', str(x), str(y)), gcd_facts(x, y))
                r = trem_(x, y)
                fact(eng, ('rem', str(x), str(y)), [z3.Implies(y != 0, z3.And(z3.If(r >= 0, r, -r) < z3.If(y >= 0, y, -y)))])

            def variant(eng, fr, st):
                y = rd(fr, st, roles[1])
                return z3.If(y >= 0, y, -y)
            L = LoopInvT(inv, variant, sink=sink, facts=facts)
            eng.loop_spec = lambda it: L if it is item else None
        outs = eng.call_body(item, [a0, b0], st, {})
        res = [(n, pc, g, ax) for n, pc, g, ax in sink]
        rets = 0
        for o in outs:
            if o.kind == 'ret':
                rets += 1
                res.append(('result is the greatest common divisor of the arguments', o.st.pc, o.val == GF(a0, b0), eng.axioms()))
            elif o.kind == 'panic' and not arith_panic(o.msg):
                res.append(('does not panic: ' + o.msg, o.st.pc, z3.BoolVal(False), eng.axioms()))
        obs = []
        for n, pc, g, ax in res:
            ob = E.Obligation(n, pc, g)
            E.discharge(ob, ax, 5000)
            obs.append(ob)
            if ob.status != 'proved':
                break
        return rets, obs, len(res), eng
    cands = [None]
    if heads:
        if len(heads) != 1:
            raise Unsupported('more than one loop')
        body = set().union(*heads.values())
        import loops
        ls = [l for l in loops.assigned_locals(f, body) if f.locals.get(l) == 'i64']
        pref = [n for n, _ in f.args]
        ls.sort(key=lambda l: (l not in pref, int(l[1:])))
        cands = [(x, y) for x in ls for y in ls if x != y][:60]
    best = None
    for r in cands:
        try:
            rets, obs, n, eng = attempt(r)
        except KeyError:
            continue
        except Unsupported:
            if len(cands) == 1:
                raise
            continue
        ok = rets and len(obs) == n and all(o.status == 'proved' for o in obs)
        if ok:
            for o in obs:
                ck.add(fn, o.name, 'proved', o.backend, o.time)
            ck.covers += 1
            ck.use(eng)
            return
        best = best or obs
    ck.und(fn, 'no loop invariant found' + (f' (first candidate fails: {best[-1].name})' if best else ''))


import loops as _loops


class LoopInvT(_loops.LoopInv):
    pass


def c03_ratio(ck, P, cfg, names):
    i64 = Ty('path', 'i64')

    def engine(new=True):
        eng = Engine(P, mode='int', models=M.BASIC, consts=FIELDS, contracts=[gcd_contract(names)] + ([new_contract()] if new else []))
        return eng, State(eng)

    def ratio(eng, st, n):
        a, b = eng.fresh(i64, st, n + 'n'), eng.fresh(i64, st, n + 'd')
        st.assume(z3.And(b > 0, COP(a, b)))
        fact(eng, ('cop', n), cop_facts(a, b))
        return Agg(RATIO, None, [a, b])

    def fin(eng, v, st):
        v = eng.deref_all(v, st)
        if isinstance(v, Opq):
            raise Unsupported('opaque ratio')
        return v.f[0], v.f[1]

    def post(fn, eng, outs, goal, what, final=None):
        rets = 0
        for o in outs:
            if o.kind == 'ret':
                rets += 1
                n, d = fin(eng, o.val if final is None else Ref(*final), o.st)
                for nm, g in goal(n, d):
                    ck.prove(fn, f'{what}: {nm}', o.st.pc, g, eng.axioms(), timeout=15000)
            elif o.kind == 'panic' and not arith_panic(o.msg):
                ck.prove(fn, 'does not panic: ' + o.msg, o.st.pc, z3.BoolVal(False), eng.axioms())
        if not rets:
            ck.und(fn, 'no returning path')
        else:
            ck.covers += 1
        ck.use(eng)

    def rational(num, den):
        return lambda n, d: [('positive denominator in lowest terms', z3.And(d > 0, COP(n, d))), ('exact value', n * den == num * d)]

    def method(nm, spec, binary=True, inherent=True, trait=None, byref=False):
        fn = f'Ratio::{nm} [{cfg}]' if inherent else f'<Ratio as {trait}>::{nm} [{cfg}]'

        def go():
            eng, st = engine()
            item = find_inherent(P, 'Ratio', nm) if inherent else find_trait(P, trait, 'Ratio', nm)
            a = ratio(eng, st, 'a')
            args = [a]
            b = None
            if binary:
                b = ratio(eng, st, 'b')
                args.append(b)
            final = None
            if byref:
                c = st.cell(a)
                args[0] = Ref(c, (), True)
                final = (c, ())
            if nm == 'div':
                st.assume(b.f[0] != 0)
            num, den = spec(a, b)
            post(fn, eng, eng.call_body(item, args, st, {}), rational(num, den), 'rational result', final)
        ck.guard(fn, go)
    A = lambda x: (x.f[0], x.f[1])
    add = lambda a, b: (a.f[0] * b.f[1] + b.f[0] * a.f[1], a.f[1] * b.f[1])
    sub = lambda a, b: (a.f[0] * b.f[1] - b.f[0] * a.f[1], a.f[1] * b.f[1])
    mul = lambda a, b: (a.f[0] * b.f[0], a.f[1] * b.f[1])
    div = lambda a, b: (a.f[0] * b.f[1], a.f[1] * b.f[0])
    neg = lambda a, b: (-a.f[0], a.f[1])
    method('add', add)
    method('sub', sub)
    method('mul', mul)
    method('div', div)
    method('neg', neg, binary=False)
    method('mul', mul, inherent=False, trait='Mul')
    method('add_assign', add, inherent=False, trait='AddAssign', byref=True)
    method('neg', neg, binary=False, inherent=False, trait='Neg')

    def const(nm, n, inherent, trait=None):
        fn = f'Ratio::{nm} [{cfg}]' if inherent else f'<Ratio as {trait}>::{nm} [{cfg}]'

        def go():
            eng, st = engine()
            item = find_inherent(P, 'Ratio', nm) if inherent else find_trait(P, trait, 'Ratio', nm)
            args = []
            v = n
            if n is None:
                v = eng.fresh(Ty('path', 'i64' if inherent else 'i32'), st, 'n')
                args = [v]
            fact(eng, 'c1', cop_facts(v if z3.is_expr(v) else z3.IntVal(v), z3.IntVal(1)))
            post(fn, eng, eng.call_body(item, args, st, {}), rational(v, z3.IntVal(1)), 'integer')
        ck.guard(fn, go)
    const('int', None, True)
    const('one', 1, False, 'DimensionExponent')
    const('zero', 0, False, 'DimensionExponent')
    const('from_int', None, False, 'DimensionExponent')

    def new():
        fn = f'Ratio::new [{cfg}]'
        eng, st = engine(new=False)
        n, d = eng.fresh(i64, st, 'n'), eng.fresh(i64, st, 'd')
        st.assume(d != 0)
        fact(eng, 'red', reduce_facts(n, d))
        fact(eng, 'canon', canon_facts(n, d)[:2])
        outs = eng.call_body(find_inherent(P, 'Ratio', 'new'), [n, d], st, {})
        post(fn, eng, outs, lambda a, b: [('canonical pair of num/denom', z3.And(a == CN(n, d), b == CD(n, d))),
                                          ('positive denominator', b > 0), ('lowest terms', COP(a, b)), ('exact value', a * d == n * b)], 'normalised')
    ck.guard(f'Ratio::new [{cfg}]', new)
    for nm, i in (('num', 0), ('denom', 1)):
        fn = f'Ratio::{nm} [{cfg}]'

        def acc():
            eng, st = engine()
            a = ratio(eng, st, 'a')
            check_fn(ck, eng, fn, find_inherent(P, 'Ratio', nm), [Ref(st.cell(a))], st, a.f[i], 'returns the stored component')
        ck.guard(fn, acc)

    def eq():
        fn = f'<Ratio as PartialEq>::eq [{cfg}]'
        eng, st = engine()
        a, b = ratio(eng, st, 'a'), ratio(eng, st, 'b')
        (an, ad), (bn, bd) = A(a), A(b)
        # canonical_unique (lemmas/Gcd.lean)
        fact(eng, 'uniq', [z3.Implies(z3.And(ad > 0, bd > 0, COP(an, ad), COP(bn, bd), an * bd == bn * ad), z3.And(an == bn, ad == bd))])
        for o in eng.call_body(find_trait(P, 'PartialEq', 'Ratio', 'eq'), [Ref(st.cell(a)), Ref(st.cell(b))], st, {}):
            if o.kind == 'ret':
                ck.prove(fn, 'equal exactly when they are the same rational number', o.st.pc, o.val == (an * bd == bn * ad), eng.axioms())
        ck.use(eng)
    ck.guard(f'<Ratio as PartialEq>::eq [{cfg}]', eq)
