"""C11-C15, C20: the proc-macro crate diman_unit_system"""
import os, re
import z3
from mir import *
from engine import *
import models as M
import coll as C
import extract
from coll import AT, LEN, HAS, GET
from props_lib import FnContract, dec, enc
from props_rt import engine as rt_engine, ratio_contracts, RAT, RATIO_TY, std_vocab

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CFGS = ('rational', 'integer')
_prog = {}


def us_prog(cfg):
    if cfg not in _prog:
        m, d = extract.us_mir(cfg), extract.scratch_tree()
        base = os.path.join(d, 'repo', 'crates', 'diman_unit_system')

        def src(p):
            for b in (base, os.path.join(d, 'repo')):
                if os.path.exists(os.path.join(b, p)):
                    return open(os.path.join(b, p)).read()
            return open(p).read()
        _prog[cfg] = Program('diman_unit_system-' + cfg, m, src)
    return _prog[cfg]


def method(P, ty, name, trait=None, pred=None):
    """the body of <ty>::name (inherent) or <ty as trait>::name"""
    out = []
    for x in P.by_last.get(name, []):
        i = P.impl_of(x.name)
        if not i or not i.ty or i.ty.kind != 'path' or i.ty.last != ty:
            continue
        if (i.trait is None) != (trait is None) or trait is not None and i.trait.last != trait:
            continue
        if pred is None or pred(x, i):
            out.append(x)
    if len(out) != 1:
        raise Unsupported(f'anchor {ty}::{name} not found' if not out else f'anchor {ty}::{name} is ambiguous')
    return out[0]


def function(P, name):
    c = [x for x in P.by_last.get(name, []) if '<impl' not in x.name and '{closure' not in x.name]
    if len(c) != 1:
        raise Unsupported(f'anchor {name} not found')
    return c[0]


def us_vocab(n):
    return std_vocab(n) or n.startswith(('ratio.', 'mag.', 'ev', 'fev', 'E', 'spec.', 'dam.', 'bd.', 'a!', 'k!', 'b!', 'pos!', 'key!', 'all!', 'new!')) or '!' in n


def outcomes(ck, eng, fn, x, args, st, panics_ok=None, vocab=us_vocab):
    """run the body; panics are obligations, normal outcomes are returned"""
    outs = eng.call_body(x, args, st, {})
    rets = []
    for o in outs:
        if o.kind == 'ret':
            rets.append(o)
        elif o.kind == 'panic' and not (panics_ok and panics_ok(o.msg)):
            ck.prove(fn, f'does not panic ({o.msg[:60]})', o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
    if not rets:
        ck.und(fn, 'no returning path')
    ck.covers += bool(rets)
    ck.use(eng)
    return rets


def sinks(ck, fn, sink, vocab=us_vocab):
    for what, pc, goal, ax in sink:
        ck.prove(fn, what, pc, goal, ax, vocab=vocab)


# ------------------------------------------------------------------ expressions
EV, FEV = uf('spec.ev', U, U), uf('spec.fev', U, U)
MUL, DIV, POW, INTO = uf('spec.mul', U, U, U), uf('spec.div', U, U, U), uf('spec.pow', U, U, U), uf('spec.into', U, U)
LEAF, FLEAF = uf('spec.leaf', U, U, BOOL), uf('spec.fleaf', U, U, BOOL)


class Shape:
    """accessors of the expression types, by field name (read from the source)"""

    def __init__(self, P):
        self.P = P
        f = [n for n, _ in P.struct_fields('BinaryOperator')]
        self.lhs, self.rhs, self.op = f.index('lhs'), f.index('rhs'), f.index('operator')
        ev = [v for v in P.enum_variants('Expr')]
        fv = [v for v in P.enum_variants('Factor') if 'ParenExpr' in v]
        ov = P.enum_variants('Operator')
        if len(ev) != 1 or len(fv) != 1 or len(ov) != 1:
            raise Unsupported('expression types not found')
        self.ev, self.fv, self.ov = ev[0], fv[0], ov[0]

    def d(self, t):
        return uf('discr', U, INT)(t)

    def p(self, t, var, i):
        return uf(f'{var + "." if var else ""}{i}', U, U)(t)

    def val(self, e):
        return self.p(e, 'Value', 0)

    def bin(self, e):
        b = self.p(e, 'Binary', 0)
        return self.p(b, None, self.lhs), self.p(b, None, self.rhs), self.p(b, None, self.op)

    def is_(self, t, names, var):
        return self.d(t) == names.index(var)

    # one unfolding of the recursive specifications
    def unfold_ev(self, e, fev=FEV, ev=EV):
        l, r, o = self.bin(e)
        return [z3.Implies(self.is_(e, self.ev, 'Value'), ev(e) == fev(self.val(e))),
                z3.Implies(z3.And(self.is_(e, self.ev, 'Binary'), self.is_(o, self.ov, 'Mul')), ev(e) == MUL(ev(l), fev(r))),
                z3.Implies(z3.And(self.is_(e, self.ev, 'Binary'), self.is_(o, self.ov, 'Div')), ev(e) == DIV(ev(l), fev(r)))]

    def unfold_fev(self, f, fev=FEV, ev=EV):
        return [z3.Implies(self.is_(f, self.fv, 'Value'), fev(f) == self.p(f, 'Value', 0)),
                z3.Implies(self.is_(f, self.fv, 'Power'), fev(f) == POW(self.p(f, 'Power', 0), INTO(self.p(f, 'Power', 1)))),
                z3.Implies(self.is_(f, self.fv, 'ParenExpr'), fev(f) == ev(self.p(f, 'ParenExpr', 0)))]


    def unfold_leaf(self, e, v, ty):
        if ty == 'Expr':
            l, r, o = self.bin(e)
            return z3.If(self.is_(e, self.ev, 'Value'), FLEAF(self.val(e), v), z3.Or(LEAF(l, v), FLEAF(r, v)))
        return z3.If(self.is_(e, self.fv, 'ParenExpr'), LEAF(self.p(e, 'ParenExpr', 0), v),
                     z3.If(self.is_(e, self.fv, 'Value'), v == self.p(e, 'Value', 0), v == self.p(e, 'Power', 0)))


EXPR, FACTOR = Ty('path', 'Expr'), Ty('path', 'Factor')


def key_re(pat):
    r = re.compile(pat)
    return lambda k: r.fullmatch(k) is not None


def term_contract(name, pat, f, ty=None):
    """result is the term f(args)"""
    def spec(eng, st, args):
        t = f(*[eng.to_u(eng.deref_all(a, st), st) for a in args])
        return eng.val_of_term(ty, t, st) if ty is not None else Opq(t, Ty('path', 'T'))
    return FnContract(name, key_re(pat), spec)


def arith_contracts():
    return [term_contract('T: Mul', r'<T as (?:\w+::)*Mul(?:<T>)?>::mul', MUL), term_contract('T: Div', r'<T as (?:\w+::)*Div(?:<T>)?>::div', DIV),
            term_contract('T: MulDiv', r'<T as (?:\w+::)*MulDiv>::pow', POW),
            term_contract('E: Into<Exponent>', r'<I as (?:\w+::)*Into<.*>>::into', INTO),
            term_contract('Expr::eval', r'Expr<.*>::eval', EV), term_contract('expression::Factor::eval', r'Factor<.*>::eval', FEV)]


def c11_eval(ck, P, cfg):
    for ty, spec, unf in (('Expr', EV, 'unfold_ev'), ('Factor', FEV, 'unfold_fev')):
        fn = f'{ty}::eval [{cfg}]'

        def go():
            S = Shape(P)
            x = method(P, ty, 'eval')
            eng = rt_engine(P, arith_contracts())
            eng.generic_params = {'T', 'I'}
            st = State(eng)
            e = z3.Const('e', U)
            a = Ref(st.cell(Opq(e, Ty('path', ty))))
            ax = getattr(S, unf)(e)
            for o in outcomes(ck, eng, fn, x, [a], st):
                ck.prove(fn, 'is the left-associative value of the expression: (lhs op rhs), factor value, value ^ exponent, value of the parenthesis',
                         o.st.pc + ax, eng.to_u(o.val, o.st) == spec(e), eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)


EMAP, FMAP = uf('spec.map', U, U, U), uf('spec.fmap', U, U, U)
EMAPX, FMAPX = uf('spec.mapexp', U, U, U), uf('spec.fmapexp', U, U, U)
APP = uf('spec.app', U, U, U)


def it_contract(pat, rel, ety='T'):
    """the iterator yields references to exactly the elements related to the argument (order left open)"""
    def spec(eng, st, args):
        e = eng.to_u(eng.deref_all(args[0], st), st)
        t = leaf_ty(eng, args[0], st)
        fam = C.Fam([U], lambda eng, st, bs: rel(e, bs[0]), lambda eng, st, bs: Ref(st.cell(eng.val_of_term(t, bs[0], st))), None, False)
        return C.It([fam])
    return FnContract('iter_vals: the leaves of the expression', key_re(pat), spec)


def leaf_ty(eng, v, st):
    v = eng.deref_all(v, st)
    t = v.ty if isinstance(v, (Opq, Agg)) else None
    if isinstance(t, Ty) and t.args:
        return t.args[0]
    return Ty('path', 'T')


def map_contracts():
    return [term_contract('F: Fn(T)', r'<F as (?:\w+::)*Fn<.*>>::call', lambda f, a: APP(f, a)),
            term_contract('Expr::map', r'Expr<.*>::map(?:<.*>)?', EMAP, EXPR), term_contract('Factor::map', r'Factor<.*>::map(?:<.*>)?', FMAP, FACTOR),
            term_contract('Expr::map_exp', r'Expr<.*>::map_exp(?:<.*>)?', EMAPX, EXPR), term_contract('Factor::map_exp', r'Factor<.*>::map_exp(?:<.*>)?', FMAPX, FACTOR),
            it_contract(r'Expr<.*>::iter_vals', LEAF), it_contract(r'Factor<.*>::iter_vals', FLEAF)]


def untuple(eng):
    """the argument tuple of Fn::call"""
    def call(eng, st, args):
        t = eng.deref_all(args[1], st)
        x = t.f[0] if isinstance(t, Agg) and 0 in t.f else None
        if x is None or len(t.f) != 1:
            raise Unsupported('argument tuple')
        return Opq(APP(eng.to_u(eng.deref_all(args[0], st), st), eng.to_u(x, st)), Ty('path', 'T2'))
    return FnContract('F: Fn(T)', key_re(r'<F as (?:\w+::)*Fn<.*>>::call'), call)


def c11_map(ck, P, cfg):
    S = Shape(P)
    for ty, name, m, fm in (('Expr', 'map', EMAP, FMAP), ('Factor', 'map', EMAP, FMAP), ('Expr', 'map_exp', EMAPX, FMAPX), ('Factor', 'map_exp', EMAPX, FMAPX)):
        fn = f'{ty}::{name} [{cfg}]'

        def go():
            x = method(P, ty, name)
            eng = rt_engine(P, [untuple(None)] + map_contracts()[1:])
            eng.generic_params = {'T', 'E', 'T2', 'E2', 'F'}
            st = State(eng)
            e, f = z3.Const('e', U), z3.Const('f', U)
            mk = lambda t, v, fs: eng.to_u(Agg(Ty('path', t), v, [Opq(z, Ty('path', 'T')) for z in fs]), st)
            app = lambda z: APP(f, z)
            if ty == 'Expr':
                l, r, o = S.bin(e)
                parts = {S.lhs: m(l, f), S.rhs: fm(r, f), S.op: o}
                b = mk('BinaryOperator', None, [parts[i] for i in sorted(parts)])
                ax = [z3.Implies(S.is_(e, S.ev, 'Value'), m(e, f) == mk('Expr', 'Value', [fm(S.val(e), f)])),
                      z3.Implies(S.is_(e, S.ev, 'Binary'), m(e, f) == mk('Expr', 'Binary', [b]))]
                goal = m(e, f)
            else:
                v, (p, q), pe = S.p(e, 'Value', 0), (S.p(e, 'Power', 0), S.p(e, 'Power', 1)), S.p(e, 'ParenExpr', 0)
                tv = app if name == 'map' else (lambda z: z)
                te = app if name == 'map_exp' else (lambda z: z)
                ax = [z3.Implies(S.is_(e, S.fv, 'Value'), fm(e, f) == mk('Factor', 'Value', [tv(v)])),
                      z3.Implies(S.is_(e, S.fv, 'Power'), fm(e, f) == mk('Factor', 'Power', [tv(p), te(q)])),
                      z3.Implies(S.is_(e, S.fv, 'ParenExpr'), fm(e, f) == mk('Factor', 'ParenExpr', [m(pe, f)]))]
                goal = fm(e, f)
            for o in outcomes(ck, eng, fn, x, [Opq(e, Ty('path', ty)), Opq(f, Ty('path', 'F'))], st):
                ck.prove(fn, 'the same expression with the function applied to every ' + ('name or number' if name == 'map' else 'exponent'),
                         o.st.pc + ax, eng.to_u(o.val, o.st) == goal, eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)
    for ty, rel in (('Expr', LEAF), ('Factor', FLEAF)):
        fn = f'{ty}::iter_vals [{cfg}]'

        def go():
            x = method(P, ty, 'iter_vals')
            eng = rt_engine(P, map_contracts())
            eng.generic_params = {'T', 'E'}
            st = State(eng)
            e, v = z3.Const('e', U), z3.Const('v', U)
            ax = [rel(e, v) == S.unfold_leaf(e, v, ty)]
            for o in outcomes(ck, eng, fn, x, [Ref(st.cell(Opq(e, Ty('path', ty))))], st):
                it = eng.deref_all(o.val, o.st)
                if not isinstance(it, C.It):
                    raise Unsupported('iterator expected')
                mem = []
                for fam in it.fams:
                    bs = C.binders(eng, fam)
                    s2 = C.under(o.st, bs)
                    g = fam.guard(eng, s2, bs)
                    mem.append(C.exists(bs, z3.And(g, eng.to_u(eng.deref_all(fam.val(eng, s2, bs), s2), s2) == v)))
                ck.prove(fn, 'yields exactly the names and numbers of the expression', o.st.pc + ax, z3.Or(mem) == rel(e, v), eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)


# ------------------------------------------------------------------ dimensions
BD, DAM = Ty('path', 'BaseDimensions'), Ty('path', 'DimensionsAndMagnitude')


def exponent(cfg, t):
    """rational number an exponent term stands for"""
    return RAT(t) if cfg == 'rational' else z3.ToReal(uf('int', U, INT)(t))


def exp_value(eng, st, cfg, v):
    v = eng.deref_all(v, st)
    if z3.is_expr(v) and v.sort() == INT:
        return z3.ToReal(v)
    return exponent(cfg, eng.to_u(v, st))


def E_(cfg, m, d):
    return z3.If(HAS(m, d), exponent(cfg, GET(m, d)), z3.RealVal(0))


def fields_of(P, t):
    fs = [n for n, _ in P.struct_fields('BaseDimensions')]
    if fs != ['fields']:
        raise Unsupported('BaseDimensions has other fields than the exponent map')
    return uf('0', U, U)(t)


def int_axioms(cfg):
    """an integer stored in a map is read back"""
    n = z3.Int('n')
    u = uf('u<Int>', INT, U)
    return [z3.ForAll([n], uf('int', U, INT)(u(n)) == n, patterns=[u(n)])]


def bd_contracts(P, cfg, skip=()):
    """contracts of the dimension arithmetic, proved for the bodies in C11"""
    def bd(name, n, val):
        f = uf('bd.' + name, *([U] * n), U)

        def spec(eng, st, args):
            us = [eng.to_u(eng.deref_all(a, st), st) for a in args]
            t = f(*us)
            d = eng.binder(U)
            eng.fact(st, z3.ForAll([d], E_(cfg, fields_of(P, t), d) == val(eng, d, *us), patterns=[HAS(fields_of(P, t), d)]))
            return Opq(t, BD)
        return spec
    e = lambda u, d: E_(cfg, fields_of(P, u), d)
    return [FnContract('BaseDimensions: ' + n, key_re(k), spec) for n, k, spec in (
        ('none', r'BaseDimensions::none', bd('none', 0, lambda eng, d: z3.RealVal(0))),
        ('for_base_dimension', r'BaseDimensions::for_base_dimension', bd('base', 1, lambda eng, d, b: z3.If(d == b, z3.RealVal(1), z3.RealVal(0)))),
        ('Mul', r'<BaseDimensions as (?:\w+::)*Mul(?:<.*>)?>::mul', bd('mul', 2, lambda eng, d, a, b: e(a, d) + e(b, d))),
        ('Div', r'<BaseDimensions as (?:\w+::)*Div(?:<.*>)?>::div', bd('div', 2, lambda eng, d, a, b: e(a, d) - e(b, d))),
        ('inv', r'BaseDimensions::inv', bd('inv', 1, lambda eng, d, a: -e(a, d))),
        ('pow', r'<BaseDimensions as (?:\w+::)*MulDiv>::pow', bd('pow', 2, lambda eng, d, a, p: e(a, d) * exponent(cfg, p))),
    ) if n not in skip] + ([] if 'eq' in skip else [FnContract('BaseDimensions: PartialEq', key_re(rf'<BaseDimensions as (?:\w+::)*PartialEq(?:<.*>)?>::{n}'), bd_eq(P, cfg, n == 'ne')) for n in ('eq', 'ne')])


def bd_eq(P, cfg, neg=False):
    def spec(eng, st, args):
        a, b = [fields_of(P, eng.to_u(eng.deref_all(x, st), st)) for x in args]
        d = eng.binder(U)
        r = z3.ForAll([d], E_(cfg, a, d) == E_(cfg, b, d))
        return z3.Not(r) if neg else r
    return spec


def mag_op_contracts():
    out = [term_contract(f'<Magnitude as {t}>::{n} (C02)', rf'<Magnitude as (?:\w+::)*{t}(?:<Magnitude>)?>::{n}', uf('mag.' + n, U, U, U), Ty('path', 'Magnitude'))
           for t, n in (('Mul', 'mul'), ('Div', 'div'))]
    out.append(term_contract('DimensionExponent::float_pow (C02)', r'<(?:Ratio|i64) as (?:\w+::)*DimensionExponent>::float_pow', uf('mag.pow', U, U, U), Ty('path', 'Magnitude')))
    out.append(term_contract('Magnitude::from_f64 (C01)', r'Magnitude::from_f64', enc, Ty('path', 'Magnitude')))
    return out


def int_exp_contracts():
    i64 = Ty('path', 'i64')
    k = lambda n: key_re(rf'<i64 as (?:\w+::)*DimensionExponent>::{n}')
    return [FnContract('<i64 as DimensionExponent>::zero', k('zero'), lambda eng, st, args: z3.IntVal(0)),
            FnContract('<i64 as DimensionExponent>::one', k('one'), lambda eng, st, args: z3.IntVal(1)),
            FnContract('<i64 as DimensionExponent>::from_int', k('from_int'), lambda eng, st, args: eng.deref_all(args[0], st))]


def us_engine(P, cfg, contracts=(), skip=(), **kw):
    eng = rt_engine(P, list(contracts) + ratio_contracts() + int_exp_contracts() + bd_contracts(P, cfg, skip) + mag_op_contracts(), **kw)
    if cfg == 'integer':
        eng.theory = eng.theory + int_axioms(cfg)
    return eng


arith_ok = lambda msg: 'overflow' in msg


def c11_dims(ck, P, cfg, keys=False):
    """the arithmetic of dimensions: exponents, or (keys) the base dimensions that are mentioned at all"""
    A, B = z3.Const('a', U), z3.Const('b', U)
    e = lambda u, d: E_(cfg, fields_of(P, u), d)

    def run(fn, x, args, val, skip, loop=None, mk=None):
        eng = us_engine(P, cfg, skip=skip)
        if keys:
            eng.theory = eng.theory + key_axioms(P)
        sink = []
        if loop:
            inv = loop(eng, sink)
            eng.loop_spec = lambda item: C.AutoLoop([inv])
        st = State(eng)
        vs = args(eng, st)
        for o in outcomes(ck, eng, fn, x, vs, st, arith_ok):
            r = eng.to_u(o.val, o.st)
            d = z3.Const('d', U)
            if keys:
                of = {'none': lambda d: z3.BoolVal(False), 'for_base_dimension': lambda d: d == A}.get(skip[0], lambda d: z3.Or([HAS(fields_of(P, u), d) for u in us]))
                us = [v.t for v in vs if isinstance(v, Opq) and v.ty == BD]
                ck.prove(fn, 'mentions base dimensions of its operands only', o.st.pc, z3.Implies(HAS(fields_of(P, r), d), of(d)), eng.axioms(), vocab=us_vocab)
            else:
                ck.prove(fn, 'exponent of every base dimension', o.st.pc, e(r, d) == val(eng, o.st, d), eng.axioms(), vocab=us_vocab)
        sinks(ck, fn, sink)

    def one(name, x, args, val, skip, loop=None):
        fn = f'BaseDimensions {name} [{cfg}]'
        ck.guard(fn, lambda: run(fn, x(), args, val, skip, loop))
    bd = lambda *us: lambda eng, st: [Opq(u, BD) for u in us]
    zero = z3.RealVal(0)
    one('none', lambda: method(P, 'BaseDimensions', 'none'), lambda eng, st: [], lambda eng, st, d: zero, ['none'])
    one('for_base_dimension', lambda: method(P, 'BaseDimensions', 'for_base_dimension'), lambda eng, st: [Opq(A, Ty('path', 'BaseDimension'))],
        lambda eng, st, d: z3.If(d == A, z3.RealVal(1), zero), ['for_base_dimension'])

    def mul_inv(eng, sink):
        def inv(eng, fr, st, it, V):
            m = map_var(eng, fr, st)
            d = eng.binder(U)
            rhs = fields_of(P, B)
            ks = z3.ForAll([d], z3.Implies(HAS(m, d), z3.Or(HAS(fields_of(P, A), d), HAS(V, d)))) if keys else True
            return z3.And(z3.ForAll([d], E_(cfg, m, d) == e(A, d) + z3.If(HAS(V, d), E_(cfg, rhs, d), zero)), ks)
        return C.ForInv(inv, modifies=lambda eng, fr, st: [map_cell(eng, fr, st)], sink=sink, name='loop over the right-hand side')

    def inv_inv(eng, sink):
        def inv(eng, fr, st, it, V):
            m = fields_of(P, eng.to_u(st.mem[self_cell(eng, fr, st)], st))
            d = eng.binder(U)
            a = fields_of(P, A)
            return z3.And(z3.ForAll([d], HAS(m, d) == HAS(a, d)),
                          z3.ForAll([d], E_(cfg, m, d) == z3.If(HAS(V, d), -E_(cfg, a, d), E_(cfg, a, d))))
        return C.ForInv(inv, modifies=lambda eng, fr, st: [self_cell(eng, fr, st)], sink=sink, name='loop over the exponents')
    one('Mul::mul', lambda: method(P, 'BaseDimensions', 'mul', 'Mul'), bd(A, B), lambda eng, st, d: e(A, d) + e(B, d), ['Mul'], mul_inv)
    one('inv', lambda: method(P, 'BaseDimensions', 'inv'), bd(A), lambda eng, st, d: -e(A, d), ['inv'], inv_inv)
    one('Div::div', lambda: method(P, 'BaseDimensions', 'div', 'Div'), bd(A, B), lambda eng, st, d: e(A, d) - e(B, d), ['Div'])
    p = {}

    def pargs(eng, st):
        p['v'] = eng.fresh(RATIO_TY if cfg == 'rational' else Ty('path', 'i64'), st, 'p')
        return [Opq(A, BD), p['v']]
    one('MulDiv::pow', lambda: method(P, 'BaseDimensions', 'pow', 'MulDiv'), pargs, lambda eng, st, d: e(A, d) * exp_value(eng, st, cfg, p['v']), ['pow'])
    if keys:
        return

    fn = f'<BaseDimensions as PartialEq>::eq [{cfg}]'
    ck.guard(fn, lambda: bd_eq_body(ck, P, cfg, fn))
    ck.guard(f'DimensionsAndMagnitude [{cfg}]', lambda: c11_dam(ck, P, cfg))


def key_axioms(P):
    """contract of the dimension arithmetic on the base dimensions mentioned (proved in c11_dims(keys=True))"""
    a, b, k = [z3.Const(n, U) for n in ('a!k', 'b!k', 'k!k')]
    f = lambda u: fields_of(P, u)
    out = [z3.ForAll([k], z3.Not(HAS(f(uf('bd.none', U)()), k)), patterns=[HAS(f(uf('bd.none', U)()), k)])]
    base = f(uf('bd.base', U, U)(a))
    out.append(z3.ForAll([a, k], z3.Implies(HAS(base, k), k == a), patterns=[HAS(base, k)]))
    for n in ('mul', 'div'):
        t = f(uf('bd.' + n, U, U, U)(a, b))
        out.append(z3.ForAll([a, b, k], z3.Implies(HAS(t, k), z3.Or(HAS(f(a), k), HAS(f(b), k))), patterns=[HAS(t, k)]))
    for t in (uf('bd.inv', U, U)(a), uf('bd.pow', U, U, U)(a, b)):
        out.append(z3.ForAll([a, b, k] if 'bd.pow' in str(t) else [a, k], z3.Implies(HAS(f(t), k), HAS(f(a), k)), patterns=[HAS(f(t), k)]))
    return out


def bd_eq_body(ck, P, cfg, fn):
    A, B = z3.Const('a', U), z3.Const('b', U)
    eng = us_engine(P, cfg, skip=['eq'])
    st = State(eng)
    d = z3.Const('d', U)
    a, b = fields_of(P, A), fields_of(P, B)
    for o in outcomes(ck, eng, fn, method(P, 'BaseDimensions', 'eq', 'PartialEq'), [Ref(st.cell(Opq(u, BD))) for u in (A, B)], st):
        ck.prove(fn, 'equal exactly when every base dimension has the same exponent, absent meaning zero', o.st.pc,
                 o.val == z3.ForAll([d], E_(cfg, a, d) == E_(cfg, b, d)), eng.axioms(), vocab=us_vocab)


def dam_fields(P):
    fs = [n for n, _ in P.struct_fields('DimensionsAndMagnitude')]
    if sorted(fs) != ['dimensions', 'magnitude']:
        raise Unsupported('DimensionsAndMagnitude has other fields')
    return fs.index('dimensions'), fs.index('magnitude')


def c11_dam(ck, P, cfg):
    di, mi = dam_fields(P)
    A, B = z3.Const('a', U), z3.Const('b', U)
    D, Mg = (lambda t: uf(str(di), U, U)(t)), (lambda t: uf(str(mi), U, U)(t))
    e = lambda u, d: E_(cfg, fields_of(P, u), d)
    mag = lambda n: (lambda a, b: uf('mag.' + n, U, U, U)(a, b))
    d = z3.Const('d', U)
    zero = z3.RealVal(0)

    def go(name, x, args, dim, mg):
        fn = f'DimensionsAndMagnitude {name} [{cfg}]'

        def run():
            eng = us_engine(P, cfg)
            st = State(eng)
            vs = args(eng, st)
            for o in outcomes(ck, eng, fn, x(), vs, st, arith_ok):
                r = eng.to_u(o.val, o.st)
                ck.prove(fn, 'exponents', o.st.pc, e(D(r), d) == dim(eng, o.st, vs), eng.axioms(), vocab=us_vocab)
                ck.prove(fn, 'magnitude', o.st.pc, Mg(r) == mg(eng, o.st, vs), eng.axioms(), vocab=us_vocab)
        ck.guard(fn, run)
    two = lambda eng, st: [Opq(A, DAM), Opq(B, DAM)]
    go('Mul::mul', lambda: method(P, 'DimensionsAndMagnitude', 'mul', 'Mul'), two, lambda eng, st, vs: e(D(A), d) + e(D(B), d), lambda eng, st, vs: mag('mul')(Mg(A), Mg(B)))
    go('Div::div', lambda: method(P, 'DimensionsAndMagnitude', 'div', 'Div'), two, lambda eng, st, vs: e(D(A), d) - e(D(B), d), lambda eng, st, vs: mag('div')(Mg(A), Mg(B)))
    pw = lambda eng, st: [Opq(A, DAM), eng.fresh(RATIO_TY if cfg == 'rational' else Ty('path', 'i64'), st, 'p')]
    go('MulDiv::pow', lambda: method(P, 'DimensionsAndMagnitude', 'pow', 'MulDiv'), pw, lambda eng, st, vs: e(D(A), d) * exp_value(eng, st, cfg, vs[1]),
       lambda eng, st, vs: mag('pow')(Mg(A), eng.to_u(vs[1], st)))
    go('magnitude', lambda: method(P, 'DimensionsAndMagnitude', 'magnitude'), lambda eng, st: [Opq(A, Ty('path', 'Magnitude'))], lambda eng, st, vs: zero, lambda eng, st, vs: A)
    go('dimensions', lambda: method(P, 'DimensionsAndMagnitude', 'dimensions'), lambda eng, st: [Opq(A, BD)], lambda eng, st, vs: e(A, d),
       lambda eng, st, vs: enc(z3.Const('f64:1.0', U)))


# ------------------------------------------------------------------ expressions over leaves: lemmas by structural induction
RV, FRV = uf('spec.value', U, U, U), uf('spec.fvalue', U, U, U)


def rv_unfold(S, e, s, ty):
    """the mathematical value of an expression under the leaf valuation s, by recursion on the written expression"""
    l, r, o = S.bin(e)
    if ty == 'Expr':
        return [z3.Implies(S.is_(e, S.ev, 'Value'), RV(e, s) == FRV(S.val(e), s)),
                z3.Implies(z3.And(S.is_(e, S.ev, 'Binary'), S.is_(o, S.ov, 'Mul')), RV(e, s) == MUL(RV(l, s), FRV(r, s))),
                z3.Implies(z3.And(S.is_(e, S.ev, 'Binary'), S.is_(o, S.ov, 'Div')), RV(e, s) == DIV(RV(l, s), FRV(r, s)))]
    return [z3.Implies(S.is_(e, S.fv, 'Value'), FRV(e, s) == APP(s, S.p(e, 'Value', 0))),
            z3.Implies(S.is_(e, S.fv, 'Power'), FRV(e, s) == POW(APP(s, S.p(e, 'Power', 0)), INTO(S.p(e, 'Power', 1)))),
            z3.Implies(S.is_(e, S.fv, 'ParenExpr'), FRV(e, s) == RV(S.p(e, 'ParenExpr', 0), s))]


def map_unfold(S, eng, st, e, f, ty):
    """EMAP / FMAP unfolded at e, with the constructor facts of the result"""
    mk = lambda t, v, fs: eng.to_u(Agg(Ty('path', t), v, [Opq(z, Ty('path', 'T')) for z in fs]), st)
    if ty == 'Expr':
        l, r, o = S.bin(e)
        parts = {S.lhs: EMAP(l, f), S.rhs: FMAP(r, f), S.op: o}
        b = mk('BinaryOperator', None, [parts[i] for i in sorted(parts)])
        return [z3.Implies(S.is_(e, S.ev, 'Value'), EMAP(e, f) == mk('Expr', 'Value', [FMAP(S.val(e), f)])),
                z3.Implies(S.is_(e, S.ev, 'Binary'), EMAP(e, f) == mk('Expr', 'Binary', [b]))]
    return [z3.Implies(S.is_(e, S.fv, 'Value'), FMAP(e, f) == mk('Factor', 'Value', [APP(f, S.p(e, 'Value', 0))])),
            z3.Implies(S.is_(e, S.fv, 'Power'), FMAP(e, f) == mk('Factor', 'Power', [APP(f, S.p(e, 'Power', 0)), S.p(e, 'Power', 1)])),
            z3.Implies(S.is_(e, S.fv, 'ParenExpr'), FMAP(e, f) == mk('Factor', 'ParenExpr', [EMAP(S.p(e, 'ParenExpr', 0), f)]))]


def induct(ck, name, S, stmt, unfold, hyp=lambda e, ty: []):
    """one step of structural induction over finite expression trees: stmt(e, ty) from stmt of the direct parts"""
    for ty in ('Expr', 'Factor'):
        eng = rt_engine(S.P, [])
        st = State(eng)
        e = z3.Const('e', U)
        l, r, o = S.bin(e)
        wf = [z3.Or([S.is_(e, S.ev if ty == 'Expr' else S.fv, v) for v in (('Value', 'Binary') if ty == 'Expr' else ('Value', 'Power', 'ParenExpr'))])]
        if ty == 'Expr':
            wf.append(z3.Implies(S.is_(e, S.ev, 'Binary'), z3.Or([S.is_(o, S.ov, v) for v in ('Mul', 'Div')])))
            ih = [z3.Implies(S.is_(e, S.ev, 'Value'), stmt(S.val(e), 'Factor')),
                  z3.Implies(S.is_(e, S.ev, 'Binary'), z3.And(stmt(l, 'Expr'), stmt(r, 'Factor')))]
        else:
            ih = [z3.Implies(S.is_(e, S.fv, 'ParenExpr'), stmt(S.p(e, 'ParenExpr', 0), 'Expr'))]
        ax = unfold(eng, st, e, ty)
        ck.prove('lemma: ' + name, f'induction step ({ty})', wf + ih + ax, stmt(e, ty), eng.axioms(), vocab=us_vocab)
        ck.covers += 1


def leaf_of(e, v, ty):
    return (LEAF if ty == 'Expr' else FLEAF)(e, v)


def map_of(e, f, ty):
    return (EMAP if ty == 'Expr' else FMAP)(e, f)


def expr_lemmas():
    """the lemmas as axioms for the obligations of callers"""
    e, f, g, v = [z3.Const(n, U) for n in ('e!l', 'f!l', 'g!l', 'v!l')]
    return [z3.ForAll([e, f], EV(EMAP(e, f)) == RV(e, f), patterns=[EV(EMAP(e, f))]),
            z3.ForAll([e, f, g], z3.Implies(z3.ForAll([v], z3.Implies(LEAF(e, v), APP(f, v) == APP(g, v))), RV(e, f) == RV(e, g)),
                      patterns=[z3.MultiPattern(RV(e, f), RV(e, g))]),
            z3.ForAll([e, f, v], z3.Implies(LEAF(EMAP(e, f), v), z3.Exists([g], z3.And(LEAF(e, g), APP(f, g) == v))), patterns=[LEAF(EMAP(e, f), v)]),
            z3.ForAll([e, f, v], z3.Implies(LEAF(e, v), LEAF(EMAP(e, f), APP(f, v))), patterns=[z3.MultiPattern(LEAF(e, v), EMAP(e, f))])]


def comp_lemma(h, g, f):
    """RV(EMAP(e, f), g) = RV(e, h) if h = g after f on the leaves of e"""
    e, v = z3.Const('e!l', U), z3.Const('v!l', U)
    return z3.ForAll([e], z3.Implies(z3.ForAll([v], z3.Implies(LEAF(e, v), APP(h, v) == APP(g, APP(f, v)))), RV(EMAP(e, f), g) == RV(e, h)), patterns=[RV(EMAP(e, f), g)])


def c11_lemmas(ck, P, cfg):
    S = Shape(P)
    f, g, h = [z3.Const(n, U) for n in 'fgh']
    v, w, b = z3.Const('v', U), z3.Const('w', U), z3.Const('b', U)

    def go():
        # L1: evaluating the mapped expression = value under the leaf valuation
        def un1(eng, st, e, ty):
            m = map_of(e, f, ty)
            ax = map_unfold(S, eng, st, e, f, ty) + rv_unfold(S, e, f, ty)
            return ax + (S.unfold_ev(m) if ty == 'Expr' else S.unfold_fev(m))
        val = lambda e, s, ty: (RV if ty == 'Expr' else FRV)(e, s)
        ev = lambda e, ty: (EV if ty == 'Expr' else FEV)(e)
        induct(ck, f'eval of map is the value under the valuation [{cfg}]', S, lambda e, ty: ev(map_of(e, f, ty), ty) == val(e, f, ty), un1)

        # L2: valuation of a mapped expression
        def un2(eng, st, e, ty):
            m = map_of(e, f, ty)
            return map_unfold(S, eng, st, e, f, ty) + rv_unfold(S, m, g, ty) + rv_unfold(S, e, h, ty) + [z3.ForAll([v], leaf_of(e, v, ty) == S.unfold_leaf(e, v, ty))]
        cond = lambda e, ty: z3.ForAll([b], z3.Implies(leaf_of(e, b, ty), APP(h, b) == APP(g, APP(f, b))))
        induct(ck, f'value of a mapped expression [{cfg}]', S, lambda e, ty: z3.Implies(cond(e, ty), val(map_of(e, f, ty), g, ty) == val(e, h, ty)), un2)

        # L3: the value depends on the leaves only
        def un3(eng, st, e, ty):
            return rv_unfold(S, e, f, ty) + rv_unfold(S, e, g, ty) + [z3.ForAll([v], leaf_of(e, v, ty) == S.unfold_leaf(e, v, ty))]
        same = lambda e, ty: z3.ForAll([b], z3.Implies(leaf_of(e, b, ty), APP(f, b) == APP(g, b)))
        induct(ck, f'the value depends on the leaves only [{cfg}]', S, lambda e, ty: z3.Implies(same(e, ty), val(e, f, ty) == val(e, g, ty)), un3)

        # L4: the leaves of a mapped expression
        def un4(eng, st, e, ty):
            m = map_of(e, f, ty)
            ax = map_unfold(S, eng, st, e, f, ty)
            return ax + [z3.ForAll([v], leaf_of(e, v, ty) == S.unfold_leaf(e, v, ty)), z3.ForAll([v], leaf_of(m, v, ty) == S.unfold_leaf(m, v, ty))]
        induct(ck, f'leaves of a mapped expression (there) [{cfg}]', S,
               lambda e, ty: z3.ForAll([w], z3.Implies(leaf_of(map_of(e, f, ty), w, ty), z3.Exists([b], z3.And(leaf_of(e, b, ty), APP(f, b) == w)))), un4)
        induct(ck, f'leaves of a mapped expression (back) [{cfg}]', S,
               lambda e, ty: z3.ForAll([b], z3.Implies(leaf_of(e, b, ty), leaf_of(map_of(e, f, ty), APP(f, b), ty))), un4)
    ck.guard(f'expression lemmas [{cfg}]', go)


def closure_term(eng, st, f, ty):
    """a function term with the input-output relation of the closure"""
    f = eng.deref_all(f, st)
    if isinstance(f, Opq):
        return f.t
    ft = C.new_term(eng, st, 'fn')
    b = eng.binder(U)
    s = C.under(st, [b])
    for c, v, s2 in C.apply(eng, s, f, [eng.val_of_term(ty, b, s)]):
        C.fresh_check(eng, c, [b])
        st.assume(z3.ForAll([b], z3.Implies(c, APP(ft, b) == eng.to_u(v, s2)), patterns=[APP(ft, b)]))
    return ft


LEAFTY = Ty('path', 'Factor', (DAM,))


def leaf_type_of(eng, v, st, default):
    v = eng.deref_all(v, st)
    t = v.ty if isinstance(v, (Opq, Agg)) else None
    if isinstance(t, Ty) and t.kind == 'path' and t.last == 'Expr' and t.args:
        return t.args[0]
    return default


def dam_contracts():
    return [term_contract('DimensionsAndMagnitude::' + n, rf'DimensionsAndMagnitude::{n}', uf('dam.' + n, U, U), DAM) for n in ('magnitude', 'dimensions')] + \
        [term_contract('BaseDimension::from_dimension', r'BaseDimension::from_dimension', uf('spec.basedim', U, U), Ty('path', 'BaseDimension'))]


def expr_contracts():
    def mp(eng, st, args):
        t = leaf_type_of(eng, args[0], st, Ty('path', 'Factor', (Ty('path', 'Magnitude'),)))
        e = eng.to_u(eng.deref_all(args[0], st), st)
        return Opq(EMAP(e, closure_term(eng, st, args[1], t)), Ty('path', 'Expr', (LEAFTY, Ty('path', 'Exponent'))))
    return [FnContract('Expr::map', key_re(r'Expr<.*>::map(?:<.*>)?'), mp), term_contract('Expr::eval', r'Expr<.*>::eval', EV, DAM), it_contract(r'Expr<.*>::iter_vals', LEAF)]


class Names:
    """field positions of the structures involved, read from the source"""

    def __init__(self, P):
        def idx(ty, *fs):
            have = [n for n, _ in P.struct_fields(ty)]
            for f in fs:
                if f not in have:
                    raise Unsupported(f'{ty} has no field {f}')
            return [have.index(f) for f in fs]
        self.P = P
        self.unresolved, self.resolved = idx('IdentStorage', 'unresolved', 'resolved')
        self.expr, self.type_ = idx('Item', 'expr', 'type_')
        self.ritem, self.rdims = idx('ResolvedItem', 'item', 'dimensions')
        v = [x for x in P.enum_variants('Factor') if 'Concrete' in x]
        if len(v) != 1:
            raise Unsupported('types::Factor not found')
        self.lv = v[0]
        self.uann, self.uname, self.usym, self.udef, self.uauto = idx('UnitEntry', 'dimension_annotation', 'name', 'symbol', 'definition', 'autogenerated_from')
        self.cann, self.cname, self.crhs = idx('ConstantEntry', 'dimension_annotation', 'name', 'rhs')
        self.dname, self.drhs = idx('DimensionEntry', 'name', 'rhs')

    def variants(self, ty, *vs):
        c = [x for x in self.P.enum_variants(ty) if all(v in x for v in vs)]
        if len(c) != 1:
            raise Unsupported(f'{ty}: variants not found')
        return c[0]

    @staticmethod
    def p(t, i, var=None):
        return uf(f'{var + "." if var else ""}{i}', U, U)(t)

    @staticmethod
    def d(t):
        return uf('discr', U, INT)(t)

    def concrete(self, v):
        return self.d(v) == self.lv.index('Concrete')

    def other(self, v):
        return self.d(v) == self.lv.index('Other')

    def value(self, v):
        return self.p(v, 0, 'Concrete')

    def ident(self, v):
        return self.p(v, 0, 'Other')

    # item accessors (specification functions)
    def item_name(self, it):
        ty = self.p(it, self.type_)
        iv = self.variants('ItemType', 'Dimension', 'Unit', 'Constant')
        n = {'Dimension': self.dname, 'Unit': self.uname, 'Constant': self.cname}
        r = self.p(self.p(ty, 0, 'Constant'), n['Constant'])
        for v in ('Unit', 'Dimension'):
            r = z3.If(self.d(ty) == iv.index(v), self.p(self.p(ty, 0, v), n[v]), r)
        return r

    def item_is(self, it, v):
        return self.d(self.p(it, self.type_)) == self.variants('ItemType', 'Dimension', 'Unit', 'Constant').index(v)

    def item_entry(self, it, v):
        return self.p(self.p(it, self.type_), 0, v)

    def base_unit(self, it):
        dv = self.variants('Definition', 'Base', 'Expression')
        return z3.And(self.item_is(it, 'Unit'), self.d(self.p(self.item_entry(it, 'Unit'), self.udef)) == dv.index('Base'))

    def kind(self, it):
        """index of the kind of an item"""
        kv = self.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
        k = lambda n: z3.IntVal(kv.index(n))
        return z3.If(self.item_is(it, 'Dimension'), k('Dimension'), z3.If(self.item_is(it, 'Constant'), k('Constant'), z3.If(self.base_unit(it), k('BaseUnit'), k('Unit'))))

    def wf_item(self, it):
        """the discriminants of a value of type Item"""
        dv = self.variants('Definition', 'Base', 'Expression')
        v = z3.Const('v!wf', U)
        ty = self.d(self.p(it, self.type_))
        ud = self.d(self.p(self.item_entry(it, 'Unit'), self.udef))
        return z3.And(ty >= 0, ty <= 2, ud >= 0, ud <= 1, z3.ForAll([v], z3.Implies(LEAF(self.p(it, self.expr), v), z3.Or(self.concrete(v), self.other(v)))))


def valuation(N, g, rs, e):
    """g maps a written number to itself and a resolved name to the dimensions and magnitude stored for it"""
    v = z3.Const('v!g', U)
    return z3.ForAll([v], z3.Implies(LEAF(e, v), APP(g, v) == z3.If(N.concrete(v), N.value(v), N.p(GET(rs, N.ident(v)), N.rdims))), patterns=[APP(g, v)])


def c11_resolve(ck, P, cfg):
    fn = f'IdentStorage::resolve_dimensions [{cfg}]'

    def go():
        N = Names(P)
        eng = us_engine(P, cfg, expr_contracts())
        st = State(eng)
        s, it, g = z3.Const('s', U), z3.Const('it', U), z3.Const('g', U)
        rs, e = N.p(s, N.resolved), N.p(it, N.expr)
        v = z3.Const('v', U)
        st.assume(N.wf_item(it))
        st.assume(z3.ForAll([v], z3.Implies(z3.And(LEAF(e, v), N.other(v)), HAS(rs, N.ident(v)))))
        st.assume(valuation(N, g, rs, e))
        for o in outcomes(ck, eng, fn, method(P, 'IdentStorage', 'resolve_dimensions'), [Ref(st.cell(Opq(s, Ty('path', 'IdentStorage')))), Ref(st.cell(Opq(it, Ty('path', 'Item'))))], st):
            ck.prove(fn, 'is the value of the item\'s expression with every name standing for the dimensions and magnitude stored for it',
                     o.st.pc + expr_lemmas(), eng.to_u(o.val, o.st) == RV(e, g), eng.axioms(), vocab=us_vocab)
    ck.guard(fn, go)

    # how definitions become items
    def conv(src, entry_field, mk, base=None):
        fn = f'<Item as From<{src}>>::from [{cfg}]'

        def go():
            N = Names(P)
            eng = us_engine(P, cfg, expr_contracts() + dam_contracts())
            st = State(eng)
            en, g = z3.Const('entry', U), z3.Const('g', U)
            x = method(P, 'Item', 'from', 'From', lambda x, i: i.trait.args and i.trait.args[0].last == src)
            dv = N.variants('Definition', 'Base', 'Expression')
            rhs = N.p(en, entry_field(N))
            isexpr = z3.BoolVal(True) if src == 'ConstantEntry' else N.d(rhs) == dv.index('Expression')
            e = rhs if src == 'ConstantEntry' else N.p(rhs, 0, 'Expression')
            if src != 'ConstantEntry':
                st.assume(z3.And(N.d(rhs) >= 0, N.d(rhs) <= 1))
            v = z3.Const('v', U)
            st.assume(z3.ForAll([v], z3.Implies(LEAF(e, v), z3.Or(N.concrete(v), N.other(v)))))
            for o in outcomes(ck, eng, fn, x, [Opq(en, Ty('path', src))], st):
                r = eng.to_u(o.val, o.st)
                kind = src[:-5]
                ck.prove(fn, 'keeps the entry', o.st.pc, z3.And(N.item_is(r, kind), N.item_entry(r, kind) == en), eng.axioms(), vocab=us_vocab)
                # leaves: the written ones, numbers turned into dimensions and magnitudes
                ex = N.p(r, N.expr)
                w = z3.Const('w', U)
                ck.prove(fn, 'every name of the definition is a name of the item', o.st.pc + expr_lemmas() + [isexpr, LEAF(e, w), N.other(w)],
                         z3.Exists([v], z3.And(LEAF(ex, v), N.other(v), N.ident(v) == N.ident(w))), eng.axioms(), vocab=us_vocab)
                ck.prove(fn, 'every name of the item is a name of the definition', o.st.pc + expr_lemmas() + [isexpr, LEAF(ex, w), N.other(w)],
                         z3.Exists([v], z3.And(LEAF(e, v), N.other(v), N.ident(v) == N.ident(w))), eng.axioms(), vocab=us_vocab)
                # value: under any valuation of the names, numbers being what they denote
                h = z3.Const('h', U)
                c, dm = z3.Const('c', U), z3.Const('d', U)
                num = z3.Const('numbers', U)
                fs = function_terms(o.st.pc + [r == r])
                ax = [z3.ForAll([v], APP(h, v) == z3.If(N.concrete(v), APP(num, N.value(v)), APP(g, v)), patterns=[APP(h, v)]),
                      z3.ForAll([v], z3.Implies(N.concrete(v), APP(g, v) == N.value(v)), patterns=[APP(g, v)]),
                      # the valuation looks at names only
                      z3.ForAll([v, w], z3.Implies(z3.And(N.other(v), N.other(w), N.ident(v) == N.ident(w)), APP(g, v) == APP(g, w)))] + mk(N, num, c, dm)
                ax += [comp_lemma(h, g, f) for f in fs]
                ck.prove(fn, 'has the value of the written definition', o.st.pc + expr_lemmas() + ax + [isexpr], RV(ex, g) == RV(e, h), eng.axioms(), vocab=us_vocab)
                if base is not None:
                    ck.prove(fn, 'a base definition stands for ' + base[0], o.st.pc + [z3.Not(isexpr)], base[1](N, eng, o.st, en, rhs, ex), eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)
    di, mi = dam_fields(P)
    D, Mg = (lambda t: uf(str(di), U, U)(t)), (lambda t: uf(str(mi), U, U)(t))
    ex_ = lambda u, d: E_(cfg, fields_of(P, u), d)
    none = lambda N, num, c, d: [z3.ForAll([c], APP(num, c) == uf('dam.magnitude', U, U)(c), patterns=[APP(num, c)])]
    one = lambda N, num, c, d: [z3.ForAll([c], APP(num, c) == uf('dam.dimensions', U, U)(uf('bd.none', U)()), patterns=[APP(num, c)])]
    S = Shape(P)

    def leafval(N, ex):
        f = S.val(ex)
        return z3.And(S.is_(ex, S.ev, 'Value'), S.is_(f, S.fv, 'Value')), S.p(f, 'Value', 0)

    def base_dim(N, eng, st, en, rhs, ex):
        ok, v = leafval(N, ex)
        return z3.And(ok, N.concrete(v), N.value(v) == uf('dam.dimensions', U, U)(uf('bd.base', U, U)(uf('spec.basedim', U, U)(N.p(en, N.dname)))))

    def base_unit(N, eng, st, en, rhs, ex):
        ok, v = leafval(N, ex)
        return z3.And(ok, N.other(v), N.ident(v) == N.p(rhs, 0, 'Base'))
    conv('DimensionEntry', lambda N: N.drhs, one, ('the base dimension of its name', base_dim))
    conv('UnitEntry', lambda N: N.udef, none, ('the dimension it names', base_unit))
    conv('ConstantEntry', lambda N: N.crhs, none)


def function_terms(es):
    """the function terms introduced for closures"""
    out, seen, todo = {}, set(), list(es)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name() == 'spec.app':
            f = x.arg(0)
            if z3.is_const(f) and f.decl().name().startswith('fn'):
                out[f.get_id()] = f
        todo += x.children()
    return list(out.values())


def map_cell(eng, fr, st):
    """the (only) local that holds an exponent map being built"""
    c = []
    for l, cell in fr['cells'].items():
        v = st.mem.get(cell)
        if isinstance(v, (Opq, Agg)) and isinstance(v.ty, Ty) and v.ty.kind == 'path' and v.ty.last in ('HashMap', 'BTreeMap') and \
                l in fr['fn'].locals and any(l == dbg for d in fr['fn'].debug.values() for dbg in d):
            c.append(cell)
    if len(c) != 1:
        raise Unsupported('accumulated map not found')
    return c[0]


def map_var(eng, fr, st):
    return eng.to_u(st.mem[map_cell(eng, fr, st)], st)


def self_cell(eng, fr, st):
    return fr['cells']['_1']


def c11(ck):
    for cfg in CFGS:
        P = us_prog(cfg)
        c11_eval(ck, P, cfg)
        c11_map(ck, P, cfg)
        c11_dims(ck, P, cfg)
        c11_lemmas(ck, P, cfg)
        c11_resolve(ck, P, cfg)


