"""C04 (compile-time dimension arithmetic of the generated code) and C19 (runtime unit storage)"""
import re
import z3
from mir import *
from engine import *
import models as M
import coll as C
import extract
from props_lib import lib_prog, find_inherent, find_trait, FnContract

RU = 'RuntimeUnit'


def std_vocab(n):
    return n.startswith(('seq.', 'map.', 'mk:', 'array/', 'u<', 'str:', 'src!', 'dst!', 'wit', 'pos!', 'at0!', 'at1!', 'at2!', 'const:')) or n in ('discr', 'int', 'bool') or \
        re.fullmatch(r'(?:\w+\.)?\d+', n) is not None


def engine(P, contracts=(), models=(), **kw):
    e = Engine(P, mode='int', models=list(models) + C.COLLECTIONS + M.BASIC, contracts=list(contracts), **kw)
    C.install(e)
    e.loop_spec = lambda item: C.AutoLoop()
    return e


def c19(ck):
    for cfg in ('std', 'nostd'):
        P = lib_prog(cfg)
        fields = P.struct_fields('RuntimeUnit')
        sfields = P.struct_fields('RuntimeUnitStorage')
        for name, field in (('get_unit_by_symbol', 'symbol'), ('get_first_unit_for_dimension', 'dimension')):
            fn = f'RuntimeUnitStorage::{name} [{cfg}]'
            ck.guard(fn, lambda: lookup(ck, P, cfg, fn, name, field, fields, sfields))
        for ty, fs in (('RuntimeUnit', fields), ('RuntimeUnitStorage', sfields)):
            fn = f'{ty}::new [{cfg}]'
            ck.guard(fn, lambda: ctor(ck, P, fn, ty, fs))
    ck.assumptions |= {'PartialEq of the dimension type and of str is equality (for generated dimension types: derived, C04; for Ratio: C03)',
                       'contracts of core slice iterators (coll.py)'}


def ctor(ck, P, fn, ty, fs):
    x = find_inherent(P, ty, 'new')
    eng = engine(P)
    st = State(eng)
    names = re.findall(r'debug (\w+) => (_\d+);', '\n'.join(x.body))
    byloc = {l: n for n, l in names}
    args, spec = [], {}
    for l, t in x.args():
        v = eng.fresh(strip_life(t), st, 'a')
        args.append(v)
        if byloc.get(l) in [f for f, _ in fs]:
            spec[byloc[l]] = v
    if set(spec) != {f for f, _ in fs}:
        raise Unsupported('constructor arguments are not named after the fields')
    n = 0
    for o in eng.call_body(x, args, st, {}):
        if o.kind != 'ret':
            ck.prove(fn, 'does not panic', o.st.pc, z3.BoolVal(False), eng.axioms())
            continue
        n += 1
        for i, (f, t) in enumerate(fs):
            got = eng.field(o.val, None, i, strip_life(parse_ty(t)) if isinstance(t, str) else t, o.st)
            ck.prove(fn, f'field {f} is the argument of that name', o.st.pc, eng.to_u(got, o.st) == eng.to_u(spec[f], o.st), eng.axioms(), vocab=std_vocab)
    ck.covers += bool(n)
    ck.use(eng)


def lookup(ck, P, cfg, fn, name, field, fields, sfields):
    x = find_inherent(P, 'RuntimeUnitStorage', name)
    eng = engine(P)
    eng.generic_params = {'D'}
    st = State(eng)
    args = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    fi = [f for f, _ in fields].index(field)
    ui = [f for f, _ in sfields].index('units')
    self_t = eng.to_u(args[0], st)
    units = eng.proj(self_t, None, ui)
    want = eng.to_u(args[1], st)
    match = lambda i: eng.proj(C.AT(units, i), None, fi) == want
    n = C.LEN(units)
    rets = 0
    for o in eng.call_body(x, args, st, {}):
        if o.kind == 'panic':
            ck.prove(fn, 'does not panic: ' + o.msg[:40], o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=std_vocab)
            continue
        if o.kind != 'ret':
            continue
        rets += 1
        i, j = z3.Ints('i j')
        d = eng.discr(o.val, o.st)
        none = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(match(i))), patterns=[C.AT(units, i)])
        u = eng.to_u(eng.field(o.val, 'Some', 0, Ty('path', RU), o.st), o.st) if not (isinstance(o.val, Agg) and o.val.var == 'None') else None
        first = z3.BoolVal(False) if u is None else z3.Exists([i], z3.And(
            0 <= i, i < n, C.AT(units, i) == u, match(i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(match(j))), patterns=[C.AT(units, j)])), patterns=[C.AT(units, i)])
        ck.prove(fn, f'nothing only when no registered unit has this {field}', o.st.pc, z3.Implies(d == 0, none), eng.axioms(), vocab=std_vocab)
        ck.prove(fn, f'otherwise the first registered unit with this {field}, unchanged', o.st.pc, z3.Implies(d == 1, first), eng.axioms(), vocab=std_vocab)
    if not rets:
        ck.und(fn, 'no returning path')
    ck.covers += bool(rets)
    ck.use(eng)


# ------------------------------------------------------------------ C04
RAT = uf('ratio.value', U, z3.RealSort())
RATIO_TY = Ty('path', 'Ratio')


def ratio_contracts():
    """contracts of diman_lib::Ratio (proved for its bodies in C03), over the rational value a Ratio stands for"""
    def op(name, n, val, pre=None):
        f = uf('ratio.' + name, *([U] * n), U)

        def spec(eng, st, args):
            us = [eng.to_u(eng.deref_all(a, st), st) for a in args]
            t = f(*us)
            rs = [RAT(u) for u in us]
            fs = RAT(t) == val(*rs)
            eng.facts.setdefault(('ratio', t.get_id()), (t, [z3.Implies(pre(*rs), fs) if pre else fs]))
            return Opq(t, RATIO_TY)
        return spec
    add, sub, mul = op('add', 2, lambda a, b: a + b), op('sub', 2, lambda a, b: a - b), op('mul', 2, lambda a, b: a * b)
    div = op('div', 2, lambda a, b: a / b, lambda a, b: b != 0)
    neg = op('neg', 1, lambda a: -a)

    def int_(eng, st, args):
        v = eng.deref_all(args[0], st)
        v = v if z3.is_expr(v) else z3.IntVal(v)
        t = uf('ratio.int', INT, U)(v)
        eng.facts.setdefault(('ratio', t.get_id()), (t, [RAT(t) == z3.ToReal(v)]))
        return Opq(t, RATIO_TY)

    def num_(i):
        def spec(eng, st, args):
            u = eng.to_u(eng.deref_all(args[0], st), st)
            n, d = uf('ratio.num', U, INT)(u), uf('ratio.denom', U, INT)(u)
            eng.facts.setdefault(('ratio.nd', u.get_id()), (u, [d > 0, RAT(u) * z3.ToReal(d) == z3.ToReal(n)]))
            return (n, d)[i]
        return spec

    def eq(neg=False):
        def spec(eng, st, args):
            a, b = [RAT(eng.to_u(eng.deref_all(x, st), st)) for x in args]
            return a != b if neg else a == b
        return spec

    def new(eng, st, args):
        n, d = [eng.deref_all(x, st) for x in args]
        n, d = [x if z3.is_expr(x) else z3.IntVal(x) for x in (n, d)]
        t = uf('ratio.new', INT, INT, U)(n, d)
        eng.facts.setdefault(('ratio', t.get_id()), (t, [z3.Implies(d != 0, RAT(t) * z3.ToReal(d) == z3.ToReal(n))]))
        outs = []
        if eng.feasible(st, d == 0):
            s2 = st.copy()
            s2.assume(d == 0)
            outs.append(Outcome('panic', s2, msg='denominator zero'))
            st.assume(d != 0)
        return outs + [Outcome('ret', st, Opq(t, RATIO_TY))]

    def addassign(eng, st, args):
        c, path, x = C.place_of(eng, st, args[0])
        v = add(eng, st, [x, args[1]])
        eng.store(st, c, path, v)
        return Opq(C.UNIT, None)
    out = []
    for n, f in (('add', add), ('sub', sub), ('mul', mul), ('div', div), ('neg', neg), ('int', int_), ('num', num_(0)), ('denom', num_(1)), ('new', new)):
        out.append(FnContract(f'Ratio::{n} (C03)', lambda k, n=n: k == 'Ratio::' + n, f))
    for tr, n, f in (('Add', 'add', add), ('Sub', 'sub', sub), ('Mul', 'mul', mul), ('Div', 'div', div), ('Neg', 'neg', neg),
                     ('AddAssign', 'add_assign', addassign), ('PartialEq', 'eq', eq()), ('PartialEq', 'ne', eq(True)),
                     ('DimensionExponent', 'from_int', int_)):
        out.append(FnContract(f'<Ratio as {tr}>::{n} (C03)', lambda k, n=n, tr=tr: re.fullmatch(rf'<&*Ratio as (?:\w+::)*{tr}(?:<&*Ratio>)?>::{n}', k) is not None, f))
    for n, v in (('zero', 0), ('one', 1)):
        out.append(FnContract(f'<Ratio as DimensionExponent>::{n} (C03)', lambda k, n=n: re.fullmatch(rf'<Ratio as (?:\w+::)*DimensionExponent>::{n}', k) is not None,
                              lambda eng, st, args, v=v: int_(eng, st, [z3.IntVal(v)])))
    return out


INT = z3.IntSort()
arith = lambda msg: 'overflow' in msg or 'divide by zero' in msg or 'remainder' in msg


def c04_vocab(n):
    return std_vocab(n) or n.startswith('ratio.') or n in ('tdiv', 'trem') or n.startswith(('self', 'other', 'a!', 'a'))


def c04(ck):
    import props_gen as G
    ck.assumptions |= {'exponent arithmetic that overflows i64 (i32 in the power) panics; overflow is outside the property',
                       'Ratio operations by their contracts, discharged in C03'}
    for cfg in ('all', 'norational'):
        P = G.gen_prog(cfg)
        fields = P.struct_fields('Dimension')
        if not fields:
            ck.und(f'Dimension [{cfg}]', 'dimension type not found')
            continue
        rational = any('Ratio' in str(t) or 'Exponent' in str(t) and cfg == 'all' for _, t in fields)
        for name in ('none', 'add', 'sub', 'neg', 'mul', 'div_2', 'div_3'):
            items = [x for x in P.by_last.get(name, []) if (lambda i: i and i.trait is None and i.ty and i.ty.last == 'Dimension')(P.impl_of(x.name))]
            if not items:
                ck.und(f'Dimension::{name} [{cfg}]', 'anchor not found')
            for k, x in enumerate(items):
                fn = f'Dimension::{name} [{cfg}]' + (' (const-eval body)' if k else '')
                ck.guard(fn, lambda: dim_fn(ck, P, fn, x, name, fields, rational))
        fn = f'<Dimension as PartialEq>::eq [{cfg}]'
        ck.guard(fn, lambda: dim_eq(ck, P, fn, fields, rational))


def comp(eng, st, v, i, rational):
    """exponent of base dimension i, as a real number"""
    ty = RATIO_TY if rational else Ty('path', 'i64')
    x = eng.deref_all(eng.field(v, None, i, ty, st), st)
    if rational:
        return RAT(eng.to_u(x, st))
    if isinstance(x, Opq):
        raise Unsupported('exponent is not an integer')
    return x if z3.is_expr(x) else z3.IntVal(x)


def dim_fn(ck, P, fn, x, name, fields, rational):
    eng = engine(P, ratio_contracts())
    st = State(eng)
    args = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    n = len(fields)
    A = [comp(eng, st, args[0], i, rational) for i in range(n)] if args else []
    B = [comp(eng, st, args[1], i, rational) for i in range(n)] if len(args) == 2 and name != 'mul' else []
    m = args[1] if name == 'mul' else None
    if m is not None and rational:
        m = z3.ToReal(m)
    k = {'div_2': 2, 'div_3': 3}.get(name)
    spec = {'none': lambda i, r: r == 0, 'add': lambda i, r: r == A[i] + B[i], 'sub': lambda i, r: r == A[i] - B[i],
            'neg': lambda i, r: r == -A[i], 'mul': lambda i, r: r == A[i] * m}.get(name, lambda i, r: r * k == A[i])
    what = {'none': 'zero', 'add': 'sum of the exponents', 'sub': 'difference of the exponents', 'neg': 'negated exponent',
            'mul': 'exponent times the power'}.get(name, f'exactly one {k}-th of the exponent')
    rets = 0
    for o in eng.call_body(x, args, st, {}):
        if o.kind == 'panic':
            if arith(o.msg):
                if not rational or name != 'none':
                    continue
            goal = z3.Or([A[i] % k != 0 for i in range(n)]) if k and not rational else z3.BoolVal(False)
            ck.prove(fn, 'rejects only exponents that are not divisible' if k and not rational else 'does not panic', o.st.pc, goal, eng.axioms(), vocab=c04_vocab)
            continue
        if o.kind != 'ret':
            continue
        rets += 1
        for i, (f, _) in enumerate(fields):
            ck.prove(fn, f'{f}: {what}', o.st.pc, spec(i, comp(eng, o.st, o.val, i, rational)), eng.axioms(), vocab=c04_vocab)
    if not rets:
        ck.und(fn, 'no returning path')
    ck.covers += bool(rets)
    ck.use(eng)


def dim_eq(ck, P, fn, fields, rational):
    x = find_trait(P, '::core::cmp::PartialEq', 'Dimension', 'eq')
    eng = engine(P, ratio_contracts())
    st = State(eng)
    vs = [eng.fresh(Ty('path', 'Dimension'), st, n) for n in 'ab']
    for o in eng.call_body(x, [Ref(st.cell(v)) for v in vs], st, {}):
        if o.kind != 'ret':
            ck.prove(fn, 'does not panic', o.st.pc, z3.BoolVal(False), eng.axioms())
            continue
        same = z3.And([comp(eng, o.st, vs[0], i, rational) == comp(eng, o.st, vs[1], i, rational) for i in range(len(fields))])
        ck.prove(fn, 'equal exactly when every exponent is equal', o.st.pc, o.val == same, eng.axioms(), vocab=c04_vocab)
        ck.covers += 1
    ck.use(eng)
