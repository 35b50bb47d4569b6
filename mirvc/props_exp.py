"""C15: prefixes and aliases; C20: what is generated from the resolved definitions"""
from fractions import Fraction
import re
import z3
from mir import *
from engine import *
import models as M
import coll as C
import texts as T
import extract
from coll import AT, LEN, HAS, GET
from props_lib import FnContract, enc
from props_us import us_prog, us_engine, method, function, outcomes, sinks, us_vocab, key_re, term_contract, Names, Shape, CFGS, INT, REAL, BOOL
from texts import TEXT, lit, lit_of, cat

PREFIX, ALIAS, TEMPLATE, ENTRYTY, IDENT = [Ty('path', n) for n in ('Prefix', 'Alias', 'UnitTemplate', 'UnitEntry', 'Ident')]
OPT = lambda t: Ty('path', 'Option', (t,))
REFTO = lambda t: Ty('ref', '', (t,))
# the sixteen SI prefixes: name, symbol, power of ten
SI = {'Exa': ('exa', 'E', 18), 'Peta': ('peta', 'P', 15), 'Tera': ('tera', 'T', 12), 'Giga': ('giga', 'G', 9), 'Mega': ('mega', 'M', 6), 'Kilo': ('kilo', 'k', 3),
      'Hecto': ('hecto', 'h', 2), 'Deca': ('deca', 'da', 1), 'Deci': ('deci', 'd', -1), 'Centi': ('centi', 'c', -2), 'Milli': ('milli', 'm', -3),
      'Micro': ('micro', 'μ', -6), 'Nano': ('nano', 'n', -9), 'Pico': ('pico', 'p', -12), 'Femto': ('femto', 'f', -15), 'Atto': ('atto', 'a', -18)}
PNAME, PSHORT, PFACTOR = uf('spec.prefix.name', U, U), uf('spec.prefix.symbol', U, U), uf('spec.prefix.factor', U, U)


def voc(n):
    return us_vocab(n) or T.text_vocab(n) or n.startswith(('fmt.', 'hint'))


def exp_prog(cfg):
    P = us_prog(cfg)
    if not P.enum_variants('Prefix'):
        P.add_source(extract.us_expanded(cfg))
    return P


def exp_engine(P, cfg, contracts=(), **kw):
    return us_engine(P, cfg, contracts, models=T.TEXTS, **kw)


def prefer(xs):
    """const fns are printed twice"""
    return xs[-1:] if len({x.name for x in xs}) == 1 else xs


def selfmethod(P, ty, name):
    """a method of a type whose impl is written by a macro"""
    c = prefer([x for x in P.by_last.get(name, []) if '{closure' not in x.name and x.args() and peelname(x.args()[0][1]) == ty])
    if len(c) != 1:
        raise Unsupported(f'anchor {ty}::{name} not found')
    return c[0]


def peelname(t):
    while t.kind in ('ref', 'refmut'):
        t = t.args[0]
    return t.last if t.kind == 'path' else None


def prefix_methods(P):
    """the accessors of a prefix, found by what they return"""
    return {n: selfmethod(P, 'Prefix', n) for n in ('name', 'short', 'factor')}


def c15_prefixes(ck, P, cfg):
    """every prefix: name, symbol and factor as in the SI table; no other prefixes"""
    fn = f'Prefix::name, short, factor [{cfg}]'

    def go():
        vs = P.enum_variants('Prefix')
        if not vs or len(vs) != 1:
            raise Unsupported('enum Prefix not found')
        vs = vs[0]
        ck.add(fn, 'the prefixes are the sixteen SI prefixes', 'proved' if sorted(vs) == sorted(SI) else 'refuted', 'table', 0, str(vs))
        ms = prefix_methods(P)
        for v in vs:
            if v not in SI:
                continue
            eng = exp_engine(P, cfg)
            for n, x, want in (('name', ms['name'], lit(SI[v][0])), ('symbol', ms['short'], lit(SI[v][1])), ('factor', ms['factor'], enc(z3.Const(f'f64:{float("1e" + str(SI[v][2]))!r}', U)))):
                st = State(eng)
                for o in outcomes(ck, eng, fn, x, [Agg(PREFIX, v, [])], st, vocab=voc):
                    got = eng.to_u(eng.deref_all(o.val, o.st), o.st)
                    lits = [z3.Const(f'f64:{float("1e" + str(p))!r}', U) for _, _, p in SI.values()] if n == 'factor' else []
                    ck.prove(fn, f'{n} of {v}', o.st.pc, same_lit(got, want), eng.axioms(), vocab=voc)
    ck.guard(fn, go)


def same_lit(a, b):
    """equality of literals; different literals are different"""
    la, lb = lit_of(a), lit_of(b)
    if la is not None and lb is not None:
        return z3.BoolVal(la == lb)
    return a == b


def prefix_contracts():
    c = lambda n, f, t: term_contract(f'Prefix::{n}: the SI table', rf'Prefix::{n}', f, t)
    return [c('name', PNAME, REFTO(T.STR)), c('short', PSHORT, REFTO(T.STR)), c('factor', PFACTOR, Ty('path', 'Magnitude'))]


def c15_metric(ck, P, cfg):
    fn = f'<Vec<Prefix> as From<MetricPrefixes>>::from [{cfg}]'

    def go():
        x = [x for x in P.by_last.get('from', []) if len(x.args()) == 1 and peelname(x.args()[0][1]) == 'MetricPrefixes']
        if len(x) != 1:
            raise Unsupported('anchor not found')
        eng = exp_engine(P, cfg)
        st = State(eng)
        fs = [n for n, _ in P.struct_fields('MetricPrefixes')]
        d = z3.Const('def', U)
        skip = uf(str(fs.index('skip')), U, U)(d)
        i, j, k = z3.Ints('i j k')
        D = uf('discr', U, INT)
        for o in outcomes(ck, eng, fn, x[0], [Opq(d, Ty('path', 'MetricPrefixes'))], st, vocab=voc):
            r = eng.to_u(o.val, o.st)
            vs = P.enum_variants('Prefix')[0]
            consts = [eng.to_u(Agg(PREFIX, v, []), o.st) for v in vs]
            skipped = lambda t: z3.Exists([k], z3.And(0 <= k, k < LEN(skip), AT(skip, k) == t))
            ax = eng.axioms()
            # a prefix is one of the unit variants
            for v, c in zip(vs, consts):
                there = z3.Exists([i], z3.And(0 <= i, i < LEN(r), AT(r, i) == c))
                ck.prove(fn, f'{v} is there exactly when it is not skipped', o.st.pc, there == z3.Not(skipped(c)), ax, vocab=voc)
            ck.prove(fn, 'nothing else is there', o.st.pc + [0 <= i, i < LEN(r)], z3.Or([AT(r, i) == c for c in consts]), ax, vocab=voc)
            ck.prove(fn, 'each at most once', o.st.pc + [0 <= i, i < j, j < LEN(r)], AT(r, i) != AT(r, j), ax, vocab=voc)
    ck.guard(fn, go)


# ------------------------------------------------------------------ one unit of a template
class TNames:
    def __init__(self, P):
        def idx(ty, *fs):
            have = [n for n, _ in P.struct_fields(ty)]
            for f in fs:
                if f not in have:
                    raise Unsupported(f'{ty} has no field {f}')
            return {f: have.index(f) for f in fs}
        self.t = idx('UnitTemplate', 'name', 'symbol', 'aliases', 'prefixes', 'dimension_annotation', 'definition')
        self.e = idx('UnitEntry', 'name', 'symbol', 'dimension_annotation', 'definition', 'autogenerated_from')
        if len(self.t) != len(P.struct_fields('UnitTemplate')) or len(self.e) != len(P.struct_fields('UnitEntry')):
            raise Unsupported('further fields')
        self.u = idx('Unresolved', 'dimension_types', 'quantity_types', 'dimensions', 'units', 'constants')
        self.alias = idx('Alias', 'name')['name']


p_ = lambda t, i, var=None: uf(f'{var + "." if var else ""}{i}', U, U)(t)
d_ = lambda t: uf('discr', U, INT)(t)
MV = uf('spec.magnitude', U, REAL)          # the number a magnitude stands for


def frac(s):
    return z3.RealVal(str(Fraction(s)))


def value_of(eng, st, v, name, X):
    """(number, exponent of the named unit) denoted by a definition written as an aggregate of expression nodes; None if it
    is not of that form"""
    v = eng.deref_all(v, st)
    if not isinstance(v, Agg) or v.var is None and not (isinstance(v.ty, Ty) and v.ty.last == 'BinaryOperator'):
        raise Unsupported(f'definition {v!r}')
    last = v.ty.last if isinstance(v.ty, Ty) else str(v.ty)
    if last == 'Definition':
        if v.var != 'Expression':
            raise Unsupported('definition')
        return value_of(eng, st, v.f[0], name, X)
    if last == 'Expr' and v.var in ('Value', 'Binary') or last == 'Factor' and v.var in ('Value', 'ParenExpr'):
        return value_of(eng, st, v.f[0], name, X)
    if last == 'BinaryOperator':
        S = Shape(eng.prog)
        op = eng.deref_all(v.f[S.op], st)
        a, b = value_of(eng, st, v.f[S.lhs], name, X), value_of(eng, st, v.f[S.rhs], name, X)
        if op.var == 'Mul':
            return a[0] * b[0], a[1] + b[1]
        return a[0] / b[0], a[1] - b[1]
    if last == 'Factor' and v.var == 'Concrete':
        m = eng.to_u(eng.deref_all(v.f[0], st), st)
        return MV(m), z3.IntVal(0)
    if last == 'Factor' and v.var == 'Other':
        n = eng.to_u(eng.deref_all(v.f[0], st), st)
        return z3.If(n == name, X, z3.Real('other')), z3.If(n == name, z3.IntVal(1), z3.Int('other.exponent'))
    raise Unsupported(f'definition {last}::{v.var}')


def mag_facts(st_pc):
    """values of literal magnitudes (Magnitude::from_f64 is exact: C01)"""
    out, seen, todo = [], set(), list(st_pc)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e) and e.decl().name() == enc(z3.Const('x', U)).decl().name() and z3.is_const(e.arg(0)) and e.arg(0).decl().name().startswith('f64:'):
            out.append(MV(e) == frac(float(e.arg(0).decl().name()[4:])))
        todo += e.children()
    return out


def entry_spec(N, r, name, symbol, ann, dfn, p, a):
    """what the unit r made from (name, symbol, ...) with prefix option p and alias option a looks like, except for its definition"""
    some = lambda o: d_(o) == 1
    base = z3.If(some(a), TEXT(p_(p_(a, 0, 'Some'), N.alias)), TEXT(name))
    pr = p_(p, 0, 'Some')
    sym = p_(r, N.e['symbol'])
    auto = p_(r, N.e['autogenerated_from'])
    rn = p_(r, N.e['name'])
    return [('the name is the alias or the name of the unit when there is no prefix', z3.Implies(z3.Not(some(p)), TEXT(rn) == base)),
            ('the name is the prefix followed by the alias or the name of the unit', z3.Implies(some(p), TEXT(rn) == T.CAT(PNAME(pr), base))),
            ('without prefix and alias: the name itself', z3.Implies(z3.And(z3.Not(some(p)), z3.Not(some(a))), rn == name)),
            ('no symbol for an alias', z3.Implies(some(a), d_(sym) == 0)),
            ('without prefix and alias: its own symbol', z3.Implies(z3.And(z3.Not(some(p)), z3.Not(some(a))), sym == symbol)),
            ('a prefixed unit has a symbol exactly if the unit has one', z3.Implies(z3.And(some(p), z3.Not(some(a))), some(sym) == some(symbol))),
            ('the prefixed symbol is the symbol of the prefix followed by that of the unit',
             z3.Implies(z3.And(some(p), z3.Not(some(a)), some(symbol)), TEXT(p_(p_(sym, 0, 'Some'), 0)) == T.CAT(PSHORT(pr), TEXT(p_(p_(symbol, 0, 'Some'), 0))))),
            ('the annotation is kept', p_(r, N.e['dimension_annotation']) == ann),
            ('generated, if at all, from the unit itself', z3.Or(d_(auto) == 0, z3.And(d_(auto) == 1, p_(auto, 0, 'Some') == name)))]


def template(N, t):
    return [p_(t, N.t[f]) for f in ('name', 'symbol', 'dimension_annotation', 'definition')]


def c15_entry(ck, P, cfg):
    fn = f'UnitTemplate::expand_prefix_and_alias [{cfg}]'

    def go():
        N = TNames(P)
        x = method(P, 'UnitTemplate', 'expand_prefix_and_alias')
        for hp in (False, True):
            for ha in (False, True):
                eng = exp_engine(P, cfg, prefix_contracts())
                st = State(eng)
                t, pv, av = z3.Const('t', U), z3.Const('prefix', U), z3.Const('alias', U)
                for o_ in (p_(t, N.t['symbol']), p_(t, N.t['dimension_annotation'])):
                    st.assume(z3.And(d_(o_) >= 0, d_(o_) <= 1))
                opt = lambda h, v, ty: Agg(OPT(REFTO(ty)), 'Some', [Ref(st.cell(Opq(v, ty)))]) if h else Agg(OPT(REFTO(ty)), 'None', [])
                pa, aa = opt(hp, pv, PREFIX), opt(ha, av, ALIAS)
                what = f'{"a" if hp else "no"} prefix, {"an" if ha else "no"} alias: '
                for o in outcomes(ck, eng, fn, x, [Ref(st.cell(Opq(t, TEMPLATE))), pa, aa], st, vocab=voc):
                    r = eng.to_u(o.val, o.st)
                    pu, au = eng.to_u(pa, o.st), eng.to_u(aa, o.st)
                    nm, sy, an, df = template(N, t)
                    ax = eng.axioms()
                    for w, g in entry_spec(N, r, nm, sy, an, df, pu, au):
                        ck.prove(fn, what + w, o.st.pc, g, ax, vocab=voc)
                    v = eng.field(o.val, None, N.e['definition'], Ty('path', 'Definition'), o.st)
                    if not hp and not ha:
                        ck.prove(fn, what + 'the definition of the unit', o.st.pc, eng.to_u(v, o.st) == df, ax, vocab=voc)
                    else:
                        X = z3.Real('X')
                        val, ex = value_of(eng, o.st, v, nm, X)
                        want = MV(PFACTOR(pv)) * X if hp else X
                        ck.prove(fn, what + 'the definition denotes the factor of the prefix times the unit', o.st.pc + mag_facts(o.st.pc + [val == X]), z3.And(val == want, ex == 1), ax, vocab=voc)
    ck.guard(fn, go)


ENTRY = uf('spec.entry', *([U] * 6), U)


def entry_contract(P):
    """expand_prefix_and_alias: a function of the name, symbol, annotation, definition, prefix and alias"""
    N = TNames(P)

    def spec(eng, st, args):
        t = eng.to_u(eng.deref_all(args[0], st), st)
        p, a = [eng.to_u(eng.deref_all(v, st), st) for v in args[1:]]
        r = ENTRY(*template(N, t), p, a)
        return Opq(r, ENTRYTY)
    return FnContract('UnitTemplate::expand_prefix_and_alias', key_re(r'UnitTemplate::expand_prefix_and_alias'), spec)


def entry_axioms(N):
    """the contract as facts about the specification function"""
    xs = [z3.Const(n, U) for n in ('n!e', 's!e', 'd!e', 'f!e', 'p!e', 'a!e')]
    n, s, an, df, p, a = xs
    r = ENTRY(*xs)
    return [z3.ForAll(xs, z3.And([g for _, g in entry_spec(N, r, n, s, an, df, p, a)]), patterns=[r])]


def distinct(t, f=AT):
    i, j = z3.Ints('i!d j!d')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LEN(t)), AT(t, i) != AT(t, j)))


HINT = uf('hint', U, BOOL)


def hints(pc, ints):
    """ground terms offered to the solver: elements of the sequences at the given places, and the places they come from
    (facts about a fresh predicate, which say nothing)"""
    seqs, invs, seen, todo = {}, {}, set(), list(pc)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().name() == 'seq.at' and closed(e.arg(0)):
                seqs[e.arg(0).get_id()] = e.arg(0)
            if e.decl().name().startswith(('at0!', 'at1!', 'src!', 'dst!')) and e.decl().arity() == 1 and e.decl().domain(0) == INT and e.sort() == INT:
                invs[e.decl().name()] = e.decl()
            todo += e.children()
    more = list(ints) + [f(i) for f in invs.values() for i in ints]
    return more, [HINT(AT(s, i)) for s in seqs.values() for i in more]


def closed(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if z3.is_var(x):
            return False
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return True


class Combos:
    """the combinations of a prefix or none with an alias or none of the template t"""

    def __init__(self, N, t, mk):
        self.ps, self.al = p_(t, N.t['prefixes']), p_(t, N.t['aliases'])
        self.P, self.A = uf('spec.nth.prefix', U, INT, U), uf('spec.nth.alias', U, INT, U)
        self.t, self.N = t, N
        self.none = mk('None', [])
        i = z3.Int('i!x')
        self.ax = []
        for f, s in ((self.P, self.ps), (self.A, self.al)):
            mk('Some', [AT(s, i)])
            self.ax.append(z3.ForAll([i], f(t, i) == z3.If(i == LEN(s), self.none, mk('Some', [AT(s, i)])), patterns=[f(t, i)]))

    def rng(self, i, j):
        return z3.And(0 <= i, i <= LEN(self.ps), 0 <= j, j <= LEN(self.al))

    def entry(self, i, j):
        return ENTRY(*template(self.N, self.t), self.P(self.t, i), self.A(self.t, j))

    def at(self, ints):
        return [HINT(f(self.t, i)) for f in (self.P, self.A) for i in ints]


def c15_expand(ck, P, cfg):
    fn = f'UnitTemplate::expand [{cfg}]'

    def go():
        N = TNames(P)
        x = method(P, 'UnitTemplate', 'expand')
        eng = exp_engine(P, cfg, [entry_contract(P)])
        st = State(eng)
        t = z3.Const('t', U)
        for o in outcomes(ck, eng, fn, x, [Opq(t, TEMPLATE)], st, vocab=voc):
            r = eng.to_u(o.val, o.st)
            mk = lambda v, xs: eng.to_u(Agg(OPT(Ty('path', 'T')), v, [Opq(y, Ty('path', 'T')) for y in xs]), o.st)
            c = Combos(N, t, mk)
            i, j, i2, j2, k, k2 = z3.Ints('i j i2 j2 k k2')

            def prove(what, hyps, goal, ints):
                more, hs = hints(o.st.pc, ints)
                ck.prove(fn, what, o.st.pc + c.ax + hs + c.at(more) + hyps, goal, eng.axioms(), vocab=voc)
            prove('one unit for every combination of a prefix or none with an alias or none', [c.rng(i, j)], z3.Exists([k], z3.And(0 <= k, k < LEN(r), AT(r, k) == c.entry(i, j)), patterns=[AT(r, k)]), [i, j])
            pat = [z3.MultiPattern(c.P(t, i), c.A(t, j))]
            prove('and no others', [0 <= k, k < LEN(r)], z3.Exists([i, j], z3.And(c.rng(i, j), AT(r, k) == c.entry(i, j)), patterns=pat), [k])
            diff = z3.ForAll([i, j, i2, j2], z3.Implies(z3.And(c.rng(i, j), c.rng(i2, j2), z3.Or(i != i2, j != j2)), c.entry(i, j) != c.entry(i2, j2)),
                             patterns=[z3.MultiPattern(c.P(t, i), c.A(t, j), c.P(t, i2), c.A(t, j2))])
            prove('each once', [diff, 0 <= k, k < k2, k2 < LEN(r)], AT(r, k) != AT(r, k2), [k, k2])
    ck.guard(fn, go)


EXPAND = uf('spec.expand', U, U)


def expand_contract(P):
    """UnitTemplate::expand: exactly the combinations, each once if they are different"""
    N = TNames(P)

    def spec(eng, st, args):
        t = eng.to_u(eng.deref_all(args[0], st), st)
        return Opq(EXPAND(t), Ty('path', 'Vec', (ENTRYTY,)))
    return FnContract('UnitTemplate::expand', key_re(r'UnitTemplate::expand'), spec)


def expand_axioms(N, t, mk):
    """what the contract of expand says about template t"""
    c = Combos(N, t, mk)
    r = EXPAND(t)
    i, j, k = z3.Ints('i!p j!p k!p')
    pos = uf('spec.expand.pos', U, INT, INT, INT)
    pi, pj = uf('spec.expand.prefix', U, INT, INT), uf('spec.expand.alias', U, INT, INT)
    return c, c.ax + [z3.ForAll([i, j], z3.Implies(c.rng(i, j), z3.And(0 <= pos(t, i, j), pos(t, i, j) < LEN(r), AT(r, pos(t, i, j)) == c.entry(i, j))), patterns=[pos(t, i, j)]),
                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < LEN(r)), z3.And(c.rng(pi(t, k), pj(t, k)), AT(r, k) == c.entry(pi(t, k), pj(t, k)))), patterns=[AT(r, k)])], pos


def c15_templates(ck, P, cfg):
    fn = f'UnresolvedTemplates::expand_templates [{cfg}]'

    def go():
        N = TNames(P)
        x = method(P, 'UnresolvedTemplates', 'expand_templates')
        eng = exp_engine(P, cfg, [expand_contract(P)])
        st = State(eng)
        d = z3.Const('defs', U)
        ts = p_(d, N.u['units'])
        for o in outcomes(ck, eng, fn, x, [Opq(d, Ty('path', 'Unresolved', (TEMPLATE,)))], st, vocab=voc):
            r = eng.to_u(o.val, o.st)
            us = p_(r, N.u['units'])
            i, i2, j, k, k2, m, m2 = z3.Ints('i i2 j k k2 m m2')
            mk = lambda v, xs: eng.to_u(Agg(OPT(Ty('path', 'T')), v, [Opq(y, Ty('path', 'T')) for y in xs]), o.st)
            el = lambda i: EXPAND(AT(ts, i))
            rng = lambda i, k: z3.And(0 <= i, i < LEN(ts), 0 <= k, k < LEN(el(i)))

            def prove(what, hyps, goal, ints):
                more, hs = hints(o.st.pc, ints)
                ck.prove(fn, what, o.st.pc + hs + hyps + [HINT(AT(el(a), b)) for a in more for b in more if len(more) < 12], goal, eng.axioms(), vocab=voc)
            for f, n in N.u.items():
                if f != 'units':
                    prove(f'the {f} are passed on', [], p_(r, n) == p_(d, n), [])
            prove('every unit of every template is there', [rng(i, k)], z3.Exists([m], z3.And(0 <= m, m < LEN(us), AT(us, m) == AT(el(i), k)), patterns=[AT(us, m)]), [i, k])
            prove('and no others', [0 <= m, m < LEN(us)], z3.Exists([i, k], z3.And(rng(i, k), AT(us, m) == AT(el(i), k)), patterns=[AT(el(i), k)]), [m])
            diff = z3.ForAll([i, k, i2, k2], z3.Implies(z3.And(rng(i, k), rng(i2, k2), z3.Or(i != i2, k != k2)), AT(el(i), k) != AT(el(i2), k2)),
                             patterns=[z3.MultiPattern(AT(el(i), k), AT(el(i2), k2))])
            prove('each once', [diff, 0 <= m, m < m2, m2 < LEN(us)], AT(us, m) != AT(us, m2), [m, m2])
            # the unit a generated one comes from is there (precondition of C13)
            seqs = [AT(ts, i), AT(ts, i2)]
            name = lambda e: p_(e, N.e['name'])
            auto = lambda e: p_(e, N.e['autogenerated_from'])
            # the template AT(us, m) comes from, made explicit by the obligation above
            tt = AT(ts, i)
            c, ax, pos = expand_axioms(N, tt, mk)
            own = pos(tt, LEN(c.ps), LEN(c.al))
            there = z3.ForAll([k], z3.Implies(rng(i, k), z3.Exists([m2], z3.And(0 <= m2, m2 < LEN(us), AT(us, m2) == AT(el(i), k)))), patterns=[AT(el(i), k)])
            hyp = [0 <= m, m < LEN(us), rng(i, k), AT(us, m) == AT(el(i), k), there, d_(auto(AT(us, m))) == 1, HINT(AT(el(i), own))]
            ck.prove(fn, 'a unit generated from another one comes with that one', ax + entry_axioms(N) + hyp,
                     z3.Exists([m2], z3.And(0 <= m2, m2 < LEN(us), name(AT(us, m2)) == p_(auto(AT(us, m)), 0, 'Some')), patterns=[AT(us, m2)]), eng.axioms(), vocab=voc)
    ck.guard(fn, go)


def c15(ck):
    for cfg in CFGS:
        P = exp_prog(cfg)
        c15_prefixes(ck, P, cfg)
        c15_metric(ck, P, cfg)
        c15_entry(ck, P, cfg)
        c15_expand(ck, P, cfg)
        c15_templates(ck, P, cfg)


