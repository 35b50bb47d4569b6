"""C17, C18: text interfaces of quantities (generated code of the bundled SI system, both exponent configurations).

Formatting writes to a ghost output (a list of texts); states that meet again are joined, keeping per meeting point the
alternatives written under each condition.  Strings are a free monoid (texts.py); reading text uses the functions below:
words(s) (split at whitespace), trim, head/tail at the first occurrence of a character, parts, and the parsers of the
standard library as uninterpreted partial functions."""
import re
from fractions import Fraction as Fr
import z3
from mir import *
from engine import *
import models as M
import coll as C
import texts as X
import si_table as T
from props_rt import ratio_contracts, comp, RAT, RATIO_TY, std_vocab, c04_vocab
from props_lib import lib_prog, find_inherent, find_trait, FnContract
import props_gen as G

R = re.compile
INT = z3.IntSort()
STRTY = Ty('ref', '', (Ty('path', 'str'),))
DIMTY = Ty('path', 'si::Dimension')
OUT = 'out'


# ------------------------------------------------------------------ exponents and dimensions
def lit_exp(t):
    """the number a literal exponent stands for, or None"""
    if isinstance(t, Opq):
        t = t.t
    if isinstance(t, int):
        return Fr(t)
    t = z3.simplify(t) if z3.is_int(t) else t
    if z3.is_int_value(t):
        return Fr(t.as_long())
    if z3.is_app(t):
        n = t.decl().name()
        a = [z3.simplify(x) for x in t.children()] if n in ('ratio.new', 'ratio.int') else []
        if a and all(z3.is_int_value(x) for x in a):
            v = [x.as_long() for x in a]
            if n == 'ratio.int':
                return Fr(v[0])
            if v[1]:
                return Fr(v[0], v[1])
        if n in ('ratio.add', 'ratio.sub', 'ratio.mul', 'ratio.neg'):
            xs = [lit_exp(x) for x in t.children()]
            if None not in xs:
                return xs[0] + xs[1] if n == 'ratio.add' else xs[0] - xs[1] if n == 'ratio.sub' else xs[0] * xs[1] if n == 'ratio.mul' else -xs[0]
    return None


class Sys:
    """the dimension type of the generated system"""

    def __init__(self, cfg):
        self.cfg, self.P = cfg, G.gen_prog(cfg)
        self.fields = self.P.struct_fields('Dimension')
        if not self.fields:
            raise Unsupported('dimension type not found')
        self.n = len(self.fields)
        self.names = [f for f, _ in self.fields]
        self.rational = any('Ratio' in str(t) or ('Exponent' in str(t) and cfg == 'all') for _, t in self.fields)
        self.ety = RATIO_TY if self.rational else Ty('path', 'i64')
        self.srt = z3.RealSort() if self.rational else INT
        q = 'q' if self.rational else 'i'
        self.udim = lambda i, s: uf(f'unit.{q}dim{i}', U, self.srt)(s)            # exponents of the unit of this symbol
        self.dsum = lambda i, s, k: uf(f'unit.{q}sum{i}', U, INT, self.srt)(s, k)   # of the product of the first k factors
        self.expv = lambda s: uf(f'parse.{q}exp', U, self.srt)(s)
        self.pow = lambda x, e: uf(f'pow.{q}', U, self.srt, U)(x, e)

    def comps(self, eng, st, v):
        return [comp(eng, st, v, i, self.rational) for i in range(self.n)]

    def real(self, x):
        return x if self.rational else z3.ToReal(x)

    def lit(self, eng, st, v):
        """exponents of a dimension value written with literals"""
        v = eng.deref_all(v, st)
        out = []
        for i in range(self.n):
            e = lit_exp(eng.deref_all(eng.field(v, None, i, self.ety, st), st))
            if e is None:
                return None
            out.append(e)
        return out

    def exp_lit(self, n):
        return Opq(uf('ratio.int', INT, U)(z3.IntVal(n)), RATIO_TY) if self.rational else z3.IntVal(n)

    def num(self, fr):
        return z3.Q(fr.numerator, fr.denominator) if self.rational else z3.IntVal(int(fr))

    def eq_lit(self, cs, l):
        return z3.And([c == self.num(e) for c, e in zip(cs, l)])

    # contracts of the dimension functions (C04)
    def contracts(self):
        S = self

        def opaque(name, spec):
            def f(eng, st, args):
                us = [eng.to_u(eng.deref_all(a, st), st) for a in args]
                t = uf('dim.' + name, *([U] * len(us)), U)(*us)
                cs = [S.comps(eng, st, a) for a in args]
                r = Opq(t, DIMTY)
                eng.facts.setdefault(('dim', t.get_id()), (t, [x == spec(*[c[i] for c in cs]) for i, x in enumerate(S.comps(eng, st, r))]))
                return r
            return f

        def none(eng, st, args):
            fs = [S.exp_lit(0) for _ in range(S.n)]
            if S.rational:
                u = fs[0].t
                eng.facts.setdefault(('ratio', u.get_id()), (u, [RAT(u) == 0]))
            return Agg(DIMTY, None, fs)

        def eq(neg):
            def f(eng, st, args):
                a, b = [S.comps(eng, st, eng.deref_all(x, st)) for x in args]
                g = z3.And([x == y for x, y in zip(a, b)])
                return z3.Not(g) if neg else g
            return f

        def clone(eng, st, args):
            return eng.deref_all(args[0], st)
        out = [FnContract('Dimension::none (C04)', lambda k: k == 'Dimension::none', none),
               FnContract('Dimension::add (C04)', lambda k: k == 'Dimension::add', opaque('add', lambda a, b: a + b)),
               FnContract('Dimension::sub (C04)', lambda k: k == 'Dimension::sub', opaque('sub', lambda a, b: a - b)),
               FnContract('Dimension::neg (C04)', lambda k: k == 'Dimension::neg', opaque('neg', lambda a: -a)),
               FnContract('<Dimension as Clone>::clone', lambda k: k == '<Dimension as Clone>::clone', clone)]
        for n, neg in (('eq', False), ('ne', True)):
            out.append(FnContract(f'<Dimension as PartialEq>::{n} (C04)', lambda k, n=n: re.fullmatch(rf'<&?Dimension as PartialEq(?:<.*>)?>::{n}', k) is not None, eq(neg)))
        if not self.rational:
            for n, v in (('one', 1), ('zero', 0)):
                out.append(FnContract(f'<i64 as DimensionExponent>::{n}', lambda k, n=n: re.fullmatch(rf'<i64 as (?:\w+::)*DimensionExponent>::{n}', k) is not None,
                                      lambda eng, st, args, v=v: z3.IntVal(v)))
            out.append(FnContract('<i64 as DimensionExponent>::from_int', lambda k: re.fullmatch(r'<i64 as (?:\w+::)*DimensionExponent>::from_int', k) is not None,
                                  lambda eng, st, args: eng.deref_all(args[0], st)))
        return out


# ------------------------------------------------------------------ the run-time unit lists
class Entry:
    def __init__(self, sym, dim, mag, val, mt):
        self.sym, self.dim, self.mag, self.val, self.mt = sym, dim, mag, val, mt


def float_lit(t):
    m = re.fullmatch(r'f(?:64|32):(.*)', t.decl().name()) if z3.is_const(t) else None
    return Fr(float(m.group(1))) if m and m.group(1) not in ('inf', '-inf', 'nan') else None


class Lists:
    """contracts of RuntimeUnit / RuntimeUnitStorage (C19), with the list of units read off the call"""

    def __init__(self, sys_):
        self.S = sys_
        P = lib_prog('std')
        self.f = [f for f, _ in P.struct_fields('RuntimeUnit')]
        self.i = {f: k for k, f in enumerate(self.f)}
        if set(self.f) != {'symbol', 'dimension', 'magnitude'}:
            raise Unsupported('fields of RuntimeUnit')
        x = find_inherent(P, 'RuntimeUnit', 'new')
        names = dict((l, n) for n, l in re.findall(r'debug (\w+) => (_\d+);', '\n'.join(x.body)))
        self.order = [names.get(l) for l, _ in x.args()]
        if set(self.order) != set(self.f):
            raise Unsupported('arguments of RuntimeUnit::new')
        self.seen = []         # the lists looked up in

    def entries(self, eng, st, storage):
        v = eng.deref_all(storage, st)
        if not (isinstance(v, Agg) and v.base is None and len(v.f) == 1):
            raise Unsupported('unit list')
        v = eng.deref_all(v.f[0], st)
        if not (isinstance(v, Agg) and v.base is None):
            raise Unsupported('unit list')
        key = tuple(id(v.f[k]) for k in sorted(v.f))
        for k, keep, es in self.seen:
            if k == key:
                return es
        es = []
        for k in sorted(v.f):
            u = eng.deref_all(v.f[k], st)
            if not (isinstance(u, Agg) and u.base is None):
                raise Unsupported('entry of a unit list')
            s = X.lit_of(eng.to_u(u.f[self.i['symbol']], st))
            d = self.S.lit(eng, st, u.f[self.i['dimension']])
            m = float_lit(eng.to_u(u.f[self.i['magnitude']], st))
            if s is None or d is None or m is None:
                raise Unsupported('entry of a unit list is not a literal')
            es.append(Entry(s, d, m, u, eng.to_u(u.f[self.i['magnitude']], st)))
        for k, keep, l in self.seen:
            if [(e.sym, e.dim, e.mag) for e in l] == [(e.sym, e.dim, e.mag) for e in es]:
                self.seen.append((key, v, l))
                return l
        self.seen.append((key, v, es))
        return es

    def lists(self):
        """the different lists looked up in"""
        out = []
        for k, keep, es in self.seen:
            if not any(es is l for l in out):
                out.append(es)
        return out

    def view(self, eng, st, t):
        """(symbol term, exponents, magnitude term) of a found unit"""
        u = Opq(t, Ty('path', 'RuntimeUnit'))
        return (eng.proj(t, None, self.i['symbol']), self.S.comps(eng, st, Opq(eng.proj(t, None, self.i['dimension']), DIMTY)), eng.proj(t, None, self.i['magnitude']))

    def is_entry(self, eng, st, t, e):
        s, d, m = self.view(eng, st, t)
        return z3.And(s == X.lit(e.sym), self.S.eq_lit(d, e.dim), m == e.mt)

    def contracts(self):
        L, S = self, self.S

        def new(eng, st, args):
            a = dict(zip(L.order, args))
            return Agg(Ty('path', 'RuntimeUnit'), None, [a[f] for f in L.f])

        def storage(eng, st, args):
            return Agg(Ty('path', 'RuntimeUnitStorage'), None, [args[0]])

        def by_dim(eng, st, args):
            es = L.entries(eng, st, args[0])
            d = eng.deref_all(args[1], st)
            l = S.lit(eng, st, d)
            if l is not None:
                for e in es:
                    if e.dim == l:
                        return C.opt_some(Ref(st.cell(e.val)))
                return C.opt_none()
            cs = S.comps(eng, st, d)
            outs = []
            s1 = st.copy()
            for l in sorted({tuple(e.dim) for e in es}):
                s1.assume(z3.Not(S.eq_lit(cs, l)))
            outs.append(Outcome('ret', s1, C.opt_none()))
            if es:
                t = uf('unit.of', U, U)(eng.to_u(d, st))
                s2 = st.copy()
                sy, ds, mg = L.view(eng, s2, t)
                s2.assume(z3.And([a == b for a, b in zip(ds, cs)]))
                s2.assume(z3.Or([L.is_entry(eng, s2, t, e) for e in es]))
                outs.append(Outcome('ret', s2, C.opt_some(Ref(s2.cell(Opq(t, Ty('path', 'RuntimeUnit')))))))
            return outs

        def by_symbol(eng, st, args):
            es = L.entries(eng, st, args[0])
            s = eng.to_u(args[1], st)
            outs = []
            s1 = st.copy()
            s1.assume(z3.Not(KNOWN(s)))
            outs.append(Outcome('ret', s1, C.opt_none()))
            s2 = st.copy()
            s2.assume(KNOWN(s))
            t = UNIT_OF(s)
            sy, ds, mg = L.view(eng, s2, t)
            s2.assume(z3.And([sy == s, mg == UMAG(s)] + [c == S.udim(i, s) for i, c in enumerate(ds)]))
            outs.append(Outcome('ret', s2, C.opt_some(Ref(s2.cell(Opq(t, Ty('path', 'RuntimeUnit')))))))
            return outs
        fc = FnContract
        return [fc('RuntimeUnit::new (C19)', lambda k: re.fullmatch(r'RuntimeUnit(?:<.*>)?::new', k) is not None, new),
                fc('RuntimeUnitStorage::new (C19)', lambda k: re.fullmatch(r'RuntimeUnitStorage(?:<.*>)?::new', k) is not None, storage),
                fc('RuntimeUnitStorage::get_first_unit_for_dimension (C19)', lambda k: re.fullmatch(r'RuntimeUnitStorage(?:<.*>)?::get_first_unit_for_dimension', k) is not None, by_dim),
                fc('RuntimeUnitStorage::get_unit_by_symbol (C19)', lambda k: re.fullmatch(r'RuntimeUnitStorage(?:<.*>)?::get_unit_by_symbol', k) is not None, by_symbol)]


KNOWN = uf('known', U, z3.BoolSort())          # is the text a symbol of the unit list
UNIT_OF = uf('unit.by', U, U)
UMAG = uf('unit.mag', U, U)


# ------------------------------------------------------------------ writing text
class Choice:
    """texts written under alternative conditions, between two points where the paths meet"""

    def __init__(self, alts):
        self.alts = alts       # [(condition, [parts])]


def write(st, t):
    st.ghost[OUT] = st.ghost[OUT] + tuple(X.parts(t))


def ok_unit():
    return Agg(Ty('path', 'Result', (Ty('tuple', '', ()), Ty('path', 'Error'))), 'Ok', [Agg('()', None, [])])


def m_write_fmt(eng, st, args, dty, m, callee):
    a = eng.deref_all(args[1], st)
    if not isinstance(a, X.FmtArgs):
        raise Unsupported('formatting arguments')
    write(st, a.t)
    return ok_unit()


def m_write_str(eng, st, args, dty, m, callee):
    write(st, X.text_of(eng, st, args[1]))
    return ok_unit()


def m_write_char(eng, st, args, dty, m, callee):
    c = eng.to_u(eng.deref_all(args[1], st), st)
    k = re.fullmatch(r"char:'(.)'", c.decl().name()) if z3.is_const(c) else None
    if not k:
        raise Unsupported('character written')
    write(st, X.lit(k.group(1)))
    return ok_unit()


def m_display_fmt(eng, st, args, dty, m, callee):
    write(st, X.text_of(eng, st, args[0]))
    return ok_unit()


WRITERS = [
    (R(r'(?:Formatter|<Formatter as (?:\w+::)*Write>)::write_fmt'), m_write_fmt),
    (R(r'(?:Formatter|<Formatter as (?:\w+::)*Write>)::write_str'), m_write_str),
    (R(r'(?:Formatter|<Formatter as (?:\w+::)*Write>)::write_char'), m_write_char),
    (R(r'<.* as (?:\w+::)*Display>::fmt'), m_display_fmt),
]


def mentioned_after(fn, eng, bb):
    """locals mentioned in a block reachable from bb"""
    seen, work, out = set(), [bb], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = fn.blocks[b]
        out |= set(re.findall(r'\b_\d+\b', ' '.join(s.text for s in blk.stmts if s.kind not in ('live', 'dead', 'nop') and not s.text.strip().startswith('Storage'))))
        if blk.term:
            out |= set(re.findall(r'\b_\d+\b', blk.term.text if hasattr(blk.term, 'text') else str(blk.term.d)))
        work += eng.succs(fn, b)
    return out


def reachable(st, cells):
    """cells reached by references from these"""
    seen, work = set(), list(cells)
    while work:
        c = work.pop()
        if c in seen:
            continue
        seen.add(c)
        vs = [st.mem.get(c)]
        while vs:
            v = vs.pop()
            if isinstance(v, Ref):
                work.append(v.cell)
            elif isinstance(v, Agg):
                vs += list(v.f.values())
            elif isinstance(v, Lib):
                vs += [x for x in vars(v).values() if isinstance(x, (Ref, Agg, Lib))]
    return seen


def join_states(eng, fr, bb, states):
    """one state for all: same memory where it still matters; the condition is the disjunction of the conditions, and the
    texts written since the paths parted become a Choice"""
    fn = fr['fn']
    cache = fr.setdefault('after', {})
    if bb not in cache:
        cache[bb] = mentioned_after(fn, eng, bb)
    live = {fr['cells'][l] for l in cache[bb] if l in fr['cells']} | {fr['cells'][l] for l in [a for a, _ in fn.args] + ['_0']}
    for s in states:
        live = reachable(s, live)
    dead = {c for l, c in fr['cells'].items()} - live
    base = states[0]
    n = min(len(s.pc) for s in states)
    k = 0
    while k < n and all(s.pc[k] is base.pc[k] or z3.eq(s.pc[k], base.pc[k]) for s in states):
        k += 1
    r = base.copy()
    r.pc = list(base.pc[:k])
    common = set(base.mem)
    for s in states[1:]:
        common &= set(s.mem)
    for c in list(r.mem):
        if c in dead or c not in common:
            del r.mem[c]
            continue
        if any(s.mem[c] is not base.mem[c] for s in states[1:]):
            vs = [s.mem[c] for s in states]
            if all(isinstance(v, Opq) and z3.eq(v.t, vs[0].t) for v in vs) or all(z3.is_expr(v) and z3.eq(v, vs[0]) for v in vs):
                continue
            return None
    conds = [z3.And(s.pc[k:]) if len(s.pc) > k else z3.BoolVal(True) for s in states]
    r.pc.append(z3.Or(conds))
    for g in base.ghost:
        if g != OUT and any(s.ghost.get(g) is not base.ghost[g] for s in states):
            return None
    outs = [s.ghost[OUT] for s in states]
    j = 0
    while all(len(o) > j for o in outs) and all(same_part(o[j], outs[0][j]) for o in outs):
        j += 1
    rest = [o[j:] for o in outs]
    r.ghost[OUT] = outs[0][:j] + ((Choice(list(zip(conds, rest))),) if any(rest) else ())
    return r


def same_part(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and z3.eq(a, b))


def flat(ps):
    """joined literals of a list of parts"""
    out = []
    for p in ps:
        if z3.is_expr(p):
            l = X.lit_of(p)
            if l == '':
                continue
            if l is not None and out and isinstance(out[-1], str):
                out[-1] += l
                continue
            out.append(l if l is not None else p)
        else:
            out.append(p)
    return out


# ------------------------------------------------------------------ engine
def make(S, contracts=(), models=(), gens=('D', 'S', 'E', 'DE')):
    eng = Engine(S.P, mode='int', models=list(models) + WRITERS + X.TEXTS + C.COLLECTIONS + M.BASIC, consts={},
                 contracts=list(contracts) + S.contracts() + ratio_contracts())
    C.install(eng)
    eng.loop_spec = lambda item: C.AutoLoop()
    eng.generic_params = set(gens)
    eng.consts['type:D'] = DIMTY
    eng.max_paths = 5000
    return eng


def vocab(n):
    return c04_vocab(n) or X.text_vocab(n) or n.startswith(('dim.', 'unit.', 'units.', 'single.', 'vec.', 'comp.', 'io', 'mag.', 'str.len', 'known', 'words', 'trim', 'head', 'tail', 'parts', 'parse', 'f64', 'f32', 'const:', 'display', 'pow', 'i64->', 'u64->', 'op.', 'has:', 'starts:', 'strip:'))


# ------------------------------------------------------------------ C18
def c18(ck):
    ck.assumptions |= {'writing to the formatter succeeds', 'the text of a number is what its Display writes, read back as the same number',
                       'contracts of core::fmt (texts.py)', 'const generic arguments are values of the dimension type'}
    for cfg in ('all', 'norational'):
        fn = f'<Quantity as Debug>::fmt [{cfg}]'
        ck.guard(fn, lambda: c18_fmt(ck, cfg, fn))
    for cfg in ('std',):
        fn = f'<Ratio as Display>::fmt [{cfg}]'
        ck.guard(fn, lambda: ratio_display(ck, cfg, fn))


def symbols_ok(ck, fn, es, ones):
    """the entries against the independent table"""
    syms = T.symbols()
    for e in es:
        ck.prove(fn, f'entry {e.sym}: symbol without blanks, brackets, commas or ^', [], z3.BoolVal(bool(e.sym) and not re.search(r'[\s^\[\](),]', e.sym)))
        if ones:
            ck.prove(fn, f'entry {e.sym}: magnitude exactly one', [], z3.Q(e.mag.numerator, e.mag.denominator) == 1)
        if e.sym not in syms:
            ck.notes.append(f'symbol {e.sym} is not in the independent table: not judged')


def c18_fmt(ck, cfg, fn):
    from props_tv import dim_goal, near
    S = Sys(cfg)
    L = Lists(S)
    eng = make(S, L.contracts())
    eng.merge = join_states
    x = find_trait(S.P, 'Debug', 'Quantity<S, D>', 'fmt')
    st = State(eng)
    st.ghost[OUT] = ()
    args = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    val = eng.field(eng.deref_all(args[0], st), None, 0, Ty('path', 'S'), st)
    shown = X.text_of(eng, st, val)
    D = eng.val_of_term(DIMTY, z3.Const('const:D', U), st)
    cs = S.comps(eng, st, D)
    rets = 0
    for o in eng.call_body(x, args, st, {}):
        if o.kind != 'ret':
            ck.prove(fn, 'does not panic: ' + o.msg[:40], o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
            continue
        rets += 1
        ck.prove(fn, 'reports success', o.st.pc, eng.discr(o.val, o.st) == 0, eng.axioms(), vocab=vocab)
        out = flat(o.st.ghost[OUT])
        if not out or not z3.is_expr(out[0]) or not z3.eq(out[0], shown):
            first = out[0] if out and z3.is_expr(out[0]) else (X.lit(out[0]) if out and isinstance(out[0], str) else X.EMPTY)
            ck.prove(fn, 'starts with the stored value', o.st.pc, first == shown, eng.axioms(), vocab=vocab)
            continue
        if not L.seen:
            raise Unsupported('no unit list is looked up')
        denotes(ck, fn, S, L, eng, o.st, out[1:], cs)
    if not rets:
        ck.und(fn, 'no returning path')
    syms = T.symbols()
    for es in L.lists():
        symbols_ok(ck, fn, es, True)
        for e in es:
            if e.sym in syms:
                d, v, n = syms[e.sym]
                ck.prove(fn, f'entry {e.sym}: dimension and magnitude of the unit of that symbol', [],
                         z3.And(dim_goal(dict(zip(S.names, e.dim)), d), near(e.mag, v)))
    ck.covers += bool(rets)
    ck.use(eng)


def denotes(ck, fn, S, L, eng, st, rest, cs):
    """the text after the value is a product of powers of units with exactly the exponents cs"""
    es = [e for l in L.lists() for e in l]
    symt = uf('unit.of', U, U)
    if rest and rest[0] == ' ' and len(rest) == 2 and z3.is_expr(rest[1]) and X.lit_of(rest[1]) is None:
        t = rest[1]
        ck.prove(fn, 'one unit: the symbol of a listed unit with exactly this dimension', st.pc,
                 z3.Or([z3.And(t == X.lit(e.sym), S.eq_lit(cs, e.dim)) for e in es] or [z3.BoolVal(False)]), eng.axioms(), vocab=vocab)
        return
    base = {}
    for e in es:
        nz = [i for i in range(S.n) if e.dim[i]]
        if len(nz) == 1 and e.dim[nz[0]] == 1 and e.mag == 1:
            base.setdefault(e.sym, nz[0])
    for i, f in enumerate(S.names):
        if i not in base.values():
            base.setdefault(f, i)       # a base dimension without a unit goes by its name
    covered = {}

    def factor(ps):
        """(base dimension, exponent term or literal) of ' sym' or ' sym^e'"""
        ps = flat(ps)
        if not ps:
            return None
        if not isinstance(ps[0], str) or not ps[0].startswith(' '):
            raise Unsupported('unit text')
        s = ps[0][1:]
        if len(ps) == 1:
            s, _, e = s.partition('^')
            e = Fr(e) if e else Fr(1)
        elif len(ps) == 2 and z3.is_expr(ps[1]) and s.endswith('^'):
            s, e = s[:-1], shown_exp(ps[1])
        else:
            raise Unsupported('unit text')
        if s not in base:
            raise Unsupported(f'{s} is not a unit of a base dimension')
        return base[s], e

    def shown_exp(t):
        if t.decl().name() in ('display.Ratio', 'display.Int'):
            a = t.arg(0)
            return RAT(a) if S.rational else uf('int', U, INT)(a)
        raise Unsupported('exponent text')
    choices = []
    for p in rest:
        if isinstance(p, Choice):
            choices.append(p)
        elif choices or isinstance(p, str) or z3.is_expr(p):
            choices.append(Choice([(z3.BoolVal(True), (X.lit(p) if isinstance(p, str) else p,))]))
    for ch in choices:
        alts = [(c, factor(ps)) for c, ps in ch.alts]
        dims = {f[0] for _, f in alts if f}
        if len(dims) != 1:
            raise Unsupported('unit text of several base dimensions')
        i = dims.pop()
        for c, f in alts:
            if f is None:
                g, what = cs[i] == 0, 'left out only if its exponent is zero'
            elif isinstance(f[1], Fr):
                g, what = cs[i] == S.num(f[1]), f'written without exponent only if its exponent is {f[1]}'
            else:
                g, what = cs[i] == f[1], 'written with exactly its exponent'
            ck.prove(fn, f'{S.names[i]}: {what}', list(st.pc) + [c], g, eng.axioms(), vocab=vocab)
        covered[i] = covered.get(i, 0) + 1
    for i in range(S.n):
        if i not in covered:
            ck.prove(fn, f'{S.names[i]}: left out only if its exponent is zero', st.pc, cs[i] == 0, eng.axioms(), vocab=vocab)
        else:
            ck.prove(fn, f'{S.names[i]}: written once', st.pc, z3.BoolVal(covered[i] == 1), eng.axioms(), vocab=vocab)


def ratio_display(ck, cfg, fn):
    """n or n/d: the text of the canonical representation"""
    P = lib_prog(cfg)
    x = find_trait(P, 'Display', 'Ratio', 'fmt')
    eng = Engine(P, mode='int', models=WRITERS + X.TEXTS + C.COLLECTIONS + M.BASIC, consts={})
    C.install(eng)
    st = State(eng)
    st.ghost[OUT] = ()
    args = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    fs = dict((f, i) for i, (f, _) in enumerate(P.struct_fields('Ratio')))
    v = eng.deref_all(args[0], st)
    n, d = [eng.field(v, None, fs[k], Ty('path', 'i64'), st) for k in ('num', 'denom')]
    txt = lambda k: X.text_of(eng, st, k)
    rets = 0
    for o in eng.call_body(x, args, st, {}):
        if o.kind != 'ret':
            ck.prove(fn, 'does not panic', o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
            continue
        rets += 1
        got = X.cat(*o.st.ghost[OUT])
        a, b = X.cat(txt(n)), X.cat(txt(n), X.lit('/'), txt(d))
        ck.prove(fn, 'numerator, then / and denominator unless the denominator is one', o.st.pc, z3.Or(got == b, z3.And(d == 1, got == a)), eng.axioms(), vocab=vocab)
    if not rets:
        ck.und(fn, 'no returning path')
    ck.covers += bool(rets)
    ck.use(eng)


# ------------------------------------------------------------------ reading text
WORDS = uf('words', U, U)                      # the pieces between white space
TRIM = uf('trim', U, U)
BOOL = z3.BoolSort()
INTOK, INTV = uf('parse.intok', U, BOOL), uf('parse.int', U, INT)
FOK = uf('parse.fok', U, BOOL)
FV = lambda ty, s: uf(f'parse.{ty}', U, U)(s)
DROP = uf('words.drop', U, INT, U)             # without the first k
SLEN = uf('str.len', U, INT)
ENC, DEC = uf('mag.enc', U, U), uf('mag.dec', U, U)
F64T, F32T = Ty('path', 'f64'), Ty('path', 'f32')
FULL_RANGE = (-2**31, 2**31 - 1)


def HAS_(p, s):
    return uf(f'has:{p}', U, BOOL)(s)


def HEAD_(p, s):
    return uf(f'head:{p}', U, U)(s)            # before the first occurrence


def TAIL_(p, s):
    return uf(f'tail:{p}', U, U)(s)            # after the first occurrence


def STARTS(p, s):
    return uf(f'starts:{p}', U, BOOL)(s)


def STRIP(p, s):
    return uf(f'strip:{p}', U, U)(s)


def pat(eng, st, v):
    """the text of a pattern (character or string literal)"""
    t = eng.to_u(eng.deref_all(v, st), st)
    k = re.fullmatch(r"char:'(.*)'", t.decl().name()) if z3.is_const(t) else None
    s = k.group(1) if k else X.lit_of(t)
    if s and not (k and len(s) > 1):
        return s
    raise Unsupported('pattern of a text function')


def string_u(eng, st, v):
    return eng.to_u(eng.deref_all(v, st), st)


def s_(t):
    return Opq(t, STRTY)


def fork(eng, st, c, yes, no):
    outs = []
    if eng.feasible(st, c):
        s = st.copy()
        s.assume(c)
        outs.append(Outcome('ret', s, yes(s)))
    if eng.feasible(st, z3.Not(c)):
        s = st.copy()
        s.assume(z3.Not(c))
        outs.append(Outcome('ret', s, no(s)))
    return outs


def seq_it(t, byref=False):
    return C.It([C.seq_fam(t, STRTY, byref)], STRTY)


def seq_of(eng, st, v):
    """the sequence of texts an iterator (or vector) yields"""
    x = eng.deref_all(v, st)
    if not isinstance(x, C.It):
        if isinstance(x, Opq) and isinstance(x.ty, Ty) and x.ty.kind == 'path' and x.ty.last in ('str', 'String'):
            return WORDS(x.t)
        return C.as_term(eng, st, x)[0]
    if len(x.fams) != 1 or x.fams[0].n is None:
        raise Unsupported('composite iterator of words')
    e = eng.to_u(x.fams[0].val(eng, st, [z3.IntVal(0)]), st)
    if z3.is_app(e) and e.decl().eq(C.AT(e, 0).decl()):
        off = z3.simplify(e.arg(1))
        k = z3.Int('k?')
        e2 = eng.to_u(x.fams[0].val(eng, st, [k]), st)
        if z3.is_int_value(off) and z3.is_app(e2) and z3.eq(e2.arg(0), e.arg(0)) and z3.eq(z3.simplify(e2.arg(1) - k), off) and \
                eng.valid(st, x.fams[0].n == C.LEN(e.arg(0)) - off):
            return drop(eng, st, e.arg(0), off.as_long())
    raise Unsupported('iterator of words')


def drop(eng, st, w, k):
    if k == 0:
        return w
    t = DROP(w, z3.IntVal(k))
    i = z3.Int('i')
    n = C.LEN(w)
    eng.facts.setdefault(('drop', t.get_id()), (t, [C.LEN(t) == z3.If(n >= k, n - k, 0), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - k), C.AT(t, i) == C.AT(w, i + k)), patterns=[C.AT(t, i)]),
                                                    z3.ForAll([i], z3.Implies(z3.And(k <= i, i < n), C.AT(w, i) == C.AT(t, i - k)), patterns=[C.AT(w, i)])]))
    return t


def m_trim(eng, st, args, dty, m, callee):
    u = string_u(eng, st, args[0])
    t = TRIM(u)
    eng.facts.setdefault(('trim', t.get_id()), (t, [WORDS(t) == WORDS(u), TRIM(t) == t]))
    return s_(t)


def m_words(eng, st, args, dty, m, callee):
    u = string_u(eng, st, args[0])
    w = WORDS(u)
    eng.facts.setdefault(('words', w.get_id()), (w, [C.LEN(w) >= 0]))
    return seq_it(w)


def m_collect_words(eng, st, args, dty, m, callee):
    x = eng.deref_all(args[0], st)
    if dty is None or C.peel(dty).last != 'Vec' or not isinstance(x, C.It):
        return C.m_collect(eng, st, args, dty, m, callee)
    try:
        return Opq(seq_of(eng, st, x), C.peel(dty))
    except Unsupported:
        return C.m_collect(eng, st, args, dty, m, callee)


def m_contains_text(eng, st, args, dty, m, callee):
    return HAS_(pat(eng, st, args[1]), string_u(eng, st, args[0]))


def pieces(eng, st, t):
    """t as a concatenation, using the decompositions that hold here"""
    out = []
    for p in X.parts(t):
        d = eng.decomp.get(p.get_id())
        d = [ps for c, ps in (d or []) if eng.valid(st, c)]
        if d:
            best = max(d, key=len)
            for q in best:
                out += pieces(eng, st, q)
        else:
            out.append(p)
    return out


def decompose(eng, t, cond, ps):
    ds = eng.decomp.setdefault(t.get_id(), [])
    if not any(z3.eq(c, cond) for c, _ in ds):
        ds.append((cond, ps))
        eng.facts.setdefault(('decomp', t.get_id(), cond.get_id()), (t, [SLEN(t) < 2**62, z3.Implies(cond, SLEN(t) == length(eng, ps))]))
        eng.keep.append((t, cond))


def length(eng, ps):
    n = []
    for p in ps:
        l = X.lit_of(p)
        if l is not None:
            n.append(z3.IntVal(len(l.encode())))
        else:
            eng.facts.setdefault(('slen', p.get_id()), (p, [SLEN(p) >= 0, SLEN(p) < 2**62]))
            n.append(SLEN(p))
    return z3.Sum(n) if n else z3.IntVal(0)


def found(eng, p, t):
    """t = head ++ p ++ tail if p occurs in t"""
    decompose(eng, t, HAS_(p, t), [HEAD_(p, t), X.lit(p), TAIL_(p, t)])


def m_find(eng, st, args, dty, m, callee):
    p, t = pat(eng, st, args[1]), string_u(eng, st, args[0])
    found(eng, p, t)
    return fork(eng, st, HAS_(p, t), lambda s: C.opt_some(length(eng, [HEAD_(p, t)])), lambda s: C.opt_none())


def m_split_once(eng, st, args, dty, m, callee):
    p, t = pat(eng, st, args[1]), string_u(eng, st, args[0])
    found(eng, p, t)
    return fork(eng, st, HAS_(p, t), lambda s: C.opt_some(Agg(Ty('tuple', '', (STRTY, STRTY)), None, [s_(HEAD_(p, t)), s_(TAIL_(p, t))])), lambda s: C.opt_none())


def split_seq(eng, p, t):
    w = uf(f'parts:{p}', U, U)(t)
    h, a, b = HAS_(p, t), HEAD_(p, t), TAIL_(p, t)
    h2 = HAS_(p, b)
    n = C.LEN(w)
    eng.facts.setdefault(('split', w.get_id()), (w, [n >= 1, (n == 1) == z3.Not(h), z3.Implies(h, z3.And(C.AT(w, 0) == a, (n == 2) == z3.Not(h2))),
                                                     z3.Implies(z3.Not(h), C.AT(w, 0) == t), z3.Implies(h, C.AT(w, 1) == z3.If(h2, HEAD_(p, b), b))]))
    return w


def m_split(eng, st, args, dty, m, callee):
    return seq_it(split_seq(eng, pat(eng, st, args[1]), string_u(eng, st, args[0])))


def cut(eng, st, t, k):
    """t split into the part of length k and the rest (None if that is not known here)"""
    ps = pieces(eng, st, t)
    k = k if z3.is_expr(k) else z3.IntVal(k)
    for i in range(len(ps) + 1):
        if eng.valid(st, length(eng, ps[:i]) == k):
            return ps[:i], ps[i:]
        l = X.lit_of(ps[i]) if i < len(ps) else None
        for j in range(1, len(l or '')):
            a = ps[:i] + [X.lit(l[:j])]
            if eng.valid(st, length(eng, a) == k):
                return a, [X.lit(l[j:])] + ps[i + 1:]
    raise Unsupported('text cut at an unknown place')


def m_split_at(eng, st, args, dty, m, callee):
    a, b = cut(eng, st, string_u(eng, st, args[0]), args[1])
    return Agg(Ty('tuple', '', (STRTY, STRTY)), None, [s_(X.cat(*a)), s_(X.cat(*b))])


def m_slice(eng, st, args, dty, m, callee):
    t, r = string_u(eng, st, args[0]), eng.deref_all(args[1], st)
    if not isinstance(r, Agg) or r.base is not None:
        raise Unsupported('slice')
    n = r.ty.last if isinstance(r.ty, Ty) and r.ty.kind == 'path' else ''
    ps = pieces(eng, st, t)
    if n == 'RangeTo':
        ps = cut(eng, st, X.cat(*ps), r.f[0])[0]
    elif n == 'RangeFrom':
        ps = cut(eng, st, X.cat(*ps), r.f[0])[1]
    elif n == 'Range':
        a = cut(eng, st, X.cat(*ps), r.f[1])[0]
        ps = cut(eng, st, X.cat(*a), r.f[0])[1]
    else:
        raise Unsupported('slice ' + n)
    return s_(X.cat(*ps))


def m_slen(eng, st, args, dty, m, callee):
    return length(eng, pieces(eng, st, string_u(eng, st, args[0])))


def m_is_empty_text(eng, st, args, dty, m, callee):
    return length(eng, pieces(eng, st, string_u(eng, st, args[0]))) == 0


def first_char(eng, st, p, t):
    """(starts with p, rest) of a text, looking at its first piece"""
    ps = pieces(eng, st, t)
    if not ps:
        return z3.BoolVal(False), X.EMPTY
    l = X.lit_of(ps[0])
    if l is not None:
        if len(l) < len(p) and p.startswith(l) and len(ps) > 1:
            raise Unsupported('prefix')
        return z3.BoolVal(l.startswith(p)), X.cat(X.lit(l[len(p):]), *ps[1:])
    nxt = X.lit_of(ps[1]) if len(ps) > 1 else ''
    if nxt is None or (nxt and nxt[0] in p):
        raise Unsupported('prefix')
    c = STARTS(p, ps[0])
    decompose(eng, ps[0], c, [X.lit(p), STRIP(p, ps[0])])
    return c, X.cat(STRIP(p, ps[0]), *ps[1:])


def m_starts_with(eng, st, args, dty, m, callee):
    return first_char(eng, st, pat(eng, st, args[1]), string_u(eng, st, args[0]))[0]


def m_strip_prefix(eng, st, args, dty, m, callee):
    c, rest = first_char(eng, st, pat(eng, st, args[1]), string_u(eng, st, args[0]))
    return fork(eng, st, c, lambda s: C.opt_some(s_(rest)), lambda s: C.opt_none())


def m_strip_suffix(eng, st, args, dty, m, callee):
    p, ps = pat(eng, st, args[1]), pieces(eng, st, string_u(eng, st, args[0]))
    l = X.lit_of(ps[-1]) if ps else ''
    if l is None or (len(l) < len(p) and len(ps) > 1):
        raise Unsupported('suffix')
    if not l.endswith(p):
        return C.opt_none()
    return C.opt_some(s_(X.cat(*ps[:-1], X.lit(l[:len(l) - len(p)]))))


def m_parse(eng, st, args, dty, m, callee):
    t, ty = string_u(eng, st, args[0]), m.group('t')
    RES = lambda var, v: Agg(Ty('path', 'Result'), var, [v])
    err = lambda s: RES('Err', Opq(uf('parse.err:' + ty, U, U)(t), Ty('path', 'ParseError')))
    if ty in ('f32', 'f64'):
        return fork(eng, st, FOK(t), lambda s: RES('Ok', Opq(FV(ty, t), Ty('path', ty))), err)
    if ty in INTS:
        l = X.lit_of(t)
        if l is not None and re.fullmatch(r'[+-]?[0-9]+', l):
            eng.fact(st, z3.And(INTOK(t), INTV(t) == int(l)))
        w, s = INTS[ty]
        lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if s else (0, 2**w - 1)
        return fork(eng, st, z3.And(INTOK(t), INTV(t) >= lo, INTV(t) <= hi), lambda s: RES('Ok', INTV(t)), err)
    raise Unsupported('parse ' + ty)


def m_replace(eng, st, args, dty, m, callee):
    p, to = pat(eng, st, args[1]), X.lit_of(string_u(eng, st, args[2]))
    if len(p) != 1 or p not in '[](),' or to is None:
        raise Unsupported('replace')
    out = []
    for q in X.parts(string_u(eng, st, args[0])):
        l = X.lit_of(q)
        if l is not None:
            out.append(X.lit(l.replace(p, to)))
        elif q.decl().name() in eng.plain or q.decl().name().startswith('display.f'):
            out.append(q)
        else:
            raise Unsupported('replace in an unknown text')
    return Opq(X.cat(*out), X.STRING)


def m_custom(eng, st, args, dty, m, callee):
    return Opq(z3.Const(eng.fresh_name('err'), U), Ty('path', 'E'))


def m_opt_filter(eng, st, args, dty, m, callee):
    outs = []
    for s, x in C.opt_cases(eng, st, args[0]):
        if x is None:
            outs.append(Outcome('ret', s, C.opt_none(dty)))
            continue
        for o in eng.call_value(args[1], [Ref(s.cell(x)) if not isinstance(x, Ref) else x], s, Ty('path', 'bool')):
            if o.kind != 'ret':
                outs.append(o)
                continue
            outs += fork(eng, o.st, o.val, lambda s2: C.opt_some(x, dty), lambda s2: C.opt_none(dty))
    return outs


def m_from_array(eng, st, args, dty, m, callee):
    a = eng.deref_all(args[0], st)
    v = m.group('t')
    xs = [a.f[i] for i in sorted(a.f)] if isinstance(a, Agg) and a.base is None else None
    if m.group('n') == 'new':
        xs = list(args)
    if xs is None or len(xs) != G.VECS[v][1]:
        raise Unsupported('components of a vector')
    return Opq(vec_term(v, [eng.to_u(x, st) for x in xs]), Ty('path', v))


def vec_term(v, xs):
    return uf(f'vec.{v}', *([U] * len(xs)), U)(*xs)


def m_io(eng, st, args, dty, m, callee):
    """a call handed to serde: recorded"""
    n = m.group('n')
    t = z3.Const(eng.fresh_name('io'), U)
    if n.startswith('serialize_') or n == 'collect_str':
        what = X.text_of(eng, st, args[1])
    else:
        what = m.group('v')
    st.ghost['calls'] = st.ghost['calls'] + ((n, eng.to_u(args[0], st), what, t),)
    return eng.val_of_term(dty, t, st) if dty is not None else Opq(t, Ty('path', 'Result'))


SW = r'(?:(?:\w+::)*str::)?'
READERS = [
    (R(SW + r'(?:trim|trim_start|trim_end)'), m_trim),
    (R(SW + r'(?:split_whitespace|split_ascii_whitespace)'), m_words),
    (R(r'<(?:\w+::)*Split(?:Whitespace|<.*>)? as Iterator>::collect<.*>'), m_collect_words),
    (R(SW + r'contains<.*>'), m_contains_text),
    (R(SW + r'find<.*>'), m_find),
    (R(SW + r'split_once<.*>'), m_split_once),
    (R(SW + r'split<.*>'), m_split),
    (R(SW + r'split_at'), m_split_at),
    (R(SW + r'len|String::len'), m_slen),
    (R(SW + r'is_empty|String::is_empty'), m_is_empty_text),
    (R(SW + r'starts_with<.*>'), m_starts_with),
    (R(SW + r'strip_prefix<.*>'), m_strip_prefix),
    (R(SW + r'strip_suffix<.*>'), m_strip_suffix),
    (R(r'(?:' + SW + r'parse<|<)(?P<t>\w+)(?:>| as (?:\w+::)*FromStr>::from_str)'), m_parse),
    (R(SW + r'replace<.*>'), m_replace),
    (R(r'<(?:str|String) as (?:\w+::)*Index<.*>>::index'), m_slice),
    (R(r'<.* as (?:\w+::)*Error>::\w+(?:<.*>)?'), m_custom),
    (R(r'Option<.*>::filter<.*>'), m_opt_filter),
    (R(r'(?:\w+::)*(?P<t>D?Vec[23])::(?P<n>from_array|new)'), m_from_array),
    (R(r'<.* as (?:\w+::)*Deserializer(?:<.*>)?>::(?P<n>deserialize_\w+)<(?P<v>.*)>'), m_io),
    (R(r'<.* as (?:\w+::)*Serializer>::(?P<n>serialize_str|collect_str)(?:<.*>)?'), m_io),
    (R(r'<.* as (?:\w+::)*(?:Add|Sub|Mul|Div)(?:<.*>)?>::(?P<op>add|sub|mul|div)'), G.m_op),
]


class TextEngine(G.GenEngine):
    def valid(self, st, c):
        return not self.feasible(st, z3.Not(c))


class Unroll:
    """a loop over a literal range: its iterations one after the other"""

    def applies(self, eng, fr, st, bb, body, loc):
        if loc is None:
            return False
        it = st.mem.get(fr['cells'][loc])
        if not isinstance(it, C.It) or len(it.fams) != 1 or it.fams[0].n is None:
            return False
        n = z3.simplify(it.fams[0].n)
        return z3.is_int_value(n) and n.as_long() <= 8

    def run(self, eng, fr, st, bb, body, seen, outs, loc):
        cell = fr['cells'][loc]
        it = st.mem[cell]
        fam = it.fams[0]
        n = z3.simplify(fam.n).as_long()
        states, work = [st], []
        for k in range(n + 1):
            nxt = []
            for s in states:
                s = s.copy()
                s.mem[cell] = C.ItAt(it, fam, [z3.IntVal(k)]) if k < n else C.ItEnd(it)
                for kind, sb, b2, sn in eng.exec(fr, [(s, bb, seen)], outs, bb, body):
                    if kind == 'back':
                        if k == n:
                            raise Unsupported('loop does not stop at the end of its iterator')
                        nxt.append(sb)
                    else:
                        sb.mem[cell] = C.ItUsed(it)
                        work.append((sb, b2, seen))
            states = nxt
        return work


class Reader:
    """specification of the text format, for one configuration"""

    def __init__(self, cfg):
        self.S = Sys(cfg)
        self.L = Lists(self.S)
        self.cfg = cfg

    def in32(self, v):
        return z3.And(v >= FULL_RANGE[0], v <= FULL_RANGE[1])

    # exponents: n, or n/d
    def exp(self, s, must):
        ok = lambda t: z3.And(INTOK(t), self.in32(INTV(t))) if must else INTOK(t)
        if not self.S.rational:
            return ok(s)
        h, a, b = HAS_('/', s), HEAD_('/', s), TAIL_('/', s)
        return z3.If(h, z3.And(ok(a), ok(b), INTV(b) != 0), ok(s))

    def expval(self, s):
        """facts fixing the number an exponent text denotes"""
        v = self.S.expv(s)
        if not self.S.rational:
            return [v == INTV(s)]
        h, a, b = HAS_('/', s), HEAD_('/', s), TAIL_('/', s)
        return [z3.If(h, z3.Implies(INTV(b) != 0, v * z3.ToReal(INTV(b)) == z3.ToReal(INTV(a))), v == z3.ToReal(INTV(s)))]

    # one factor: sym, or sym^e
    def one(self, w, must):
        h, a, b = HAS_('^', w), HEAD_('^', w), TAIL_('^', w)
        return z3.If(h, z3.And(z3.Not(HAS_('^', b)), self.exp(b, must), KNOWN(a)), KNOWN(w))

    def sym(self, w):
        return z3.If(HAS_('^', w), HEAD_('^', w), w)

    def e1(self, w):
        return z3.If(HAS_('^', w), self.S.expv(TAIL_('^', w)), z3.RealVal(1) if self.S.rational else z3.IntVal(1))

    def d1(self, i, w):
        return self.S.udim(i, self.sym(w)) * self.e1(w)

    def f1(self, w):
        return self.S.pow(UMAG(self.sym(w)), self.e1(w))

    # contracts
    def magnitude_contracts(self):
        S = self.S
        MAGT = Ty('path', 'Magnitude')

        def dec(eng, t):
            if z3.is_app(t) and t.decl().name() == 'mag.enc':
                return t.arg(0)
            return DEC(t)

        def from_(eng, st, args):
            return Opq(ENC(eng.to_u(eng.deref_all(args[0], st), st)), MAGT)

        def into(eng, st, args):
            return Opq(dec(eng, eng.to_u(eng.deref_all(args[0], st), st)), F64T)

        def fpow(eng, st, args):
            x = dec(eng, eng.to_u(eng.deref_all(args[0], st), st))
            e = eng.deref_all(args[1], st)
            if S.rational:
                return Opq(ENC(S.pow(x, RAT(eng.to_u(e, st)))), MAGT)
            e = e if z3.is_expr(e) else z3.IntVal(e)
            p = S.pow(x, e)
            if eng.valid(st, self.in32(e)):
                return Opq(ENC(p), MAGT)
            return Opq(ENC(z3.If(self.in32(e), p, uf('pow.cut', U, INT, U)(x, e))), MAGT)
        T_ = r'<(?:Ratio|i64) as (?:\w+::)*DimensionExponent>::float_pow'
        return [FnContract('Magnitude::from_f64 (C01)', lambda k: re.fullmatch(r'(?:\w+::)*Magnitude::from_f64', k) is not None, from_),
                FnContract('Magnitude::into_f64 (C01)', lambda k: re.fullmatch(r'(?:\w+::)*Magnitude::into_f64', k) is not None, into),
                FnContract('DimensionExponent::float_pow (C02)', lambda k: re.fullmatch(T_, k) is not None, fpow)]

    def c_parse_exponent(self):
        S = self.S

        def f(eng, st, args):
            s = string_u(eng, st, args[0])
            some = st.copy()
            some.assume(z3.And([self.exp(s, False)] + self.expval(s)))
            if S.rational:
                t = uf('parse.ratio', U, U)(s)
                some.assume(RAT(t) == S.expv(s))
                v = Opq(t, RATIO_TY)
            else:
                some.assume(self.in32(S.expv(s)))
                v = S.expv(s)
            none = st.copy()
            none.assume(z3.Not(self.exp(s, True)))
            return [Outcome('ret', some, C.opt_some(v)), Outcome('ret', none, C.opt_none())]
        return FnContract('parse_exponent', lambda k: re.fullmatch(r'(?:\w+::)*parse_exponent', k) is not None, f)

    def pair(self, eng, st, d, f, comps):
        """the value (Dimension, f64)"""
        v = Opq(d, DIMTY)
        st.assume(z3.And([a == b for a, b in zip(self.S.comps(eng, st, v), comps)]))
        return Agg(Ty('path', 'Result'), 'Ok', [Agg(Ty('tuple', '', (DIMTY, F64T)), None, [v, Opq(f, F64T)])])

    def all_ok(self, w, must):
        k = z3.Int('k')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < C.LEN(w)), self.one1(C.AT(w, k), must)), patterns=[C.AT(w, k)])

    def one1(self, w, must):
        """abbreviation of one(w, must), which is all the callers need to know"""
        return uf('unit.must' if must else 'unit.may', U, BOOL)(w)

    def c_units(self):
        S = self.S

        def f(eng, st, args):
            w = seq_of(eng, st, args[0])
            n = C.LEN(w)
            ok = st.copy()
            ok.assume(self.all_ok(w, False))
            v = self.pair(eng, ok, uf('units.dim', U, U)(w), FPROD(w, n), [S.dsum(i, w, n) for i in range(S.n)])
            err = st.copy()
            err.assume(z3.Not(self.all_ok(w, True)))
            return [Outcome('ret', ok, v), Outcome('ret', err, Agg(Ty('path', 'Result'), 'Err', [m_custom(eng, err, [], None, None, None)]))]
        return FnContract('read_unit_str', lambda k: re.fullmatch(r'(?:\w+::)*read_unit_str(?:<.*>)?', k) is not None, f)

    def c_match(self):
        S = self.S

        def f(eng, st, args):
            d = S.comps(eng, st, args[2])
            D = S.comps(eng, st, the_D(eng, st))
            same = z3.And([a == b for a, b in zip(d, D)])
            return fork(eng, st, same, lambda s: Agg(Ty('path', 'Result'), 'Ok', [Agg(Ty('path', 'Quantity'), None, [args[1]])]),
                        lambda s: Agg(Ty('path', 'Result'), 'Err', [m_custom(eng, s, [], None, None, None)]))
        return FnContract('get_quantity_if_dimensions_match', lambda k: re.fullmatch(r'(?:\w+::)*get_quantity_if_dimensions_match(?:<.*>)?', k) is not None, f)

    def engine(self, *contracts, gens=('D', 'S', 'E', 'DE')):
        S = self.S
        eng = TextEngine(S.P, mode='int', models=WRITERS + READERS + X.TEXTS + C.COLLECTIONS + M.BASIC, consts={},
                         contracts=list(contracts) + S.contracts() + self.L.contracts() + ratio_contracts() + self.magnitude_contracts())
        C.install(eng)
        eng.decomp, eng.keep, eng.plain = {}, [], set()
        eng.loop_spec = lambda item: C.AutoLoop([Unroll()])
        eng.generic_params = set(gens)
        eng.consts['type:D'] = DIMTY
        eng.max_paths = 5000
        return eng


FPROD = uf('unit.prod', U, INT, U)


def uf_d1(S, i, w):
    return uf(f'unit.{"q" if S.rational else "i"}d1_{i}', U, S.srt)(w)


def the_D(eng, st):
    return eng.val_of_term(DIMTY, z3.Const('const:D', U), st)


def fn_item(P, name):
    xs = [x for x in P.by_last.get(name, []) if '<impl' not in x.name]
    if len(xs) != 1:
        raise Unsupported(f'{name}: {len(xs)} candidates')
    return xs[0]


def runs(ck, eng, fn, x, args, st, ok_panic=lambda m: False):
    """outcomes of a body that returns"""
    out = []
    for o in eng.call_body(x, args, st, {}):
        if o.kind == 'ret':
            out.append(o)
        elif o.kind == 'panic' and not ok_panic(o.msg):
            ck.prove(fn, 'does not panic: ' + o.msg[:40], o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
    if not out:
        ck.und(fn, 'no returning path')
    ck.covers += bool(out)
    ck.use(eng)
    return out


def c17(ck):
    ck.assumptions |= {'contracts of str (find, split, split_once, split_whitespace, trim, parse, ...) as in props_text.py: words are the pieces between white space, '
                       'head/tail the text before/after the first occurrence', 'parse::<iN> accepts exactly the decimal integers in range, parse::<fN> is the correctly rounded number',
                       'a formatted number or unit text has no bracket or comma (units: C18)', 'glam writes a vector as [x, y, ...]', 'powi(1)/powf(1.0) is the identity, powers of one are one',
                       'exponent products that overflow i64 panic', 'serde hands the text to the visitor'}
    for cfg in ('all', 'norational'):
        T_ = f' [{cfg}]'
        try:
            Rd = Reader(cfg)
        except Unsupported as e:
            ck.und('Dimension' + T_, str(e))
            continue
        g = lambda n, f: ck.guard(n + T_, lambda: f(ck, Rd, n + T_))
        g('parse_exponent', t_exponent)
        g('read_single_unit_str', t_single)
        g('read_unit_str', t_units)
        g('get_quantity_if_dimensions_match', t_match)
        for ty in G.FLOATT + tuple(G.VECS):
            n = f'<QuantityVisitor<{ty}> as Visitor>::visit_str'
            ck.guard(n + T_, lambda: (t_vec if ty in G.VECS else t_scalar)(ck, Rd, n + T_, ty))
            for v in ('visit_i64', 'visit_u64', 'visit_f64') if ty in G.FLOATT else ():
                n = f'<QuantityVisitor<{ty}> as Visitor>::{v}'
                ck.guard(n + T_, lambda: t_number(ck, Rd, n + T_, ty, v))
            n = f'<Quantity<{ty}, D> as Deserialize>::deserialize'
            ck.guard(n + T_, lambda: t_deserialize(ck, Rd, n + T_, ty))
            n = f'<Quantity<{ty}, D> as Serialize>::serialize'
            ck.guard(n + T_, lambda: t_serialize(ck, Rd, n + T_, ty))
        ck.guard('round trip' + T_, lambda: round_trip(ck, Rd, 'round trip' + T_))


def method(P, name, trait, ty):
    """the method `name` of a trait impl for QuantityVisitor<ty, ..> or Quantity<ty, ..>"""
    out = []
    for x in P.by_last.get(name, []):
        i = P.impl_of(x.name)
        if i and i.trait is not None and i.ty is not None and i.ty.kind == 'path' and i.trait.last == trait and i.ty.args and i.ty.args[0].kind == 'path' and i.ty.args[0].last == ty:
            out.append(x)
    if len(out) != 1:
        raise Unsupported(f'{name} of {trait} for {ty}: {len(out)} candidates')
    return out[0]


def t_exponent(ck, Rd, fn):
    S = Rd.S
    eng = Rd.engine()
    x = fn_item(S.P, 'parse_exponent')
    st = State(eng)
    s = z3.Const('s', U)
    st.pc += Rd.expval(s)
    for o in runs(ck, eng, fn, x, [s_(s)], st):
        d = z3.simplify(eng.discr(o.val, o.st))
        if eng.feasible(o.st, d == 1):
            v = eng.deref_all(eng.field(o.val, 'Some', 0, S.ety, o.st), o.st)
            v = RAT(eng.to_u(v, o.st)) if S.rational else v
            ck.prove(fn, 'accepts only integers' + (' and fractions with a nonzero denominator' if S.rational else ''), o.st.pc + [d == 1], Rd.exp(s, False), eng.axioms(), vocab=vocab)
            ck.prove(fn, 'the exponent is the number written', o.st.pc + [d == 1], v == S.expv(s), eng.axioms(), vocab=vocab)
            if not S.rational:
                ck.prove(fn, 'the exponent is in the range of i32', o.st.pc + [d == 1], Rd.in32(v), eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 0):
            ck.prove(fn, 'rejects no exponent in the range of i32', o.st.pc + [d == 0], z3.Not(Rd.exp(s, True)), eng.axioms(), vocab=vocab)


def t_single(ck, Rd, fn):
    from props_tv import dim_goal, near
    S = Rd.S
    Rd.L.seen = []
    eng = Rd.engine(Rd.c_parse_exponent())
    x = fn_item(S.P, 'read_single_unit_str')
    st = State(eng)
    w = z3.Const('w', U)
    for o in runs(ck, eng, fn, x, [s_(w)], st, lambda m: 'overflow' in m):
        d = z3.simplify(eng.discr(o.val, o.st))
        if eng.feasible(o.st, d == 0):
            pc = o.st.pc + [d == 0]
            p = eng.field(o.val, 'Ok', 0, None, o.st)
            dims = S.comps(eng, o.st, eng.field(p, None, 0, DIMTY, o.st))
            f = eng.to_u(eng.field(p, None, 1, F64T, o.st), o.st)
            ck.prove(fn, 'accepts only a listed symbol, with one well-formed exponent if any', pc, Rd.one(w, False), eng.axioms(), vocab=vocab)
            for i, n in enumerate(S.names):
                ck.prove(fn, f'{n}: exponent of the unit times the power', pc, dims[i] == Rd.d1(i, w), eng.axioms(), vocab=vocab)
            u = UMAG(Rd.sym(w))
            one = z3.RealVal(1) if S.rational else z3.IntVal(1)
            ck.prove(fn, 'factor: magnitude of the unit raised to the power', pc + [S.pow(u, one) == u], f == Rd.f1(w), eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 1):
            ck.prove(fn, 'rejects no listed symbol with a well-formed exponent', o.st.pc + [d == 1], z3.Not(Rd.one(w, True)), eng.axioms(), vocab=vocab)
    if len(Rd.L.lists()) != 1:
        raise Unsupported(f'{len(Rd.L.lists())} unit lists are looked up')
    es = Rd.L.lists()[0]
    Rd.list = es
    syms = T.symbols()
    symbols_ok(ck, fn, es, False)
    seen = {}
    for e in es:
        ck.prove(fn, f'entry {e.sym}: listed once', [], z3.BoolVal(e.sym not in seen))
        seen[e.sym] = e
        if e.sym in syms:
            d, v, n = syms[e.sym]
            ck.prove(fn, f'entry {e.sym}: dimension and magnitude of the unit of that symbol', [], z3.And(dim_goal(dict(zip(S.names, e.dim)), d), near(e.mag, v)))
    for s in syms:
        if s not in seen:
            ck.prove(fn, f'entry {s}: the unit of that symbol can be read', [], z3.BoolVal(False))


def t_units(ck, Rd, fn):
    S = Rd.S
    eng = Rd.engine(c_single1(Rd))
    x = fn_item(S.P, 'read_unit_str')
    st = State(eng)
    (l, t), = x.args()
    t = strip_life(t)
    if t.kind == 'ref':
        w = WORDS(z3.Const('s', U))
        arg = s_(w.arg(0))
    else:
        w = z3.Const('w', U)
        arg = seq_it(w)
    n = C.LEN(w)
    st.pc.append(n >= 0)
    sink = []
    one = eng.to_u(eng.float_const('1.0', 'f64'), st)
    st.pc.append(z3.And([S.dsum(i, w, z3.IntVal(0)) == 0 for i in range(S.n)] + [FPROD(w, z3.IntVal(0)) == one]))

    def cells(eng, fr, s):
        """the running dimension and factor: what the loop changes of these types"""
        from loops import assigned_locals
        ls = assigned_locals(fr['fn'], fr['body'])
        out = []
        for l, c in fr['cells'].items():
            if l in ls and c in s.mem and isinstance(s.mem[c], (Opq, Agg)) and isinstance(s.mem[c].ty, Ty) and c in fr['entry']:
                ty = s.mem[c].ty
                if ty.kind == 'path' and (ty.last == 'Dimension' or str(ty) == 'f64'):
                    out.append(c)
        return out

    def step(s, pos):
        for k in (pos - 1, pos):
            k = z3.simplify(k)
            e = C.AT(w, k)
            nx = z3.simplify(k + 1)
            eng.fact(s, z3.Implies(k >= 0, z3.And([S.dsum(i, w, nx) == S.dsum(i, w, k) + uf_d1(S, i, e) for i in range(S.n)])))
            a, b = FPROD(w, k), uf('unit.f1', U, U)(e)
            eng.fact(s, z3.Implies(k >= 0, z3.And(FPROD(w, nx) == uf('op.mul', U, U, U)(a, b), uf('op.mul', U, U, U)(a, b) == uf('op.mul', U, U, U)(b, a))))

    def inv(eng, fr, s, it, pos):
        step(s, pos)
        ds = [c for c in cells(eng, fr, s) if s.mem[c].ty.last == 'Dimension']
        fs = [c for c in cells(eng, fr, s) if s.mem[c].ty.last == 'f64']
        if len(ds) != 1 or len(fs) != 1:
            raise Unsupported('running dimension and factor not recognised')
        k = z3.Int('k')
        cs = S.comps(eng, s, s.mem[ds[0]])
        return z3.And([z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < pos), Rd.one1(C.AT(w, k), False)), patterns=[C.AT(w, k)])] +
                      [cs[i] == S.dsum(i, w, pos) for i in range(S.n)] + [eng.to_u(s.mem[fs[0]], s) == FPROD(w, pos)])

    class Inv(C.ForInv):
        def run(self, eng, fr, st, bb, body, seen, outs, loc):
            fr = dict(fr)
            fr['body'], fr['entry'] = body, set(st.mem)
            return super().run(eng, fr, st, bb, body, seen, outs, loc)
    loop = Inv(inv, modifies=cells, sink=sink, name='factors')
    eng.loop_spec = lambda item: C.AutoLoop([loop])
    for o in runs(ck, eng, fn, x, [arg], st):
        d = z3.simplify(eng.discr(o.val, o.st))
        if eng.feasible(o.st, d == 0):
            pc = o.st.pc + [d == 0]
            p = eng.field(o.val, 'Ok', 0, None, o.st)
            dims = S.comps(eng, o.st, eng.field(p, None, 0, DIMTY, o.st))
            f = eng.to_u(eng.field(p, None, 1, F64T, o.st), o.st)
            ck.prove(fn, 'accepts only if every factor is valid', pc, Rd.all_ok(w, False), eng.axioms(), vocab=vocab)
            for i, nm in enumerate(S.names):
                ck.prove(fn, f'{nm}: sum over the factors', pc, dims[i] == S.dsum(i, w, n), eng.axioms(), vocab=vocab)
            ck.prove(fn, 'factor: product over the factors', pc, f == FPROD(w, n), eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 1):
            ck.prove(fn, 'rejects only if some factor is invalid', o.st.pc + [d == 1], z3.Not(Rd.all_ok(w, True)), eng.axioms(), vocab=vocab)
    if not sink:
        raise Unsupported('no loop over the factors')
    for name, pc, goal, ax in sink:
        ck.prove(fn, name, pc, goal, ax, vocab=vocab)


def c_single1(Rd):
    """contract of read_single_unit_str with its predicates abbreviated"""
    S = Rd.S

    def f(eng, st, args):
        w = string_u(eng, st, args[0])
        ok = st.copy()
        ok.assume(Rd.one1(w, False))
        v = Rd.pair(eng, ok, uf('single.dim', U, U)(w), uf('unit.f1', U, U)(w), [uf_d1(S, i, w) for i in range(S.n)])
        err = st.copy()
        err.assume(z3.Not(Rd.one1(w, True)))
        return [Outcome('ret', ok, v), Outcome('ret', err, Agg(Ty('path', 'Result'), 'Err', [m_custom(eng, err, [], None, None, None)]))]
    return FnContract('read_single_unit_str', lambda k: re.fullmatch(r'(?:\w+::)*read_single_unit_str(?:<.*>)?', k) is not None, f)


def t_match(ck, Rd, fn):
    S = Rd.S
    eng = Rd.engine()
    x = fn_item(S.P, 'get_quantity_if_dimensions_match')
    st = State(eng)
    args = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    ix = [i for i, (_, t) in enumerate(x.args()) if strip_life(t).kind == 'path' and strip_life(t).last == 'Dimension']
    sx = [i for i, (_, t) in enumerate(x.args()) if strip_life(t).kind == 'path' and strip_life(t).last == 'S']
    if len(ix) != 1 or len(sx) != 1:
        raise Unsupported('arguments')
    d, D = S.comps(eng, st, args[ix[0]]), S.comps(eng, st, the_D(eng, st))
    same = z3.And([a == b for a, b in zip(d, D)])
    val = eng.to_u(args[sx[0]], st)
    for o in runs(ck, eng, fn, x, args, st):
        k = z3.simplify(eng.discr(o.val, o.st))
        ck.prove(fn, 'succeeds exactly if the dimension is the requested one', o.st.pc, (k == 0) == same, eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, k == 0):
            q = eng.field(o.val, 'Ok', 0, None, o.st)
            ck.prove(fn, 'the value is passed on unchanged', o.st.pc + [k == 0], eng.to_u(eng.field(q, None, 0, Ty('path', 'S'), o.st), o.st) == val, eng.axioms(), vocab=vocab)


def visit(ck, Rd, fn, ty, name='visit_str', merge=False):
    S = Rd.S
    eng = Rd.engine(Rd.c_units(), Rd.c_match())
    x = method(S.P, name, 'Visitor', ty)
    st = State(eng)
    return S, eng, x, st


def stored(eng, o, ty):
    q = eng.field(o.val, 'Ok', 0, None, o.st)
    return eng.to_u(eng.field(q, None, 0, Ty('path', ty), o.st), o.st)


def comm_fact(a, b):
    m = uf('op.mul', U, U, U)
    return m(a, b) == m(b, a)


def t_scalar(ck, Rd, fn, ty):
    S, eng, x, st = visit(ck, Rd, fn, ty)
    s = z3.Const('s', U)
    w = WORDS(s)
    rest = drop(eng, st, w, 1)
    D = S.comps(eng, st, the_D(eng, st))
    dims = z3.And([S.dsum(i, rest, C.LEN(rest)) == D[i] for i in range(S.n)])
    ok = lambda must: z3.And(C.LEN(w) >= 1, FOK(C.AT(w, 0)), Rd.all_ok(rest, must), dims)
    num, fac = FV(ty, C.AT(w, 0)), Opq(FPROD(rest, C.LEN(rest)), F64T)
    fac = eng.to_u(eng.cast(fac, F64T, Ty('path', ty), 'FloatToFloat', st), st)
    want = uf('op.mul', U, U, U)(num, fac)
    for o in runs(ck, eng, fn, x, [Opq(z3.Const('self', U), Ty('path', 'QuantityVisitor')), s_(s)], st):
        d = z3.simplify(eng.discr(o.val, o.st))
        if eng.feasible(o.st, d == 0):
            ck.prove(fn, 'accepts only a number followed by valid factors of the requested dimension', o.st.pc + [d == 0], ok(False), eng.axioms(), vocab=vocab)
            ck.prove(fn, 'the value is the number times the factor', o.st.pc + [d == 0, comm_fact(num, fac)], stored(eng, o, ty) == want, eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 1):
            ck.prove(fn, 'rejects no number followed by valid factors of the requested dimension', o.st.pc + [d == 1], z3.Not(ok(True)), eng.axioms(), vocab=vocab)


def t_vec(ck, Rd, fn, ty):
    S, eng, x, st = visit(ck, Rd, fn, ty)
    f, n = G.VECS[ty]
    s = z3.Const('s', U)
    t = TRIM(s)
    h, tail = HEAD_(')', t), TAIL_(')', t)
    inner = STRIP('(', h)
    w, us = WORDS(inner), WORDS(tail)
    D = S.comps(eng, st, the_D(eng, st))
    dims = z3.And([S.dsum(i, us, C.LEN(us)) == D[i] for i in range(S.n)])
    ok = lambda must: z3.And([HAS_(')', t), STARTS('(', h), C.LEN(w) == n] + [FOK(C.AT(w, i)) for i in range(n)] + [Rd.all_ok(us, must), dims])
    vec = vec_term(ty, [FV(f, C.AT(w, i)) for i in range(n)])
    fac = Opq(FPROD(us, C.LEN(us)), F64T)
    fac = eng.to_u(eng.cast(fac, F64T, Ty('path', f), 'FloatToFloat', st), st)
    want = uf('op.mul', U, U, U)(fac, vec)
    for o in runs(ck, eng, fn, x, [Opq(z3.Const('self', U), Ty('path', 'QuantityVisitor')), s_(s)], st):
        d = z3.simplify(eng.discr(o.val, o.st))
        if eng.feasible(o.st, d == 0):
            ck.prove(fn, f'accepts only {n} numbers in brackets followed by valid factors of the requested dimension', o.st.pc + [d == 0], ok(False), eng.axioms(), vocab=vocab)
            ck.prove(fn, 'the value is the vector of these numbers, in order, times the factor', o.st.pc + [d == 0, comm_fact(vec, fac)], stored(eng, o, ty) == want, eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 1):
            ck.prove(fn, f'rejects no {n} numbers in brackets followed by valid factors of the requested dimension', o.st.pc + [d == 1], z3.Not(ok(True)), eng.axioms(), vocab=vocab)


def t_number(ck, Rd, fn, ty, name):
    S, eng, x, st = visit(ck, Rd, fn, ty, name)
    src = Ty('path', name[6:])
    v = eng.fresh(src, st, 'v')
    D = S.comps(eng, st, the_D(eng, st))
    none = z3.And([d == 0 for d in D])
    want = eng.to_u(eng.cast(v, src, Ty('path', ty), 'FloatToFloat' if name == 'visit_f64' else 'IntToFloat', st), st)
    for o in runs(ck, eng, fn, x, [Opq(z3.Const('self', U), Ty('path', 'QuantityVisitor')), v], st):
        d = z3.simplify(eng.discr(o.val, o.st))
        ck.prove(fn, 'succeeds exactly for dimensionless quantities', o.st.pc, (d == 0) == none, eng.axioms(), vocab=vocab)
        if eng.feasible(o.st, d == 0):
            ck.prove(fn, 'the value is the number', o.st.pc + [d == 0], stored(eng, o, ty) == want, eng.axioms(), vocab=vocab)


def t_deserialize(ck, Rd, fn, ty):
    S = Rd.S
    eng = Rd.engine()
    x = method(S.P, 'deserialize', 'Deserialize', ty)
    st = State(eng)
    st.ghost['calls'] = ()
    de = Opq(z3.Const('de', U), Ty('path', 'DE'))
    for o in runs(ck, eng, fn, x, [de], st):
        cs = o.st.ghost['calls']
        if len(cs) != 1:
            ck.und(fn, f'{len(cs)} calls of the deserializer')
            continue
        n, d, v, t = cs[0]
        v = strip_life(parse_ty(v))
        ck.prove(fn, 'asks for text', [], z3.BoolVal(n in ('deserialize_string', 'deserialize_str', 'deserialize_any')))
        ck.prove(fn, 'with the visitor of this storage type and dimension', [], z3.BoolVal(v.kind == 'path' and v.last == 'QuantityVisitor' and str(v.args[0]).split('::')[-1] == ty and G.dim_text(v.args[1:]) == 'D'))
        ck.prove(fn, 'and returns what it read', o.st.pc, z3.And(eng.to_u(o.val, o.st) == t, d == de.t), eng.axioms(), vocab=vocab)


def t_serialize(ck, Rd, fn, ty):
    S = Rd.S
    eng = Rd.engine(gens=('D', 'S'))
    x = method(S.P, 'serialize', 'Serialize', ty)
    st = State(eng)
    st.ghost['calls'] = ()
    a = [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()]
    q = eng.to_u(eng.deref_all(a[0], st), st)
    REST = uf('text.units', U, U)(q)            # what Debug writes after the value
    eng.plain = {'text.units'}
    if ty in G.VECS:
        f, n = G.VECS[ty]
        xs = [uf(f'display.{f}', U, U)(uf(f'comp.{i}', U, U)(q)) for i in range(n)]
        body = [X.lit('[')]
        want = [X.lit('(')]
        for i, c in enumerate(xs):
            body += ([X.lit(', ')] if i else []) + [c]
            want += ([X.lit(' ')] if i else []) + [c]
        text, want = X.cat(*body, X.lit(']'), REST), X.cat(*want, X.lit(')'), REST)
    else:
        text = want = X.cat(uf(f'display.{ty}', U, U)(uf('comp.0', U, U)(q)), REST)

    def shows(eng, st, v, how):
        if how == 'debug' and isinstance(v, (Opq, Agg)) and isinstance(v.ty, Ty) and v.ty.kind == 'path' and v.ty.last == 'Quantity' and z3.eq(eng.to_u(v, st), q):
            return text
        return None
    eng.shows = shows
    for o in runs(ck, eng, fn, x, a, st):
        cs = o.st.ghost['calls']
        if len(cs) != 1:
            ck.und(fn, f'{len(cs)} calls of the serializer')
            continue
        n, s, v, t = cs[0]
        v = blanks(v)
        ck.prove(fn, 'writes the Debug text' + (', the vector as (x y ...)' if ty in G.VECS else ''), o.st.pc, v == want, eng.axioms(), vocab=vocab)
        ck.prove(fn, 'and returns what the serializer returns', o.st.pc, z3.And(eng.to_u(o.val, o.st) == t, s == eng.to_u(a[1], o.st)), eng.axioms(), vocab=vocab)


def blanks(t):
    """the same text for the reader: one blank where there are several, none next to the brackets"""
    return X.cat(*[p if X.lit_of(p) is None else X.lit(re.sub(r'\s+', ' ', X.lit_of(p)).replace('( ', '(').replace(' )', ')')) for p in X.parts(t)])


def round_trip(ck, Rd, fn):
    """the unit lists of Debug and of the reader agree, so that the factors Debug writes (C18) are read back as D, with factor one"""
    S = Rd.S
    L = Lists(S)
    eng = make(S, L.contracts())
    eng.merge = join_states
    x = find_trait(S.P, 'Debug', 'Quantity<S, D>', 'fmt')
    st = State(eng)
    st.ghost[OUT] = ()
    for o in eng.call_body(x, [eng.fresh(strip_life(t), st, 'a') for _, t in x.args()], st, {}):
        pass
    if not getattr(Rd, 'list', None) or not L.seen:
        raise Unsupported('unit lists not known')
    rd = {e.sym: e for e in Rd.list}
    base = set()
    for es in L.lists():
        for e in es:
            r = rd.get(e.sym)
            ck.prove(fn, f'{e.sym}: read back as a unit of the dimension it is written for, with magnitude one', [],
                     z3.BoolVal(r is not None and list(r.dim) == list(e.dim) and r.mag == 1))
            nz = [i for i in range(S.n) if e.dim[i]]
            if len(nz) == 1 and e.dim[nz[0]] == 1:
                base.add(nz[0])
    for i, n in enumerate(S.names):
        ck.prove(fn, f'{n}: has a unit to be written with', [], z3.BoolVal(i in base))
    # sum of the factors written: each base dimension left out has exponent zero, the others appear once with their exponent
    cs = [z3.Const(f'c{i}', S.srt) for i in range(S.n)]
    bs = [z3.Bool(f'b{i}') for i in range(S.n)]
    zero, one = (z3.RealVal(0), z3.RealVal(1)) if S.rational else (z3.IntVal(0), z3.IntVal(1))
    for j in range(S.n):
        tot = z3.Sum([z3.If(bs[i], cs[i] * (one if i == j else zero), zero) for i in range(S.n)])
        ck.prove(fn, f'{S.names[j]}: the factors written add up to the dimension', [z3.Implies(z3.Not(bs[j]), cs[j] == 0)], tot == cs[j])
    ck.covers += 1
