"""C05-C10, C21: code generated by unit_system! (storage-type generic part), verified on the macro-expanded text."""
import re
import z3
from mir import *
import engine as E
from engine import *
import models as M
import extract
from props_lib import LoopInvT

R_ = re.compile
_prog = {}
QT, UT, RT = 'Quantity', 'Unit', 'RuntimeUnit'
OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div'}
FLOATT = ('f32', 'f64')
VECS = {'Vec2': ('f32', 2), 'Vec3': ('f32', 3), 'DVec2': ('f64', 2), 'DVec3': ('f64', 3)}
CONCRETE = set(FLOATT) | set(VECS)


def gen_prog(cfg):
    if cfg not in _prog:
        mir, src = extract.si_mir(cfg)
        _prog[cfg] = Program(f'diman::si[{cfg}]', mir, lambda f: src)
    return _prog[cfg]


def strip_ref(t):
    while t is not None and t.kind in ('ref', 'refmut'):
        t = t.args[0]
    return t


def kind(t):
    """('Q', storage, dim text) ('U', dim, mag) ('R', dim) ('S', type)"""
    t = strip_ref(strip_life(t))
    if t is not None and t.kind == 'path':
        if t.last == QT and t.args:
            return ('Q', t.args[0], dim_text(t.args[1:]))
        if t.last == UT and t.args:
            return ('U', dim_text(t.args[:1]), str(t.args[-1]))
        if t.last == RT and len(t.args) == 1:
            return ('R', dim_text(t.args))
    return ('S', t)


def dim_text(args):
    return ', '.join(a.name if a.kind == 'const' else str(a) for a in args)


# ------------------------------------------------------------------ dimension expressions
class DimParse:
    """a dimension-valued Rust const expression as a real term for one (arbitrary) base dimension"""
    def __init__(self, txt, env):
        self.t = lex(txt)
        self.i = 0
        self.env = env

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f'dimension expression at {self.t[self.i:self.i+6]}')

    def num(self):
        s = self.peek()
        neg = False
        if s == '-':
            neg = True
            self.i += 1
            s = self.peek()
        if re.fullmatch(r'\d+(_?[iu]\d+)?', s or ''):
            self.i += 1
            v = int(re.match(r'\d+', s).group())
            return z3.RealVal(-v if neg else v)
        if re.fullmatch(r'[A-Z]\w*', s or ''):
            self.i += 1
            return self.env.setdefault('#' + s, z3.ToReal(z3.Int('int:' + s)))
        raise Unsupported(f'number in dimension expression: {s}')

    def expr(self):
        e = self.prim()
        while self.peek() == '.':
            self.i += 1
            m = self.peek()
            self.i += 1
            self.need('(')
            e = self.method(m, e)
            self.need(')')
        return e

    def method(self, m, e):
        if m == 'add':
            return e + self.expr()
        if m == 'sub':
            return e - self.expr()
        if m == 'neg':
            return -e
        if m == 'mul':
            return e * self.num()
        if m == 'div_2':
            return e / 2
        if m == 'div_3':
            return e / 3
        raise Unsupported('dimension method ' + str(m))

    def prim(self):
        if self.eat('{') or self.eat('('):
            e = self.expr()
            self.i += 1
            return e
        if self.eat('const'):
            return self.prim()
        n = self.peek()
        if n is None:
            raise Unsupported('empty dimension')
        self.i += 1
        while self.peek() == '::' and self.peek(1):
            self.i += 1
            n = n + '::' + self.peek()
            self.i += 1
        last = n.split('::')[-1]
        if last == 'none' and self.eat('('):
            self.need(')')
            return z3.RealVal(0)
        if last in ('add', 'sub', 'neg', 'mul', 'div_2', 'div_3') and self.eat('('):
            e = self.expr()
            self.eat(',')
            r = self.method(last, e)
            self.eat(',')
            self.need(')')
            return r
        if last == 'Dimension' and (self.eat('{') or (self.eat(',') and self.eat('{'))):
            # literal: only the all-zero one has a meaning for an arbitrary component
            txt = ''.join(x[1] + ' ' for x in self.t[self.i:])
            while self.i < len(self.t):
                self.i += 1
            nums = re.findall(r'num\s*:\s*(-?\s*\d+)', txt) or re.findall(r':\s*(-?\s*\d+)', txt)
            if nums and all(int(x.replace(' ', '')) == 0 for x in nums):
                return z3.RealVal(0)
            raise Unsupported('dimension literal')
        if re.fullmatch(r'[A-Za-z_]\w*', n):
            return self.env.setdefault(n, z3.Real('dim:' + n))
        raise Unsupported('dimension expression ' + n)


def dim(txt, env):
    p = DimParse(txt, env)
    e = p.expr()
    if p.i != len(p.t):
        raise Unsupported('dimension expression ' + txt)
    return e


# ------------------------------------------------------------------ library models for storages
def is_gen(t):
    t = strip_ref(strip_life(t)) if t is not None else None
    return t is not None and t.kind == 'path' and t.last in (QT, UT, RT)


def opu(name, *a):
    return uf(name, *([U] * len(a)), U)(*a)


def comm(tys):
    return all(t is not None and t.kind == 'path' and t.last in CONCRETE for t in tys)


def op_term(eng, op, a, b, ta, tb, st):
    """storage operation op on a, b (U terms)"""
    ta, tb = strip_ref(ta), strip_ref(tb)
    na = ta.last if ta is not None and ta.kind == 'path' else None
    nb = tb.last if tb is not None and tb.kind == 'path' else None
    if na in FLOATT and nb == 'Magnitude':
        b, tb = magval(b, na), ta
    elif na in VECS and nb == 'Magnitude':
        b, tb = magval(b, VECS[na][0]), Ty('path', VECS[na][0])
    if op in ('add', 'mul') and comm((ta, tb)):
        a, b = sorted((a, b), key=str)
    return opu('op.' + op, a, b)


def magval(m, f):
    return opu('val32' if f == 'f32' else 'val64', m)


def proj_tys(callee):
    """self type and trait argument of <A as Op<B>>::op"""
    if callee.kind != 'proj' or callee.args[1] is None:
        return None, None
    a, tr = callee.args[0], callee.args[1]
    targs = [x for x in tr.args if x.kind not in ('life', 'bind')]
    return a, (targs[0] if targs else a)


def m_op(eng, st, args, dty, m, callee):
    ta, tb = proj_tys(callee)
    if is_gen(ta) or is_gen(tb):
        return None
    op = m.group('op')
    us = [eng.to_u(eng.deref_all(x, st), st) for x in args]
    return eng.val_of_term(dty, op_term(eng, op, us[0], us[1], ta, tb, st), st)


def m_neg(eng, st, args, dty, m, callee):
    ta, _ = proj_tys(callee)
    if is_gen(ta):
        return None
    return eng.val_of_term(dty, opu('op.neg', eng.to_u(eng.deref_all(args[0], st), st)), st)


def m_opassign(eng, st, args, dty, m, callee):
    ta, tb = proj_tys(callee)
    if is_gen(ta) or is_gen(tb):
        return None
    r = args[0]
    v = eng.load(st, r.cell, r.path)
    while isinstance(v, Ref):
        r = v
        v = eng.load(st, r.cell, r.path)
    b = eng.to_u(eng.deref_all(args[1], st), st)
    t = strip_ref(ta)
    new = assign_term(eng, m.group('op'), eng.to_u(v, st), b, t, tb, st)
    eng.store(st, r.cell, r.path, eng.val_of_term(t, new, st))
    return Agg('()', None, [])


def assign_term(eng, op, a, b, ta, tb, st):
    t = strip_ref(ta)
    if t is not None and t.kind == 'path' and t.last in CONCRETE:
        return op_term(eng, op, a, b, ta, tb, st)
    return opu(f'op.{op}_assign', a, b)


def m_cmp(eng, st, args, dty, m, callee):
    ta, tb = proj_tys(callee)
    if is_gen(ta) or is_gen(tb):
        return None
    op = m.group('op')
    us = [eng.to_u(eng.deref_all(x, st), st) for x in args]
    if op == 'ne':
        return z3.Not(cmp_bool('eq', *us))
    if op in ('eq', 'lt', 'le', 'gt', 'ge'):
        return cmp_bool(op, *us)
    return eng.val_of_term(dty, opu('op.' + op, *us), st)


def cmp_bool(op, a, b):
    if op in ('gt', 'ge'):
        op, a, b = {'gt': 'lt', 'ge': 'le'}[op], b, a
    if op == 'eq':
        a, b = sorted((a, b), key=str) if str(a) != str(b) else (a, b)
    return uf('op.' + op, U, U, z3.BoolSort())(a, b)


def m_into_float(eng, st, args, dty, m, callee):
    f = 'f32' if m.group().endswith('32') else 'f64'
    return Opq(magval(eng.to_u(eng.deref_all(args[0], st), st), f), Ty('path', f))


def m_fmeth(eng, st, args, dty, m, callee):
    n = m.group('n')
    us = [eng.to_u(eng.deref_all(x, st), st) for x in args]
    return fm(eng, m.group('t'), n, us, dty, st)


def fm(eng, t, n, us, dty, st):
    name = f'{t}.{n}'
    if n == 'powi' and str(us[1]) == 'u<Int>(2)':
        return eng.val_of_term(dty, op_term(eng, 'mul', us[0], us[0], Ty('path', t), Ty('path', t), st), st)
    if n in ('min', 'max'):
        pass
    if dty.kind == 'path' and dty.name == 'bool':
        return uf(name, *([U] * len(us)), z3.BoolSort())(*us)
    return eng.val_of_term(dty, opu(name, *us), st)


def m_vmeth(eng, st, args, dty, m, callee):
    """glam vector method"""
    us = [eng.to_u(eng.deref_all(x, st), st) for x in args]
    if m.group('n') == 'new':
        return Agg(Ty('path', m.group('t')), None, [eng.deref_all(x, st) for x in args])
    if m.group('n') == 'splat':
        return Agg(Ty('path', m.group('t')), None, [args[0]] * VECS[m.group('t')][1])
    return fm(eng, m.group('t'), m.group('n'), us, dty, st)


def m_into(eng, st, args, dty, m, callee):
    """T: Into<X> for generic T: one function per target type"""
    ta, tb = proj_tys(callee)
    if str(trim(ta)) == str(trim(tb)):
        return args[0]
    if ta is not None and ta.kind == 'path' and not ta.args and ta.name in eng.generic_params:
        return eng.val_of_term(dty, opu('into:' + strip_ref(tb).last, eng.to_u(args[0], st)), st)
    # Into = From
    t = Ty('proj', 'from', (tb, Ty('path', 'From', (ta,))))
    body, sub = eng.find_body(t, args, [ta])
    if body is not None:
        eng.inlined.add(body.name)
        return eng.call_body(body, args, st, sub)
    raise Unsupported(f'Into {ta} -> {tb}')


def m_default(eng, st, args, dty, m, callee):
    ta, _ = proj_tys(callee)
    if is_gen(ta):
        return None
    return eng.val_of_term(dty, z3.Const('default:' + str(trim(ta)), U), st)


def m_copy(eng, st, args, dty, m, callee):
    ta, _ = proj_tys(callee)
    v = args[0]
    return eng.load(st, v.cell, v.path) if isinstance(v, Ref) else v


def m_borrow(eng, st, args, dty, m, callee):
    """SampleBorrow::borrow of a generic parameter"""
    ta, _ = proj_tys(callee)
    t = strip_ref(ta)
    if t.kind == 'path' and not t.args and t.name in eng.generic_params:
        return eng.val_of_term(dty, opu('borrow', eng.to_u(args[0], st)), st)
    return args[0]


def m_ref_id(eng, st, args, dty, m, callee):
    return args[0]


def m_uniform(eng, st, args, dty, m, callee):
    n = m.group('n')
    us = [eng.to_u(eng.deref_all(x, st), st) for x in args]
    if n in ('sample', 'sample_single', 'sample_single_inclusive'):
        # the generator is advanced by the sampler
        r = args[-1]
        while isinstance(r, Ref):
            v = st.mem.get(r.cell)
            if r.path or not isinstance(v, Ref):
                break
            r = v
        old = eng.load(st, r.cell, r.path)
        eng.store(st, r.cell, r.path, Opq(opu('uniform.rng.' + n, *us), old.ty if isinstance(old, Opq) else Ty('path', 'R')))
    return eng.val_of_term(dty, opu('uniform.' + n, *us), st)


def m_box(eng, st, args, dty, m, callee):
    return args[0]


class Seq(Lib):
    """an iterator over a ghost sequence"""
    def __init__(self, s, pos, ity):
        self.s, self.pos, self.ity = s, pos, ity

    def to_u(self, eng, st):
        return opu('iter', self.s, uf('u<Int>', z3.IntSort(), U)(self.pos))


SEQ_N = lambda s: uf('seq.len', U, z3.IntSort())(s)
SEQ_AT = lambda s, i: uf('seq.at', U, z3.IntSort(), U)(s, i)


def m_into_iter(eng, st, args, dty, m, callee):
    return args[0] if isinstance(args[0], Seq) else None


def m_next(eng, st, args, dty, m, callee):
    r = args[0]
    it = eng.load(st, r.cell, r.path)
    while isinstance(it, Ref):
        r = it
        it = eng.load(st, r.cell, r.path)
    if not isinstance(it, Seq):
        return None
    outs = []
    more = it.pos < SEQ_N(it.s)
    s1, s2 = st.copy(), st.copy()
    if eng.feasible(s1, more):
        s1.assume(more)
        eng.store(s1, r.cell, r.path, Seq(it.s, it.pos + 1, it.ity))
        outs.append(Outcome('ret', s1, Agg(Ty('path', 'Option'), 'Some', [eng.val_of_term(it.ity, SEQ_AT(it.s, it.pos), s1)])))
    if eng.feasible(s2, z3.Not(more)):
        s2.assume(z3.Not(more))
        outs.append(Outcome('ret', s2, Agg(Ty('path', 'Option'), 'None', [])))
    return outs


FLN = r'(?:f64|f32)'
VN = r'(?:D?Vec[23])'
GEN_MODELS = [
    (R_(r'<.* as (?:Add|Sub|Mul|Div)(?:<.*>)?>::(?P<op>add|sub|mul|div)'), m_op),
    (R_(r'<.* as Neg>::neg'), m_neg),
    (R_(r'<.* as (?:Add|Sub|Mul|Div)Assign(?:<.*>)?>::(?P<op>add|sub|mul|div)_assign'), m_opassign),
    (R_(r'<.* as Partial(?:Eq|Ord)(?:<.*>)?>::(?P<op>eq|ne|partial_cmp|lt|le|gt|ge)'), m_cmp),
    (R_(r'(?:.*::)?Magnitude::into_f(?:32|64)'), m_into_float),
    (R_(r'<.* as Into<.*>>::into'), m_into),
    (R_(r'<.* as Default>::default'), m_default),
    (R_(r'<.* as Clone>::clone'), m_copy),
    (R_(r'<.* as SampleBorrow<.*>>::borrow'), m_borrow),
    (R_(r'<UniformFloat<.*> as UniformSampler>::(?P<n>\w+)(?:<.*>)?'), m_uniform),
    (R_(r'<.* as IntoIterator>::into_iter'), m_into_iter),
    (R_(r'<.* as Iterator>::next'), m_next),
    (R_(rf'(?:<)?(?P<t>{FLN})(?: as (?:FloatCore|Float|Signed)>)?::(?P<n>\w+)'), m_fmeth),
    (R_(rf'(?:glam::)?(?:\w+::)*(?P<t>{VN})::(?P<n>\w+)'), m_vmeth),
    (R_(r'Box::new|Box<.*>::new'), m_box),
]


class GenEngine(Engine):
    def float_uf(self, op, ty, args, st):
        us = [self.to_u(a, st) for a in args]
        t = Ty('path', ty.name)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            b = cmp_bool({'Ne': 'eq'}.get(op, op.lower()), *us)
            return z3.Not(b) if op == 'Ne' else b
        if op == 'Neg':
            return Opq(opu('op.neg', us[0]), t)
        return Opq(op_term(self, op.lower(), us[0], us[1], t, t, st), t)


def engine(P, gens, **kw):
    eng = GenEngine(P, mode='int', models=GEN_MODELS + M.BASIC, consts={}, **kw)
    eng.generic_params = {g[1] for g in gens}
    for g in gens:
        if g[0] == 'const':
            eng.consts['type:' + g[1]] = g[2]
    return eng


def fn_generics(P, item):
    """generics of the function itself, from the source text at the item (name scan in the expanded text)"""
    return []


def storage(eng, v, k, st):
    """storage view of a value of kind k, as U term"""
    v = eng.deref_all(v, st)
    if k[0] == 'Q':
        return eng.to_u(eng.field(v, None, 0, k[1], st), st)
    return eng.to_u(v, st)


def mag_of(eng, v, k, st):
    v = eng.deref_all(v, st)
    if k[0] == 'U':
        return z3.Const('const:' + k[2], U)
    return eng.to_u(eng.field(v, None, 0, Ty('path', 'Magnitude'), st), st)


def short(imp, name):
    h = re.sub(r'\s+', ' ', clean_src(imp.header)).strip().rstrip('{').strip() if imp else ''
    h = re.sub(r"\bwhere\b.*", '', h)
    h = re.sub(r'^(unsafe )?impl(<[^>]*>)? ', '', h) if h.count('<') else h
    return f'{h.strip()} :: {name}'


VOCAB = ('op.', 'val32', 'val64', 'mk:', 'into:', 'borrow', 'uniform.', 'iter', 'seq.', 'fold', 'int', 'bool', 'u<', 'discr', 'f32.', 'f64.', 'Vec', 'DVec')


def vocab(n):
    return n.startswith(VOCAB) or re.fullmatch(r'(?:\w+\.)?\d+', n) is not None


def run_fn(ck, eng, label, item, args, st, post):
    """post(outcome) -> list of (name, goal, [alternative goals])"""
    n = 0
    outs = eng.call_body(item, args, st, {})
    ck.use(eng)
    for o in outs:
        if o.kind == 'unreachable':
            continue
        if o.kind != 'ret':
            ck.prove(label, 'does not panic: ' + o.msg, o.st.pc, z3.BoolVal(False), eng.axioms(), vocab=vocab)
            continue
        n += 1
        for name, g in post(o):
            ck.prove(label, name, o.st.pc, g, eng.axioms(), vocab=vocab)
    if n == 0:
        ck.und(label, 'no returning path')


def fresh_args(eng, item, st):
    return [eng.fresh(strip_life(t), st, 'a') for _, t in item.args()]


# ------------------------------------------------------------------ operators
BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div'}
ASG = {'AddAssign': 'add', 'SubAssign': 'sub', 'MulAssign': 'mul', 'DivAssign': 'div'}
CMP = {'PartialEq', 'PartialOrd'}


def op_impls(P):
    """(item, impl, trait, self kind, rhs kind) of all operator impls with a generated type"""
    seen = set()
    for x in P.fns:
        if '{closure' in x.name or '{constant' in x.name:
            continue
        i = P.impl_of(x.name)
        if not i or i.trait is None or i.ty is None or i.trait.kind != 'path':
            continue
        tn = i.trait.last
        if tn not in BIN and tn not in ASG and tn not in CMP and tn not in ('Neg', 'From', 'Sum', 'Rem', 'RemAssign', 'Not', 'Ord', 'Eq', 'Product'):
            continue
        targs = [a for a in i.trait.args if a.kind not in ('life', 'bind')]
        rhs = targs[0] if targs else i.ty
        ks, kr = kind(i.ty), kind(rhs)
        if ks[0] == 'S' and kr[0] == 'S':
            continue
        key = (x.name, P.lastname(x.name))
        if key in seen:
            continue
        seen.add(key)
        yield x, i, tn, ks, kr


def sty_of(k):
    return k[1] if k[0] in ('Q', 'S') else None


def pure_quantity(ks, kr):
    return ks[0] in 'QS' and kr[0] in 'QS'


def value_obligations(ck, P, cfg, want):
    """value-level contracts of operator impls; want(ks, kr) selects"""
    n = 0
    for x, i, tn, ks, kr in op_impls(P):
        if i.derive:
            if tn not in CMP:
                continue
        if not want(ks, kr):
            continue
        label = short(i, P.lastname(x.name)) + f' [{cfg}]'
        mname = P.lastname(x.name)
        n += 1

        def go(x=x, i=i, tn=tn, ks=ks, kr=kr, label=label, mname=mname):
            eng = engine(P, i.gens)
            st = State(eng)
            if tn == 'Sum':
                return sum_obligation(ck, P, eng, st, x, i, ks, label)
            args = fresh_args(eng, x, st)
            if tn == 'Neg':
                a = storage(eng, args[0], ks, st)
                run_fn(ck, eng, label, x, args, st, lambda o: [('stored value of the result is the negated stored value', storage(eng, o.val, ks, o.st) == opu('op.neg', a))])
                return
            if tn == 'From':
                if ks[0] == 'Q':
                    if kr[0] != 'S':
                        raise Unsupported('From impl between quantities')
                    a = storage(eng, args[0], kr, st)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('stored value of the result is the argument', storage(eng, o.val, ks, o.st) == a)])
                elif kr[0] in 'UR' and ks[0] == 'S' and ks[1].last == 'Magnitude':
                    a = mag_of(eng, args[0], kr, st)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('is the magnitude of the unit', eng.to_u(eng.deref_all(o.val, o.st), o.st) == a)])
                elif kr[0] == 'Q':
                    a = storage(eng, args[0], kr, st)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('is the stored value', eng.to_u(eng.deref_all(o.val, o.st), o.st) == a)])
                return
            if tn in BIN and ks[0] in 'QS' and kr[0] in 'QS':
                a, b = storage(eng, args[0], ks, st), storage(eng, args[1], kr, st)
                w = op_term(eng, BIN[tn], a, b, sty_of(ks), sty_of(kr), st)
                rk = kind(x.ret())
                run_fn(ck, eng, label, x, args, st, lambda o: [(f'stored value of the result is the storage {BIN[tn]} of the operands in order', storage(eng, o.val, rk, o.st) == w)])
                return
            if tn in BIN:
                return unit_obligation(ck, eng, st, x, tn, ks, kr, args, label)
            if tn in ASG:
                if ks[0] in 'UR' or kr[0] in 'UR':
                    raise Unsupported('assigning operator with a unit')
                a, b = storage(eng, args[0], ks, st), storage(eng, args[1], kr, st)
                w = assign_term(eng, ASG[tn], a, b, sty_of(ks), sty_of(kr), st)
                run_fn(ck, eng, label, x, args, st, lambda o: [(f'the target holds the storage {ASG[tn]} of old value and operand', storage(eng, args[0], ks, o.st) == w),
                                                               ('the right operand is unchanged', storage(eng, args[1], kr, o.st) == b)])
                return
            if tn in CMP:
                if mname == 'assert_receiver_is_total_eq':
                    return
                a, b = storage(eng, args[0], ks, st), storage(eng, args[1], kr, st)
                if mname in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                    w = z3.Not(cmp_bool('eq', a, b)) if mname == 'ne' else cmp_bool(mname, a, b)
                    run_fn(ck, eng, label, x, args, st, lambda o: [(f'is the storage {mname}', o.val == w)])
                elif mname == 'partial_cmp':
                    w = opu('op.partial_cmp', a, b)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('is the storage partial_cmp', eng.to_u(o.val, o.st) == w)])
                else:
                    raise Unsupported('method ' + mname)
                return
            if tn in ('Eq',):
                return
            raise Unsupported('operator trait ' + tn)
        ck.guard(label, go)
    return n


def unit_obligation(ck, eng, st, x, tn, ks, kr, args, label):
    op = BIN[tn]
    rk = kind(x.ret())

    def operand(v, k):
        """(term, type) with units as Magnitude"""
        if k[0] in 'UR':
            return mag_of(eng, v, k, st), Ty('path', 'Magnitude')
        return storage(eng, v, k, st), sty_of(k)
    (a, ta), (b, tb) = operand(args[0], ks), operand(args[1], kr)
    na = ta.last if ta.kind == 'path' else ''
    nb = tb.last if tb.kind == 'path' else ''
    alts = []
    if na == 'Magnitude' and nb == 'Magnitude':
        alts = [opu('op.' + op, a, b)] + ([opu('op.mul', b, a)] if op == 'mul' else [])
    elif na == 'Magnitude':
        f = nb if nb in FLOATT else VECS[nb][0] if nb in VECS else None
        if f:
            va = magval(a, f)
            alts = [op_term(eng, op, va, b, Ty('path', f), tb, st)]
            if op == 'mul':
                alts.append(op_term(eng, op, b, va, tb, Ty('path', f), st))
        else:
            alts = [opu('op.' + op, b, a)] if op == 'mul' else [opu('op.' + op, a, b)]
    else:
        alts = [op_term(eng, op, a, b, ta, tb, st)]
    def post(o):
        if rk[0] == 'R':
            r = mag_of(eng, o.val, rk, o.st)
        else:
            r = storage(eng, o.val, rk, o.st)
        what = 'magnitude' if rk[0] == 'R' else 'stored value'
        return [(f'{what} of the result is the {op} of the operands (units as their exact magnitude), in order', z3.Or([r == w for w in alts]))]
    run_fn(ck, eng, label, x, args, st, post)


def sum_obligation(ck, P, eng, st, x, i, ks, label):
    s = z3.Const('items', U)
    fold = uf('fold', z3.IntSort(), U)
    ity = ks
    sink = []
    n = z3.Int('k')
    base = z3.Const('default:' + str(trim(ks[1])), U)

    def foldfacts(p):
        return [fold(z3.IntVal(0)) == base,
                fold(p + 1) == opu('op.add_assign', fold(p), uf('0', U, U)(SEQ_AT(s, p))), SEQ_N(s) >= 0]

    def cands(eng, fr, st):
        it = acc = None
        for l, c in fr['cells'].items():
            v = st.mem.get(c)
            if isinstance(v, Seq):
                it = v if it is None or not z3.is_int_value(z3.simplify(v.pos)) else it
        return it

    item = x
    fn = item.fn()
    accs = [l for l in ['_0'] + sorted(fn.locals) if (lambda t: t is not None and t.kind == 'path' and t.last in (QT, 'Self'))(parse_ty(fn.locals[l]) if l in fn.locals else fn.ret)]
    heads = eng.loop_heads(fn)
    from loops import assigned_locals
    if not heads:
        raise Unsupported('no loop in sum')
    body = next(iter(heads.values()))
    accs = [l for l in accs if l in assigned_locals(fn, body)]
    tried = []
    for acc in accs:
        sub = []
        def inv(eng_, fr, st_, snap):
            c = fr['cells'][acc]
            if c not in st_.mem:
                raise Unsupported('accumulator not initialised')
            it = [v for l, cc in fr['cells'].items() for v in [st_.mem.get(cc)] if isinstance(v, Seq) and l in live(fr)]
            if not it:
                raise Unsupported('no iterator in the loop')
            it = it[0]
            return z3.And(it.pos >= 0, it.pos <= SEQ_N(it.s), storage(eng_, st_.mem[c], ks, st_) == fold(it.pos))

        def live(fr):
            return itl

        # the iterator local of the loop: the one passed to next
        itl = set()
        for b in body:
            for sst in fn.blocks[b].stmts:
                if sst.kind == 'assign' and sst.rv[0] in ('refmut', 'ref'):
                    itl.add(sst.rv[1].local)

        def havoc(eng_, fr, st_, l):
            v = st_.mem[fr['cells'][l]]
            if isinstance(v, Seq):
                p = z3.Int(eng_.fresh_name('pos'))
                st_.mem[fr['cells'][l]] = Seq(v.s, p, v.ity)
                for f in foldfacts(p):
                    st_.assume(f)
                return True
            return False
        e2 = engine(P, i.gens)
        st2 = State(e2)
        for f in foldfacts(z3.IntVal(0)):
            st2.assume(f)
        spec = LoopInvT(inv, havoc=havoc, sink=sub)
        e2.loop_spec = lambda it_: spec if it_ is item else None
        try:
            outs = e2.call_body(item, [Seq(s, z3.IntVal(0), Ty('path', QT, (ks[1], Ty('path', 'D'))))], st2, {})
        except Unsupported as e:
            tried.append(str(e))
            continue
        ck.use(e2)
        ok = True
        res = []
        for nm, pc, g, ax in sub:
            ob = E.Obligation(nm, pc, g)
            E.discharge(ob, ax, 10000)
            res.append((nm, ob, pc, g))
            ok &= ob.status == 'proved'
        if not ok and acc != accs[-1]:
            import os
            if os.environ.get('DBG'):
                for r in res: print(r[0], r[1].status, r[2], r[3], r[1].model)
            continue
        if not sub:
            tried.append('no invariant obligations')
            continue
        for nm, ob, pc, g in res:
            ck.add(label, 'loop: ' + nm, ob.status, ob.backend, ob.time, str(ob.model)[:300] if ob.model else '')
        for o in outs:
            if o.kind != 'ret':
                ck.prove(label, 'does not panic: ' + o.msg, o.st.pc, z3.BoolVal(False), e2.axioms(), vocab=vocab)
            else:
                ck.prove(label, 'result is the default value with every element added once, in order', o.st.pc,
                         storage(e2, o.val, ks, o.st) == fold(SEQ_N(s)), e2.axioms(), vocab=vocab)
        return
    raise Unsupported('no accumulator satisfies the invariant: ' + '; '.join(tried))


ASSUME_STORAGE = ['operators on references to storage values act as on the values (std and glam forward them)',
                  'floating-point and glam addition/multiplication of concrete storages commute (IEEE: bitwise up to NaN payload)',
                  'x.powi(2) = x * x (std, LLVM powi)']


def c05(ck):
    ck.assumptions |= set(ASSUME_STORAGE)
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        n = value_obligations(ck, P, cfg, pure_quantity)
        if n < 60:
            ck.und(f'operator impls [{cfg}]', f'only {n} operator impls found')
        for name in ('default', 'clone'):
            for x in P.by_last.get(name, []):
                i = P.impl_of(x.name)
                if i and i.ty is not None and i.ty.kind == 'path' and i.ty.last == QT:
                    label = short(i, name) + f' [{cfg}]'

                    def go(x=x, i=i, name=name, label=label):
                        S = [a for a in strip_ref(strip_life(x.ret())).args][0]
                        eng = engine(P, i.gens)
                        eng.generic_params |= {'S', 'D'}
                        eng.consts.setdefault('type:D', Ty('path', 'Dimension'))
                        st = State(eng)
                        args = fresh_args(eng, x, st)
                        k = kind(x.ret())
                        w = z3.Const('default:' + str(trim(S)), U) if name == 'default' else storage(eng, args[0], k, st)
                        run_fn(ck, eng, label, x, args, st, lambda o: [('stored value is the ' + ('default storage value' if name == 'default' else 'original stored value'), storage(eng, o.val, k, o.st) == w)])
                    ck.guard(label, go)


def dim_of(k, env):
    if k[0] == 'Q':
        return dim(k[2], env)
    if k[0] in 'UR':
        return dim(k[1], env)
    return z3.RealVal(0)


def dim_obligations(ck, P, cfg, want):
    n = 0
    for x, i, tn, ks, kr in op_impls(P):
        if not want(ks, kr):
            continue
        if i.derive:
            continue
        label = short(i, P.lastname(x.name)) + f' [{cfg}]'

        def go(x=x, i=i, tn=tn, ks=ks, kr=kr, label=label):
            nonlocal n
            env = {}
            ds, dr = dim_of(ks, env), dim_of(kr, env)
            n += 1
            if tn in BIN:
                ret = x.ret()
                rk = kind(ret)
                if rk[0] == 'S':
                    raise Unsupported(f'result type {ret}')
                d = dim_of(rk, env)
                if tn in ('Add', 'Sub'):
                    ck.prove(label, 'exists only for operands of one dimension', [], ds == dr)
                    ck.prove(label, 'result has the dimension of the operands', [], d == ds)
                else:
                    ck.prove(label, f'result has the {"sum" if tn == "Mul" else "difference"} of the operand dimensions', [], d == (ds + dr if tn == 'Mul' else ds - dr))
            elif tn in ('AddAssign', 'SubAssign') or tn in CMP:
                ck.prove(label, 'exists only for operands of one dimension', [], ds == dr)
            elif tn in ('MulAssign', 'DivAssign'):
                ck.prove(label, 'exists only for dimensionless factors', [], dr == 0)
            elif tn in ('Neg', 'Sum'):
                ck.prove(label, 'keeps the dimension', [], dim_of(kind(x.ret()), env) == ds)
                if tn == 'Sum':
                    ck.prove(label, 'sums elements of its own dimension', [], ds == dr)
            elif tn == 'From':
                if ks[0] == 'S' and kr[0] in 'UR':
                    return
                ck.prove(label, 'converts only between equal dimensions (plain values being dimensionless)', [], ds == dr)
            elif tn in ('Eq', 'Ord'):
                return
            else:
                raise Unsupported('operator trait ' + tn)
        ck.guard(label, go)
    return n


def c06(ck):
    ck.assumptions |= {'rustc resolves an operator to an impl of the crate (orphan rule: no other impl can exist for these types)',
                       'type equality of const generics is equality of dimensions (C03, C04)'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        n = dim_obligations(ck, P, cfg, pure_quantity)
        if n < 60:
            ck.und(f'operator impls [{cfg}]', f'only {n} operator impls found')


def involves_unit(ks, kr):
    return ks[0] in 'UR' or kr[0] in 'UR'


def inherent(P, name, pred=None):
    for x in P.by_last.get(name, []):
        i = P.impl_of(x.name)
        if i and i.trait is None and i.ty is not None and (pred is None or pred(kind(i.ty))):
            yield x, i


def uniq(gen):
    d = {}
    for x, i in gen:
        d[x.name] = (x, i)
    return d.values()


def c07(ck):
    ck.assumptions |= set(ASSUME_STORAGE)
    ck.contracts |= {'Magnitude arithmetic (C02): f * Magnitude = f * magnitude in the precision of f'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        n = value_obligations(ck, P, cfg, involves_unit)
        if n < 30:
            ck.und(f'unit operator impls [{cfg}]', f'only {n} found')
        for x, i in uniq(inherent(P, 'new', lambda k: k[0] in 'UR')):
            label = short(i, 'new') + f' [{cfg}]'

            def go(x=x, i=i, label=label):
                eng = engine(P, i.gens + [('type', 'S', [])])
                st = State(eng)
                args = fresh_args(eng, x, st)
                k = kind(i.ty)
                w = opu('op.mul', eng.to_u(args[1], st), mag_of(eng, args[0], k, st))
                rk = kind(x.ret())
                run_fn(ck, eng, label, x, args, st, lambda o: [('stored value is the argument times the magnitude of the unit', storage(eng, o.val, rk, o.st) == w)])
            ck.guard(label, go)
        found = 0
        for x, i in uniq(inherent(P, 'value_in', lambda k: k[0] == 'Q')):
            found += 1
            label = short(i, 'value_in') + f' [{cfg}]'

            def go(x=x, i=i, label=label):
                aty = strip_life(x.args()[1][1])
                eng = engine(P, i.gens + [('type', aty.name, [])])
                st = State(eng)
                args = fresh_args(eng, x, st)
                k = kind(i.ty)
                w = opu('op.div', storage(eng, args[0], k, st), opu('into:Magnitude', eng.to_u(args[1], st)))
                run_fn(ck, eng, label, x, args, st, lambda o: [('is the stored value divided by the magnitude of the unit', eng.to_u(o.val, o.st) == w)])
            ck.guard(label, go)
        if not found:
            ck.und(f'value_in [{cfg}]', 'not found')


def c08(ck):
    ck.assumptions |= {'type equality of const generics is equality of dimensions (C03, C04)'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        n = dim_obligations(ck, P, cfg, involves_unit)
        if n < 30:
            ck.und(f'unit operator impls [{cfg}]', f'only {n} found')
        for x, i in uniq(inherent(P, 'new', lambda k: k[0] in 'UR')):
            label = short(i, 'new') + f' [{cfg}]'

            def go(x=x, i=i, label=label):
                env = {}
                ck.prove(label, 'result has the dimension of the unit', [], dim_of(kind(x.ret()), env) == dim_of(kind(i.ty), env))
            ck.guard(label, go)
        value_in_bound(ck, P, cfg)


def fn_source_generics(P, name, imp):
    """generic parameter list text of fn `name` inside the impl with header imp (expanded source)"""
    src = P.src_of('')
    m = RE_IMPLAT.search(imp.span)
    l1 = int(m.group(2))
    lines = src.split('\n')
    txt = '\n'.join(lines[l1 - 1:l1 + 400])
    mm = re.search(r'fn\s+' + name + r'\s*<', txt)
    if not mm:
        return []
    g, d, q = clean_src(txt[mm.end():mm.end() + 1500]), 1, 0
    while d and q < len(g):
        if g[q] == '<':
            d += 1
        elif g[q] == '>' and g[q - 1] != '-':
            d -= 1
        q += 1
    return parse_generics(TP(lex(g[:q])))


def value_in_bound(ck, P, cfg):
    label = f'value_in argument bound [{cfg}]'

    def go():
        items = list(uniq(inherent(P, 'value_in', lambda k: k[0] == 'Q')))
        if not items:
            raise Unsupported('value_in not found')
        for x, i in items:
            gens = fn_source_generics(P, 'value_in', i)
            bounds = [b for g in gens if g[0] == 'type' for b in g[2]]
            own = kind(i.ty)
            ok = False
            for b in bounds:
                b = b if isinstance(b, Ty) else None
                if b is None or b.kind != 'path' or not b.args:
                    continue
                if b.last in ('Into', 'From', 'Div', 'Mul'):
                    continue
                # a trait indexed by a dimension: every implementation must be for units of that dimension
                env = {}
                want = dim(dim_text(b.args[:1]), env)
                ck.prove(label, f'the argument of value_in is a {b.last} of the dimension of the quantity', [], want == dim_of(own, env))
                impls = trait_impls(P, b.last)
                if not impls:
                    raise Unsupported('no implementation of ' + b.last)
                for gens2, tr, ty in impls:
                    env2 = {}
                    k = kind(ty)
                    if k[0] not in 'UR':
                        raise Unsupported(f'{b.last} implemented for {ty}')
                    ck.prove(label, f'{b.last} is implemented for {k[0].replace("U", "Unit").replace("R", "RuntimeUnit")} only at its own dimension', [],
                             dim(dim_text([a for a in tr.args if a.kind not in ("life", "bind")][:1]), env2) == dim_of(k, env2))
                ok = True
            if not ok:
                # argument type may name the unit type directly
                k = kind(x.args()[1][1])
                if k[0] in 'UR':
                    env = {}
                    ck.prove(label, 'the argument of value_in is a unit of the dimension of the quantity', [], dim_of(k, env) == dim_of(own, env))
                else:
                    ck.add(label, 'the argument of value_in is restricted to units of the dimension of the quantity', 'refuted', 'header check', 0,
                           f'type parameter bounds {[str(b) for b in bounds]} do not mention the dimension')
    ck.guard(label, go)


def trait_impls(P, name):
    src = P.src_of('')
    out = []
    for m in re.finditer(r'\bimpl\b', src):
        txt = src[m.start():m.start() + 700]
        if not re.search(r'\b' + name + r'\b', txt[:400]):
            continue
        try:
            p = TP(lex(clean_src(txt)))
            p.expect('impl')
            gens = parse_generics(p) if p.eat('<') else []
            tr = p.ty()
            if not p.eat('for'):
                continue
            ty = p.ty()
        except Exception:
            continue
        if tr.kind == 'path' and tr.last == name:
            out.append((gens, strip_life(tr), strip_life(ty)))
    return out


# ------------------------------------------------------------------ float methods
PURE = ['log2', 'ln', 'log10', 'exp', 'exp2', 'ceil', 'floor', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh',
        'acosh', 'atanh', 'exp_m1', 'ln_1p', 'round', 'trunc', 'fract', 'log', 'exp10', 'sin_cos', 'atan2', 'powf', 'signum']
SAME = {'abs': 1, 'min': 2, 'max': 2, 'clamp': 3}
POWS = {'squared': (2, lambda d: 2 * d), 'cubed': (3, lambda d: 3 * d)}
PREDS = {'is_positive': ('gt', True), 'is_positive_or_zero': ('ge', True), 'is_negative': ('lt', True), 'is_negative_or_zero': ('le', True)}


def float_items(P):
    seen = set()
    for x in P.fns:
        if '{closure' in x.name or '{constant' in x.name or x.name in seen:
            continue
        i = P.impl_of(x.name)
        if not i or i.trait is not None or i.ty is None:
            continue
        k = kind(i.ty)
        if k[0] == 'Q' and k[1].kind == 'path' and k[1].last in FLOATT:
            seen.add(x.name)
            yield x, i, k


def as_ret(eng, o, rk):
    return storage(eng, o.val, rk, o.st)


def c09(ck):
    ck.assumptions |= set(ASSUME_STORAGE) | {'std / num_traits float functions of one name are one function per float type (uninterpreted)'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        seen = set()
        for x, i, k in float_items(P):
            name = P.lastname(x.name)
            f = k[1].last
            label = f'Quantity<{f}, {k[2]}>::{name} [{cfg}]'
            seen.add((f, name))

            def go(x=x, i=i, k=k, name=name, f=f, label=label):
                gens = fn_source_generics_local(P, x, name)
                eng = engine(P, i.gens + gens)
                st = State(eng)
                args = fresh_args(eng, x, st)
                env = {}
                d = dim_of(k, env)
                rk = kind(x.ret())
                bt, ft = Ty('path', 'bool'), Ty('path', f)

                def val(j):
                    a = args[j]
                    kk = kind(x.args()[j][1])
                    if kk[0] == 'S':
                        # generic convertible argument: its conversion
                        return uf('0', U, U)(opu('into:' + QT, eng.to_u(a, st)))
                    return storage(eng, a, kk, st)
                if name in PURE:
                    w = [opu(f'{f}.{name}', *[val(j) for j in range(len(args))])]
                    dr = [('the argument is dimensionless', d == 0)]
                    rd = z3.RealVal(0)
                elif name in POWS:
                    e, fd = POWS[name]
                    v = val(0)
                    tt = Ty('path', f)
                    mul = lambda a, b: op_term(eng, 'mul', a, b, tt, tt, st)
                    w = [opu(f'{f}.powi', v, eng.to_u(z3.IntVal(e), st)), mul(v, v) if e == 2 else mul(mul(v, v), v)]
                    if e == 3:
                        pass
                    dr, rd = [], fd(d)
                elif name == 'powi':
                    if len(args) == 1:
                        cs = [g for g in gens if g[0] == 'const']
                        if len(cs) != 1:
                            raise Unsupported('powi generics')
                        I = cs[0][1]
                        e = eng.generic_const(Ty('path', I), st)
                        w = [opu(f'{f}.powi', val(0), eng.to_u(e, st))]
                        dr, rd = [], d * env.setdefault('#' + I, z3.ToReal(z3.Int('int:' + I)))
                    else:
                        raise Unsupported('powi arguments')
                elif name == 'sqrt':
                    w, dr, rd = [opu(f'{f}.sqrt', val(0))], [], d / 2
                elif name == 'cbrt':
                    w, dr, rd = [opu(f'{f}.cbrt', val(0))], [], d / 3
                elif name in SAME:
                    w, dr, rd = [opu(f'{f}.{name}', *[val(j) for j in range(len(args))])], [], d
                    if name == 'abs' and len(args) != 1 or len(args) != SAME[name]:
                        raise Unsupported('arguments of ' + name)
                elif name == 'zero':
                    w, dr, rd = [z3.Const(f'{f}:0.0', U)], [], d
                elif name in PREDS:
                    z = z3.Const(f'{f}:0.0', U)
                    w = cmp_bool(PREDS[name][0], val(0), z)
                    run_fn(ck, eng, label, x, args, st, lambda o: [(f'is the comparison of the stored value with zero', o.val == w)])
                    return
                elif name in ('is_nan', 'is_sign_positive', 'is_sign_negative', 'is_finite', 'is_infinite', 'is_normal'):
                    w = uf(f'{f}.{name}', U, z3.BoolSort())(val(0))
                    nan = [uf(f'{f}.is_nan', U, z3.BoolSort())(val(0)) == z3.Not(cmp_bool('eq', val(0), val(0)))]
                    run_fn(ck, eng, label, x, args, st, lambda o: [(f'is {name} of the stored value', z3.Implies(z3.And(nan), o.val == w))])
                    return
                else:
                    raise Unsupported('method without a contract')
                if rk[0] != 'Q':
                    raise Unsupported(f'result type {x.ret()}')
                for nm, g in dr:
                    ck.prove(label, nm, [], g)
                ck.prove(label, 'result has the right dimension', [], dim_of(rk, env) == rd)
                run_fn(ck, eng, label, x, args, st, lambda o: [(f'stored value of the result is {name} of the stored value', z3.Or([as_ret(eng, o, rk) == y for y in w]))])
            ck.guard(label, go)
        for f in FLOATT:
            miss = [n for n in list(POWS) + list(SAME) + list(PREDS) + ['sqrt', 'cbrt', 'powi', 'is_nan', 'zero'] + PURE[:21] if (f, n) not in seen]
            if miss:
                ck.und(f'Quantity<{f}> methods [{cfg}]', 'not found: ' + ', '.join(miss))


def fn_source_generics_local(P, x, name):
    i = P.impl_of(x.name)
    return fn_source_generics_in(P, i, name)


def fn_source_generics_in(P, imp, name):
    src = P.src_of('')
    m = RE_IMPLAT.search(imp.span)
    l1 = int(m.group(2))
    lines = src.split('\n')
    # from the impl header to the end of its block
    txt = '\n'.join(lines[l1 - 1:l1 + 600])
    j = txt.find('{')
    # the header may contain const braces: find the block start as the first '{' at header end
    mm = re.search(r'\bfn\s+' + re.escape(name) + r'\s*(<)?', txt)
    if not mm or not mm.group(1):
        return []
    g, d, q = clean_src(txt[mm.end():mm.end() + 1500]), 1, 0
    while d and q < len(g):
        if g[q] == '<':
            d += 1
        elif g[q] == '>' and g[q - 1] != '-':
            d -= 1
        q += 1
    return parse_generics(TP(lex(g[:q])))


# ------------------------------------------------------------------ vector methods
def c10(ck):
    ck.assumptions |= set(ASSUME_STORAGE) | {'glam vector functions of one name are one function per vector type (uninterpreted); Vec::new(x, y, z) has exactly these components',
                                             'glam: q * Vec::X = (q, 0, 0) for finite q'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        seen = set()
        done = set()
        for x in P.fns:
            if '{closure' in x.name or '{constant' in x.name or x.name in done:
                continue
            i = P.impl_of(x.name)
            if not i or i.trait is not None or i.ty is None:
                continue
            k = kind(i.ty)
            if not (k[0] == 'Q' and k[1].kind == 'path' and k[1].last in VECS):
                continue
            done.add(x.name)
            name = P.lastname(x.name)
            v = k[1].last
            f, n = VECS[v]
            label = f'Quantity<{v}, {k[2]}>::{name} [{cfg}]'
            seen.add((v, name))

            def go(x=x, i=i, k=k, name=name, v=v, f=f, n=n, label=label):
                gens = fn_source_generics_in(P, i, name)
                eng = engine(P, i.gens + gens)
                st = State(eng)
                args = fresh_args(eng, x, st)
                env = {}
                d = dim_of(k, env)
                ks = [kind(t) for _, t in x.args()]
                vals = [storage(eng, a, kk, st) for a, kk in zip(args, ks)]
                rk = kind(x.ret())
                ft = Ty('path', f)
                comp = lambda u, c: uf(str('xyz'.index(c)), U, U)(u)
                zero = z3.Const(f'{f}:0.0', U)

                def components(t):
                    """components of a storage vector value"""
                    return [uf(str(c), U, U)(t) for c in range(n)]

                def dims(pairs):
                    for (kk, want, what) in pairs:
                        ck.prove(label, what, [], dim_of(kk, env) == want)
                if name == 'new':
                    if len(args) != n:
                        raise Unsupported('arguments of new')
                    dims([(kk, d, 'components have the dimension of the vector') for kk in ks] + [(rk, d, 'result has the dimension of the components')])
                    run_fn(ck, eng, label, x, args, st, lambda o: [('components of the result are the arguments in order', z3.And([a == b for a, b in zip(components(storage(eng, o.val, rk, o.st)), vals)]))])
                    return
                if name in ('new_x', 'new_y', 'new_z'):
                    c = 'xyz'.index(name[-1])
                    if c >= n:
                        raise Unsupported('component')
                    dims([(ks[0], d, 'component has the dimension of the vector'), (rk, d, 'result has the dimension of the component')])
                    ax = [z3.Const(nm, U) for nm in (f'const:{v}::{name[-1].upper()}', f'const:<{v}>::{name[-1].upper()}', f'const:glam::{v}::{name[-1].upper()}')]

                    def post(o):
                        r = storage(eng, o.val, rk, o.st)
                        alts = []
                        for u in ax:
                            a, b = sorted((vals[0], u), key=str)
                            alts += [r == opu('op.mul', a, b)]
                        alts.append(z3.And([components(r)[j] == (vals[0] if j == c else zero) for j in range(n)]))
                        return [(f'is the vector with only the {name[-1]} component set', z3.Or(alts))]
                    run_fn(ck, eng, label, x, args, st, post)
                    return
                if name in ('x', 'y', 'z'):
                    dims([(rk, d, 'component has the dimension of the vector')])
                    run_fn(ck, eng, label, x, args, st, lambda o: [(f'is the {name} component', storage(eng, o.val, rk, o.st) == comp(vals[0], name)), ('the vector is unchanged', storage(eng, args[0], ks[0], o.st) == vals[0])])
                    return
                if name in ('set_x', 'set_y', 'set_z'):
                    dims([(ks[1], d, 'component has the dimension of the vector')])
                    c = 'xyz'.index(name[-1])

                    def post(o):
                        q = eng.deref_all(args[0], o.st)
                        vec = eng.field(q, None, 0, k[1], o.st)
                        out = []
                        for j in range(n):
                            cv = eng.to_u(eng.field(vec, None, j, ft, o.st), o.st)
                            out.append((f'component {"xyz"[j]} is ' + ('the argument' if j == c else 'unchanged'), cv == (vals[1] if j == c else uf(str(j), U, U)(vals[0]))))
                        return out
                    run_fn(ck, eng, label, x, args, st, post)
                    return
                if name == 'zero':
                    dims([(rk, d, 'result has the dimension')])
                    zs = [z3.Const(nm, U) for nm in (f'const:{v}::ZERO', f'const:<{v}>::ZERO', f'const:glam::{v}::ZERO')]

                    def post(o):
                        r = storage(eng, o.val, rk, o.st)
                        return [('is the zero vector', z3.Or([r == u for u in zs] + [z3.And([a == zero for a in components(r)])]))]
                    run_fn(ck, eng, label, x, args, st, post)
                    return
                spec = {'min': d, 'max': d, 'abs': d, 'length': d, 'distance': d, 'distance_squared': 2 * d, 'normalize': z3.RealVal(0), 'length_squared': 2 * d}
                if name in spec or name == 'dot':
                    if name == 'dot':
                        want = d + dim_of(ks[1], env)
                    else:
                        want = spec[name]
                        for kk in ks[1:]:
                            ck.prove(label, 'the argument has the dimension of the vector', [], dim_of(kk, env) == d)
                    ck.prove(label, 'result has the right dimension', [], dim_of(rk, env) == want)
                    ws = [opu(f'{v}.{name}', *vals)]
                    if name in ('dot', 'distance', 'distance_squared'):
                        ws.append(opu(f'{v}.{name}', *vals[::-1]))
                    if name in ('distance', 'distance_squared'):
                        diff = opu('op.sub', vals[0], vals[1])
                        ws.append(opu(f'{v}.' + {'distance': 'length', 'distance_squared': 'length_squared'}[name], diff))
                    run_fn(ck, eng, label, x, args, st, lambda o: [(f'is {name} of the stored vector', z3.Or([storage(eng, o.val, rk, o.st) == w for w in ws]))])
                    return
                raise Unsupported('method without a contract')
            ck.guard(label, go)
        for v, (f, n) in VECS.items():
            want = ['new', 'new_x', 'new_y', 'x', 'y', 'set_x', 'set_y', 'zero', 'min', 'max', 'abs', 'length', 'distance', 'distance_squared', 'normalize', 'dot'] + (['new_z', 'z', 'set_z'] if n == 3 else [])
            miss = [w for w in want if (v, w) not in seen]
            if miss:
                ck.und(f'Quantity<{v}> methods [{cfg}]', 'not found: ' + ', '.join(miss))


# ------------------------------------------------------------------ C21
def c21(ck):
    ck.assumptions |= {'UniformFloat sampling, the MPI datatypes RSMPI_FLOAT/RSMPI_DOUBLE and hdf5 FloatSize are what their crates say',
                       'repr(transparent) gives Quantity<S, D> the layout of S (rustc)'}
    for cfg in ('all', 'norational'):
        P = gen_prog(cfg)
        # wrapping and unwrapping
        for name in ('value', 'value_ref', 'value_unchecked', 'value_unchecked_ref', 'new_unchecked'):
            its = list(uniq(inherent(P, name, lambda k: k[0] == 'Q')))
            if not its:
                ck.und(f'{name} [{cfg}]', 'not found')
            for x, i in its:
                label = short(i, name) + f' [{cfg}]'

                def go(x=x, i=i, name=name, label=label):
                    eng = engine(P, i.gens)
                    st = State(eng)
                    args = fresh_args(eng, x, st)
                    k = kind(i.ty)
                    if name == 'new_unchecked':
                        a = eng.to_u(args[0], st)
                        run_fn(ck, eng, label, x, args, st, lambda o: [('stored value is the argument', storage(eng, o.val, k, o.st) == a)])
                    else:
                        a = storage(eng, args[0], k, st)
                        run_fn(ck, eng, label, x, args, st, lambda o: [('is the stored value', eng.to_u(eng.deref_all(o.val, o.st), o.st) == a)])
                        if name in ('value', 'value_ref'):
                            ck.prove(label, 'exists only for dimensionless quantities', [], dim_of(k, {}) == 0)
                ck.guard(label, go)
        n = 0
        for x in P.fns:
            i = P.impl_of(x.name)
            if not i or i.trait is None or i.ty is None or i.trait.kind != 'path' or '{c' in x.name:
                continue
            name = P.lastname(x.name)
            tn = i.trait.last
            label = short(i, name) + f' [{cfg}]'
            if tn in ('Deref', 'DerefMut', 'AsRef', 'Borrow') and kind(i.ty)[0] == 'Q':
                n += 1

                def go(x=x, i=i, label=label):
                    eng = engine(P, i.gens)
                    st = State(eng)
                    args = fresh_args(eng, x, st)
                    k = kind(i.ty)
                    a = storage(eng, args[0], k, st)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('is the stored value', eng.to_u(eng.deref_all(o.val, o.st), o.st) == a)])
                    ck.prove(label, 'exists only for dimensionless quantities', [], dim_of(k, {}) == 0)
                ck.guard(label, go)
            elif tn == 'From' and kind(i.ty)[0] == 'Q':
                n += 1

                def go(x=x, i=i, label=label):
                    eng = engine(P, i.gens)
                    st = State(eng)
                    args = fresh_args(eng, x, st)
                    k = kind(i.ty)
                    a = eng.to_u(args[0], st)
                    run_fn(ck, eng, label, x, args, st, lambda o: [('stored value is the argument', storage(eng, o.val, k, o.st) == a)])
                ck.guard(label, go)
            elif tn == 'UniformSampler':
                n += 1
                ck.guard(label, lambda x=x, i=i, name=name, label=label: sampler(ck, P, x, i, name, label))
            elif tn == 'Equivalence' and name == 'equivalent_datatype':
                n += 1
                ck.guard(label, lambda x=x, i=i, label=label: mpi_desc(ck, P, x, i, label))
            elif tn == 'H5Type' and name == 'type_descriptor':
                n += 1
                ck.guard(label, lambda x=x, i=i, label=label: h5_desc(ck, P, x, i, label))
        if n < 15:
            ck.und(f'foreign interface impls [{cfg}]', f'only {n} found')
        src = P.src_of('')
        def repr_():
            m = re.search(r'((?:#\[[^\]]*\]\s*)*)pub\s+struct\s+' + QT + r'\s*<', src)
            if not m:
                raise Unsupported('struct Quantity not found')
            ck.add(f'struct Quantity [{cfg}]', 'is repr(transparent) over the storage', 'proved' if re.search(r'repr\(\s*transparent\s*\)', m.group(1)) else 'refuted', 'layout attribute', 0, m.group(1)[:200])
        ck.guard(f'struct Quantity [{cfg}]', repr_)


def sampler(ck, P, x, i, name, label):
    gens = fn_source_generics_in(P, i, name)
    eng = engine(P, i.gens + gens)
    st = State(eng)
    args = fresh_args(eng, x, st)
    f = strip_ref(strip_life(i.ty)).args[0].last

    def val(j):
        return uf('0', U, U)(opu('borrow', eng.to_u(args[j], st)))
    if name in ('new', 'new_inclusive'):
        w = opu('uniform.' + name, val(0), val(1))
        run_fn(ck, eng, label, x, args, st, lambda o: [(f'is the storage sampler between exactly the stored bounds, low first', eng.to_u(eng.field(eng.deref_all(o.val, o.st), None, 0, Ty('path', 'UniformFloat'), o.st), o.st) == w)])
    elif name == 'sample':
        inner = uf('0', U, U)(eng.to_u(args[0], st))
        rng0 = eng.to_u(args[1], st)
        w = opu('uniform.sample', inner, rng0)
        rk = kind(x.ret())
        fk = ('Q', Ty('path', f), 'D')
        run_fn(ck, eng, label, x, args, st, lambda o: [('stored value is the value the storage sampler returns', storage(eng, o.val, fk, o.st) == w),
                                                      ('the generator is advanced exactly once, by the storage sampler', eng.to_u(eng.deref_all(args[1], o.st), o.st) == opu('uniform.rng.sample', inner, rng0))])
    else:
        raise Unsupported('method ' + name)


def show(v, eng, st):
    v = eng.deref_all(v, st)
    if isinstance(v, Agg):
        nm = (v.ty.last if isinstance(v.ty, Ty) and v.ty.kind == 'path' else str(v.ty)) + (f'::{v.var}' if v.var else '')
        return nm + ('(' + ', '.join(show(v.f[k], eng, st) for k in sorted(v.f)) + ')' if v.f else '')
    if isinstance(v, Opq):
        return str(v.t)
    return str(v)


def h5_desc(ck, P, x, i, label):
    k = kind(i.ty)
    if k[0] != 'Q':
        raise Unsupported('H5Type of ' + str(i.ty))
    eng = engine(P, i.gens)
    st = State(eng)
    s = k[1].last
    size = {'f32': 'U4', 'f64': 'U8'}
    outs = [o for o in eng.call_body(x, [], st, {}) if o.kind == 'ret']
    ck.use(eng)
    if len(outs) != 1:
        raise Unsupported('type_descriptor paths')
    got = re.sub(r'const:|zst:', '', show(outs[0].val, eng, outs[0].st))
    got = re.sub(r'\b\w+::(?=\w+::)', '', got)
    fl = lambda f: f'Float({size[f]})'
    if s in FLOATT:
        want = fl(s)
    elif s in VECS:
        want = f'FixedArray({fl(VECS[s][0])}, {VECS[s][1]})'
    else:
        raise Unsupported('storage ' + s)
    got = got.replace('TypeDescriptor::', '').replace('FloatSize::', '')
    if not re.fullmatch(r'[\w:(), ]*', got) or not re.match(r'(Float|FixedArray)\(', got):
        raise Unsupported('type descriptor ' + got)
    ck.add(label, f'type descriptor is {want}', 'proved' if got == want else 'refuted', 'symbolic execution', 0, 'got ' + got)


def mpi_desc(ck, P, x, i, label):
    k = kind(i.ty)
    s = k[1].last if k[0] == 'Q' else None
    if s in FLOATT:
        txt = x.fn_text() if hasattr(x, 'fn_text') else None
        eng = engine(P, i.gens)
        st = State(eng)
        outs = [o for o in eng.call_body(x, [], st, {}) if o.kind == 'ret']
        ck.use(eng)
        if len(outs) != 1:
            raise Unsupported('paths')
        got = show(outs[0].val, eng, outs[0].st)
        want = {'f32': 'RSMPI_FLOAT', 'f64': 'RSMPI_DOUBLE'}[s]
        if 'RSMPI' not in got:
            raise Unsupported('datatype ' + got)
        ok = re.search(r'\b' + want + r'\b', got) is not None and len(re.findall(r'RSMPI_\w+', got)) == 1
        ck.add(label, f'datatype is {want}', 'proved' if ok else 'refuted', 'symbolic execution', 0, 'got ' + got)
        return
    if s in VECS:
        # the datatype is a lazily initialised static: its initialiser is a closure of this function
        f, n = VECS[s]
        cl = [y for y in P.fns if y.name.startswith(x.name + '::') and '{closure' in y.name]
        if len(cl) != 1:
            raise Unsupported('initialiser of the datatype')
        eng = engine(P, i.gens)
        st = State(eng)
        c = cl[0]
        outs = [o for o in eng.call_body(c, fresh_args(eng, c, st), st, {}) if o.kind == 'ret']
        ck.use(eng)
        if len(outs) != 1:
            raise Unsupported('paths')
        got = show(outs[0].val, eng, outs[0].st)
        m = re.search(r'contiguous[^(]*\((.*)\)$', got.replace('\n', ' '))
        if not m:
            raise Unsupported('datatype ' + got[:200])
        nn = re.search(r'u<Int>\((\d+)\)', got)
        tys = re.findall(r'\b(f32|f64)\b', got)
        if not nn or not tys:
            raise Unsupported('datatype ' + got[:200])
        ok = int(nn.group(1)) == n and set(tys) == {f}
        ck.add(label, f'datatype is {n} contiguous {f}', 'proved' if ok else 'refuted', 'symbolic execution', 0, 'got ' + got[:300])
        return
    raise Unsupported('Equivalence of ' + str(i.ty))


def headers(ck):
    """impl headers the parser could not read hide functions from the enumeration: report them"""
    for cfg, P in _prog.items():
        for x in P.fns:
            i = P.impl_of(x.name)
            if i is not None and i.ty is None:
                ck.und(x.name, 'impl header outside the parsed subset: ' + ' '.join(i.src.split())[:120] if hasattr(i, 'src') else 'impl header outside the parsed subset')
