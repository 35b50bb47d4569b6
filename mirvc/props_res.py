"""C12-C14: resolution of the definitions and the rules that reject inconsistent ones (resolve/)"""
import re
import z3
from mir import *
from engine import *
import coll as C
from coll import AT, LEN, HAS, GET, INS, REM, EMPTY, MEMPTY
from props_lib import FnContract, enc
from props_us import *
from props_us import E_

IN, POS = uf('seq.in', U, U, BOOL), uf('seq.pos', U, U, INT)
VALOF = uf('spec.valof', U, U)
RK, SZ = uf('spec.rank', U, U, INT), uf('spec.size', U, INT)
IDENT, ITEM, STORAGE = Ty('path', 'Ident'), Ty('path', 'Item'), Ty('path', 'IdentStorage')


def member_lemmas():
    """x is an element of s; proved from the sequence theory by c12_member"""
    s, x = z3.Const('s', U), z3.Const('x', U)
    i, j = z3.Ints('i j')
    return [z3.ForAll([s, x], z3.Implies(IN(s, x), z3.And(0 <= POS(s, x), POS(s, x) < LEN(s), AT(s, POS(s, x)) == x)), patterns=[IN(s, x)]),
            z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < LEN(s)), IN(s, AT(s, i))), patterns=[AT(s, i)])], \
        [z3.ForAll([s, i, x], z3.Implies(z3.And(0 <= i, i < LEN(s), IN(s, x)), z3.Or(x == AT(s, i), IN(REM(s, i), x))), patterns=[z3.MultiPattern(REM(s, i), IN(s, x))]),
         z3.ForAll([s, i, x], z3.Implies(z3.And(0 <= i, i < LEN(s), IN(REM(s, i), x)), IN(s, x)), patterns=[IN(REM(s, i), x)])]


def rank_defs():
    """ghost: the number of entries inserted before an entry (by recursion on the insertion history)"""
    m, k, v, k2 = [z3.Const(n, U) for n in ('m', 'k', 'v', 'k2')]
    return [SZ(MEMPTY) == 0,
            z3.ForAll([m, k, v], SZ(INS(m, k, v)) == SZ(m) + 1, patterns=[INS(m, k, v)]),
            z3.ForAll([m, k, v, k2], RK(INS(m, k, v), k2) == z3.If(k2 == k, SZ(m), RK(m, k2)), patterns=[RK(INS(m, k, v), k2)])]


def valof_def(N):
    """valuation of a store: a written number is itself, a name is what is stored for it"""
    m, v = z3.Const('m', U), z3.Const('v', U)
    return z3.ForAll([m, v], APP(VALOF(m), v) == z3.If(N.concrete(v), N.value(v), N.p(GET(m, N.ident(v)), N.rdims)), patterns=[APP(VALOF(m), v)])


def name_axioms(N):
    """spec.name(item): the name of the defining entry"""
    it = z3.Const('it', U)
    return [z3.ForAll([it], NAME(it) == N.item_name(it), patterns=[NAME(it)])]


NAME = uf('spec.name', U, U)


class Store:
    """specification vocabulary of an IdentStorage term"""

    def __init__(self, N):
        self.N = N

    def resolvable(self, e, rs):
        v = z3.Const('v!r', U)
        return z3.ForAll([v], z3.Implies(LEAF(e, v), z3.Or(self.N.concrete(v), HAS(rs, self.N.ident(v)))))

    def item(self, r, k):
        return self.N.p(GET(r, k), self.N.ritem)

    def dims(self, r, k):
        return self.N.p(GET(r, k), self.N.rdims)

    def inv(self, u0, u, r):
        N = self.N
        i, j = z3.Ints('i!d j!d')
        x, k, v = z3.Const('x!d', U), z3.Const('k!d', U), z3.Const('v!d', U)
        nm = NAME
        e = lambda k: N.p(self.item(r, k), N.expr)
        return [
            ('names stay distinct', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LEN(u)), nm(AT(u, i)) != nm(AT(u, j))), patterns=[z3.MultiPattern(AT(u, i), AT(u, j))])),
            ('no unresolved definition is stored', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(u)), z3.Not(HAS(r, nm(AT(u, i))))), patterns=[AT(u, i)])),
            ('no definition is lost', z3.ForAll([x], z3.Implies(IN(u0, x), z3.Or(IN(u, x), z3.And(HAS(r, nm(x)), self.item(r, nm(x)) == x))), patterns=[IN(u0, x)])),
            ('no definition is made up', z3.And(z3.ForAll([x], z3.Implies(IN(u, x), IN(u0, x)), patterns=[IN(u, x)]),
                                                z3.ForAll([k], z3.Implies(HAS(r, k), z3.And(IN(u0, self.item(r, k)), nm(self.item(r, k)) == k)), patterns=[HAS(r, k)]))),
            ('a stored definition has the value of its right-hand side over the stored values', z3.ForAll([k], z3.Implies(HAS(r, k), self.dims(r, k) == RV(e(k), VALOF(r))), patterns=[HAS(r, k)])),
            ('what a stored definition mentions was stored before it', z3.And(SZ(r) >= 0, z3.ForAll([k], z3.Implies(HAS(r, k), z3.And(0 <= RK(r, k), RK(r, k) < SZ(r))), patterns=[HAS(r, k)]),
             z3.ForAll([k, v], z3.Implies(z3.And(HAS(r, k), LEAF(e(k), v), z3.Not(N.concrete(v))), z3.And(HAS(r, N.ident(v)), RK(r, N.ident(v)) < RK(r, k))), patterns=[z3.MultiPattern(HAS(r, k), LEAF(e(k), v))]))),
        ]

    def final(self, u0, r):
        """what resolve() guarantees about the store"""
        N = self.N
        x = z3.Const('x!d', U)
        u = z3.Const('seq.nothing', U)
        out = [g for n, g in self.inv(u0, EMPTY, r) if n in ('no definition is made up', 'a stored definition has the value of its right-hand side over the stored values',
                                                           'what a stored definition mentions was stored before it')]
        out.append(z3.ForAll([x], z3.Implies(z3.And(IN(u0, x), HAS(r, NAME(x))), self.item(r, NAME(x)) == x), patterns=[IN(u0, x)]))
        out.append(z3.ForAll([x], z3.Implies(z3.And(IN(u0, x), z3.Not(HAS(r, NAME(x)))), z3.Not(self.resolvable(N.p(x, N.expr), r))), patterns=[IN(u0, x)]))
        return out


def store_arg(eng, st, N, a):
    s = eng.to_u(eng.deref_all(a, st), st)
    return N.p(s, N.unresolved), N.p(s, N.resolved)


def is_resolvable_contract(N):
    def spec(eng, st, args):
        u, r = store_arg(eng, st, N, args[0])
        it = eng.to_u(eng.deref_all(args[1], st), st)
        return Store(N).resolvable(N.p(it, N.expr), r)
    return FnContract('IdentStorage::is_resolvable', key_re(r'IdentStorage::is_resolvable'), spec)


def resolve_dimensions_contract(N, sink=None):
    """contract proved in C11; the precondition is an obligation of the caller"""
    def spec(eng, st, args):
        u, r = store_arg(eng, st, N, args[0])
        it = eng.to_u(eng.deref_all(args[1], st), st)
        e = N.p(it, N.expr)
        if sink is not None:
            sink.append(('every name of the definition is stored when resolve_dimensions looks it up', list(st.pc), Store(N).resolvable(e, r), eng.axioms()))
        return Opq(RV(e, VALOF(r)), DAM)
    return FnContract('IdentStorage::resolve_dimensions (C11)', key_re(r'IdentStorage::resolve_dimensions'), spec)


def item_contracts(N):
    return [FnContract('Item::ident', key_re(r'Item::ident'), lambda eng, st, args: Ref(st.cell(Opq(NAME(eng.to_u(eng.deref_all(args[0], st), st)), IDENT))))]


ERR = 'errors'


def emits(st, c):
    st.ghost[ERR] = z3.Or(st.ghost[ERR], c)


def unit_val():
    return Agg('()', None, [])


def emit_list_contract(err, name=None):
    """<err as Emit>::emit: one error per listed identifier (or group)"""
    def spec(eng, st, args):
        t = eng.to_u(eng.deref_all(args[0], st), st)
        l = uf('0', U, U)(t)
        st.ghost['reported ' + err] = l
        emits(st, LEN(l) > 0)
        return unit_val()
    return FnContract(f'<{err} as Emit>::emit', key_re(rf'<{err}(?:<.*>)? as (?:\w+::)*Emit>::emit'), spec)


def emit_one_contract(err):
    def spec(eng, st, args):
        emits(st, z3.BoolVal(True))
        return unit_val()
    return FnContract(f'<{err} as Emit>::emit', key_re(rf'<{err}(?:<.*>)? as (?:\w+::)*Emit>::emit'), spec)


def c12_member(ck):
    eng = rt_engine(us_prog('rational'), [])
    st = State(eng)
    defs, lem = member_lemmas()
    s, x = z3.Const('s0', U), z3.Const('x0', U)
    i = z3.Int('i0')
    rng = [0 <= i, i < LEN(s)]
    k = POS(s, x)
    j, y = z3.Int('j0'), z3.Const('y0', U)
    ck.prove('lemma: membership after Vec::remove', 'nothing but the removed element disappears (its index is known)', rng + [IN(s, x), x != AT(s, i), j == z3.If(k < i, k, k - 1), y == AT(REM(s, i), j), IN(s, x) == z3.And(0 <= k, k < LEN(s), AT(s, k) == x)],
             z3.And(0 <= j, j < LEN(REM(s, i)), y == x), eng.axioms(), vocab=us_vocab)
    ck.prove('lemma: membership after Vec::remove', 'nothing appears', rng + [IN(REM(s, i), x)] + defs, IN(s, x), eng.axioms(), vocab=us_vocab)
    ck.covers += 1


def c12_resolvable(ck, P, cfg):
    fn = f'IdentStorage::is_resolvable [{cfg}]'

    def go():
        N = Names(P)
        eng = us_engine(P, cfg, expr_contracts())
        st = State(eng)
        s, it = z3.Const('s', U), z3.Const('it', U)
        st.assume(N.wf_item(it))
        for o in outcomes(ck, eng, fn, method(P, 'IdentStorage', 'is_resolvable'), [Ref(st.cell(Opq(s, STORAGE))), Ref(st.cell(Opq(it, ITEM)))], st):
            ck.prove(fn, 'true exactly when every name the definition mentions is stored', o.st.pc, o.val == Store(N).resolvable(N.p(it, N.expr), N.p(s, N.resolved)), eng.axioms(), vocab=us_vocab)
    ck.guard(fn, go)
    fn2 = f'Item::ident [{cfg}]'

    def go2():
        N = Names(P)
        eng = us_engine(P, cfg)
        st = State(eng)
        it = z3.Const('it', U)
        st.assume(N.wf_item(it))
        for o in outcomes(ck, eng, fn2, method(P, 'Item', 'ident'), [Ref(st.cell(Opq(it, ITEM)))], st):
            ck.prove(fn2, 'the name of the defining entry', o.st.pc, eng.to_u(eng.deref_all(o.val, o.st), o.st) == N.item_name(it), eng.axioms(), vocab=us_vocab)
    ck.guard(fn2, go2)


def c12_resolve(ck, P, cfg):
    fn = f'IdentStorage::resolve [{cfg}]'

    def go():
        N = Names(P)
        S = Store(N)
        sink = []
        eng = us_engine(P, cfg, [is_resolvable_contract(N), resolve_dimensions_contract(N, sink), emit_list_contract('UnresolvableError')] + item_contracts(N) + expr_contracts())
        defs, lem = member_lemmas()
        base_ax = defs + lem + rank_defs() + [valof_def(N)] + expr_lemmas()
        s0 = z3.Const('s', U)
        u0, r0 = N.p(s0, N.unresolved), N.p(s0, N.resolved)
        st = State(eng)
        st.ghost[ERR] = z3.Const('errors0', BOOL)
        cell = st.cell(Opq(s0, STORAGE))
        i, j = z3.Ints('i j')
        nm = NAME
        st.assume(r0 == MEMPTY)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LEN(u0)), nm(AT(u0, i)) != nm(AT(u0, j)))))

        def here(eng, fr, st):
            v = st.mem.get(cell)
            t = eng.to_u(v, st)
            return N.p(t, N.unresolved), N.p(t, N.resolved)

        def mods(eng, fr, st):
            v = st.mem.get(fr['cells'].get('_1'))
            while isinstance(v, Ref) and v.cell != cell:
                v = st.mem.get(v.cell)
            return [cell] if isinstance(v, Ref) and v.path == () else None
        parts = [n for n, _ in S.inv(u0, u0, r0)]
        obs = []

        def inv(eng, fr, st):
            u, r = here(eng, fr, st)
            return z3.And([g for _, g in S.inv(u0, u, r)])
        w = C.WhileInv(inv, mods, lambda eng, fr, st: LEN(here(eng, fr, st)[0]), obs, 'resolve loop')
        eng.loop_spec = lambda item: C.AutoLoop([w])
        outs = outcomes(ck, eng, fn, method(P, 'IdentStorage', 'resolve'), [Ref(cell, (), True)], st)
        for what, pc, goal, ax in obs + sink:
            gs = list(zip(parts, goal.children())) if z3.is_and(goal) and len(goal.children()) == len(parts) else [('', goal)]
            for n, g in gs:
                ck.prove(fn, what + (': ' + n if n else ''), pc + base_ax, g, ax, vocab=us_vocab)
        x, k, n = z3.Const('x', U), z3.Const('k', U), z3.Const('n', U)
        for o in outs:
            u, r = here(eng, None, o.st)
            for name, g in zip(('nothing is made up', 'values', 'order of dependence', 'the stored item is the definition', 'only definitions with an unresolved name stay unresolved'), S.final(u0, r)):
                ck.prove(fn, 'at the end: ' + name, o.st.pc + base_ax, g, eng.axioms(), vocab=us_vocab)
            rep = o.st.ghost.get('reported UnresolvableError')
            missing = z3.Exists([x], z3.And(IN(u0, x), z3.Not(HAS(r, nm(x)))))
            ck.prove(fn, 'an error is reported exactly when a definition stays unresolved', o.st.pc + base_ax, o.st.ghost[ERR] == z3.Or(z3.Const('errors0', BOOL), missing), eng.axioms(), vocab=us_vocab)
            if rep is not None:
                ck.prove(fn, 'every unresolved definition is reported', o.st.pc + base_ax + [IN(u0, k), z3.Not(HAS(r, nm(k)))], z3.Exists([i], z3.And(0 <= i, i < LEN(rep), AT(rep, i) == nm(k))), eng.axioms(), vocab=us_vocab)
                ck.prove(fn, 'nothing else is reported', o.st.pc + base_ax + [0 <= j, j < LEN(rep)], z3.Exists([x], z3.And(IN(u0, x), nm(x) == AT(rep, j), z3.Not(HAS(r, nm(x))))), eng.axioms(), vocab=us_vocab)
    ck.guard(fn, go)


def c12_lemmas(ck, P, cfg):
    """consequences of the contract of resolve()"""
    def go():
        N = Names(P)
        S = Store(N)
        eng = rt_engine(P, [])
        st = State(eng)
        u, r = z3.Const('u', U), z3.Const('r', U)
        defs, lem = member_lemmas()
        A, rank = uf('ghost.set', U, BOOL), uf('ghost.rank', U, INT)
        x, y, v, k, l = [z3.Const(n, U) for n in ('x', 'y', 'v', 'k', 'l')]
        ax = defs + [valof_def(N)] + expr_lemmas()
        DEF = uf('ghost.def', U, U)
        fn = f'lemma: resolution is complete [{cfg}]'
        ex = lambda x: N.p(x, N.expr)
        closed = z3.ForAll([x, v], z3.Implies(z3.And(IN(u, x), A(NAME(x)), LEAF(ex(x), v), z3.Not(N.concrete(v))),
                                              z3.And(A(N.ident(v)), IN(u, DEF(N.ident(v))), NAME(DEF(N.ident(v))) == N.ident(v), rank(N.ident(v)) < rank(NAME(x)))))
        ih = z3.ForAll([y], z3.Implies(z3.And(IN(u, y), A(NAME(y)), rank(NAME(y)) < rank(NAME(k))), HAS(r, NAME(y))))
        ck.prove(fn, 'induction step: a definition is resolved if its references are defined, contain no cycle (have a rank) and are resolved', ax + S.final(u, r) + [closed, ih, IN(u, k), A(NAME(k))],
                 HAS(r, NAME(k)), eng.axioms(), vocab=lambda n: us_vocab(n) or n.startswith('ghost.'))
        fn = f'lemma: nothing on a cycle is resolved [{cfg}]'
        ck.prove(fn, 'a resolved definition mentions resolved names of strictly smaller rank only', ax + S.final(u, r) + [IN(u, x), HAS(r, NAME(x)), LEAF(ex(x), v), z3.Not(N.concrete(v))],
                 z3.And(HAS(r, N.ident(v)), 0 <= RK(r, N.ident(v)), RK(r, N.ident(v)) < RK(r, NAME(x))), eng.axioms(), vocab=us_vocab)
        fn = f'lemma: the order of definitions does not matter [{cfg}]'
        u2, r2 = z3.Const('u2', U), z3.Const('r2', U)
        perm = z3.ForAll([x], IN(u, x) == IN(u2, x))
        ih = z3.ForAll([l], z3.Implies(z3.And(HAS(r, l), RK(r, l) < RK(r, k)), z3.And(HAS(r2, l), S.dims(r, l) == S.dims(r2, l))))
        hyp = ax + S.final(u, r) + S.final(u2, r2) + [perm, ih, HAS(r, k)]
        # distinct names: the same definition is stored for k in both
        dist = z3.ForAll([x, y], z3.Implies(z3.And(IN(u, x), IN(u, y), NAME(x) == NAME(y)), x == y))
        ck.prove(fn, 'induction step: what one order resolves, every other order resolves', hyp + [dist], HAS(r2, k), eng.axioms(), vocab=us_vocab)
        ck.prove(fn, 'induction step: to the same value and dimension', hyp + [dist, HAS(r2, k)], S.dims(r, k) == S.dims(r2, k), eng.axioms(), vocab=us_vocab)
        ck.covers += 1
    ck.guard(f'lemmas on resolution [{cfg}]', go)


def c12(ck):
    c12_member(ck)
    for cfg in CFGS:
        P = us_prog(cfg)
        c12_resolvable(ck, P, cfg)
        c12_resolve(ck, P, cfg)
        c12_lemmas(ck, P, cfg)


# ------------------------------------------------------------------ diagnostics
class Diag(Lib):
    """a diagnostic under construction: all that matters is whether its level is Error"""

    def __init__(self, error):
        self.error = error

    def __repr__(self):
        return f'Diag({self.error})'


LEVELS = ['Error', 'Warning', 'Note', 'Help']
TEXT = r'(?:Argument::new_\w+(?:<.*>)?|Arguments::new_\w+(?:<.*>)?|(?:fmt::)?format|must_use(?:<.*>)?|str::to_lowercase|Span::call_site|(?:\w+::)*Ident::span|Span::unwrap|<.* as ToString>::to_string|format_lhs_rhs_dimensions)'


def diag_models():
    """proc_macro diagnostics: a diagnostic is an error exactly when it is created with level Error; attaching notes and
    help texts keeps the level; message texts and spans are left open"""
    def opaque(eng, st, args, dty, m, callee):
        return eng.val_of_term(dty, C.new_term(eng, st, 'text'), st)

    def make(eng, st, args, dty, m, callee):
        n = m.group('n')
        if n == 'spanned' or n == 'new':
            lv = eng.discr(eng.deref_all(args[1 if n == 'spanned' else 0], st), st)
            return Diag(lv == LEVELS.index('Error'))
        return Diag(z3.BoolVal(n in ('error', 'span_error')))

    def keep(eng, st, args, dty, m, callee):
        return args[0]

    def emit(eng, st, args, dty, m, callee):
        d = eng.deref_all(args[0], st)
        if not isinstance(d, Diag):
            raise Unsupported(f'diagnostic {d!r}')
        emits(st, d.error)
        return unit_val()
    R = re.compile
    return [(R(r'(?:\w+::)*Span::(?P<n>error|warning|note|help)(?:<.*>)?'), make), (R(r'(?:\w+::)*Diagnostic::(?P<n>spanned|new)(?:<.*>)?'), make),
            (R(r'(?:\w+::)*Diagnostic::(?:note|help|warning|span_note|span_help|span_warning)(?:<.*>)?'), keep),
            (R(r'(?:\w+::)*Diagnostic::emit'), emit), (R(TEXT), opaque)]


ENUMS.setdefault('Level', LEVELS)


def res_engine(P, cfg, contracts=()):
    eng = us_engine(P, cfg, contracts, models=diag_models())
    return eng


def ghost_state(eng):
    st = State(eng)
    st.ghost[ERR] = z3.Const('errors0', BOOL)
    return st


E0 = z3.Const('errors0', BOOL)


def emit_impls(P):
    return [(x, i) for x in P.by_last.get('emit', []) for i in [P.impl_of(x.name)] if i and i.trait is not None and i.trait.last == 'Emit' and '{closure' not in x.name]


LISTED = ('UnresolvableError', 'UndefinedError', 'MultipleDefinitionsError')


def c13_emit(ck, P, cfg):
    """every error type reports at least one error of level Error"""
    for x, i in emit_impls(P):
        ty = i.ty.last
        fn = f'<{ty} as Emit>::emit [{cfg}]'

        def go():
            N = Names(P)
            eng = res_engine(P, cfg)
            st = ghost_state(eng)
            e = z3.Const('err', U)
            want = z3.BoolVal(True)
            if ty in LISTED:
                want = LEN(uf('0', U, U)(e)) > 0
                j = z3.Int('j')
                if ty == 'MultipleDefinitionsError':
                    st.assume(z3.ForAll([j], LEN(AT(uf('0', U, U)(e), j)) > 0))
            if ty == 'TypeDefinitionsError':
                v = N.variants('TypeDefinitionsError', 'Multiple', 'None')
                fl = [n for n, _ in variant_fields(P, 'TypeDefinitionsError', 'Multiple')]
                want = z3.Or(N.d(e) == v.index('None'), LEN(N.p(e, fl.index('idents'), 'Multiple')) > 0)
                st.assume(z3.Or(N.d(e) == 0, N.d(e) == 1))
            if ty == 'WrongTypeInAnnotationError':
                f = [n for n, _ in P.struct_fields(ty)]
                k = N.p(e, f.index('annotation_kind'))
                kv = N.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
                st.assume(z3.And(0 <= N.d(k), N.d(k) < len(kv), N.d(k) != kv.index('Dimension')))
            for o in outcomes(ck, eng, fn, x, [Opq(e, Ty('path', ty))], st):
                ck.prove(fn, 'reports an error' + (' for a non-empty list' if ty in LISTED else ''), o.st.pc, o.st.ghost[ERR] == z3.Or(E0, want), eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)


def variant_fields(P, ty, var):
    """named fields of an enum variant, from the source"""
    for f in (clean_src(P.src_of(f)) for f in P.files()):
        m = re.search(rf'enum\s+{ty}\b[^{{]*\{{(.*?)\n\}}', f, re.S)
        if m:
            v = re.search(rf'\b{var}\s*\{{(.*?)\}}', m.group(1), re.S)
            if v:
                return re.findall(r'(\w+)\s*:\s*([^,]+)', v.group(1))
    raise Unsupported(f'{ty}::{var} not found')


# ------------------------------------------------------------------ C13: the rules
KIND = uf('spec.kind', U, INT)
DEFN, DIDX = uf('spec.defined', U, U, BOOL), uf('spec.defined_at', U, U, INT)
KINDTY = Ty('path', 'Kind')


def allowed(N, l, r):
    """which kinds of names a definition of kind l may mention (the rule of the property)"""
    kv = N.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
    k = lambda n: kv.index(n)
    val = z3.Or(r == k('Unit'), r == k('BaseUnit'), r == k('Constant'))
    return z3.If(z3.Or(l == k('Dimension'), l == k('BaseUnit')), r == k('Dimension'), val)


def defined_axioms():
    """k is the name of an element of u"""
    u, k = z3.Const('u', U), z3.Const('k', U)
    i = z3.Int('i')
    return [z3.ForAll([u, k], z3.Implies(DEFN(u, k), z3.And(0 <= DIDX(u, k), DIDX(u, k) < LEN(u), NAME(AT(u, DIDX(u, k))) == k)), patterns=[DEFN(u, k)]),
            z3.ForAll([u, i], z3.Implies(z3.And(0 <= i, i < LEN(u)), DEFN(u, NAME(AT(u, i)))), patterns=[AT(u, i)])]


def kind_value(eng, st, t, N):
    """a value of type Kind with the given index"""
    kv = N.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
    v = uf('spec.kind_value', INT, U)(t)
    eng.fact(st, N.d(v) == t)
    eng.fact(st, z3.And(0 <= N.d(v), N.d(v) < len(kv)))
    return Opq(v, KINDTY)


def kind_contracts(N):
    def kind(eng, st, args):
        return kind_value(eng, st, KIND(eng.to_u(eng.deref_all(args[0], st), st)), N)

    def allow(eng, st, args):
        d = lambda a: eng.discr(eng.deref_all(a, st), st)
        return allowed(N, d(args[0]), d(args[1]))
    return [FnContract('Item::kind', key_re(r'Item::kind'), kind), FnContract('Kind::kind_is_allowed_in_definition', key_re(r'Kind::kind_is_allowed_in_definition'), allow)]


def c13_kinds(ck, P, cfg):
    fn = f'Kind::kind_is_allowed_in_definition [{cfg}]'

    def go():
        N = Names(P)
        eng = res_engine(P, cfg)
        st = State(eng)
        a, b = z3.Const('lhs', U), z3.Const('rhs', U)
        for x in (a, b):
            st.assume(z3.And(0 <= N.d(x), N.d(x) < 4))
        for o in outcomes(ck, eng, fn, method(P, 'Kind', 'kind_is_allowed_in_definition'), [Ref(st.cell(Opq(a, KINDTY))), Opq(b, KINDTY)], st):
            ck.prove(fn, 'dimensions from dimensions, base units from a dimension, units and constants from units and constants', o.st.pc, o.val == allowed(N, N.d(a), N.d(b)), eng.axioms(), vocab=us_vocab)
    ck.guard(fn, go)
    fn2 = f'Item::kind [{cfg}]'

    def go2():
        N = Names(P)
        eng = res_engine(P, cfg)
        st = State(eng)
        it = z3.Const('it', U)
        st.assume(N.wf_item(it))
        for o in outcomes(ck, eng, fn2, method(P, 'Item', 'kind'), [Ref(st.cell(Opq(it, ITEM)))], st):
            ck.prove(fn2, 'the kind of the definition', o.st.pc, eng.discr(eng.deref_all(o.val, o.st), o.st) == N.kind(it), eng.axioms(), vocab=us_vocab)
    ck.guard(fn2, go2)


class Storage:
    """run a method of IdentStorage on an arbitrary storage"""

    def __init__(self, ck, P, cfg, name, contracts=(), mut=True, loops=None):
        self.ck, self.P, self.cfg, self.name = ck, P, cfg, name
        self.fn = f'IdentStorage::{name} [{cfg}]'
        self.N = N = Names(P)
        self.eng = eng = res_engine(P, cfg, list(contracts) + item_contracts(N) + kind_contracts(N) + expr_contracts())
        if loops:
            eng.loop_spec = loops
        self.s0 = z3.Const('s', U)
        self.u, self.r = N.p(self.s0, N.unresolved), N.p(self.s0, N.resolved)
        self.st = st = ghost_state(eng)
        self.cell = st.cell(Opq(self.s0, STORAGE))
        self.mut = mut
        self.ax = defined_axioms()
        i = z3.Int('i')
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(self.u)), N.wf_item(AT(self.u, i))), patterns=[AT(self.u, i)]))

    def run(self):
        return outcomes(self.ck, self.eng, self.fn, method(self.P, 'IdentStorage', self.name), [Ref(self.cell, (), self.mut)], self.st)

    def after(self, st):
        t = self.eng.to_u(st.mem[self.cell], st)
        return self.N.p(t, self.N.unresolved), self.N.p(t, self.N.resolved)

    def prove(self, o, what, goal, extra=()):
        self.ck.prove(self.fn, what, o.st.pc + self.ax + list(extra), goal, self.eng.axioms(), vocab=us_vocab)

    def same(self, u2):
        """u2 has the elements of u in their places"""
        i = z3.Int('i')
        return z3.And(LEN(u2) == LEN(self.u), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(self.u)), AT(u2, i) == AT(self.u, i))))


def undefined_fault(N, u):
    i, v = z3.Int('i'), z3.Const('v', U)
    return z3.Exists([i, v], z3.And(0 <= i, i < LEN(u), LEAF(N.p(AT(u, i), N.expr), v), N.other(v), z3.Not(DEFN(u, N.ident(v)))))


def auto_name(N, it):
    """(is the definition generated from another one, its name)"""
    e = N.p(N.item_entry(it, 'Unit'), N.uauto)
    return z3.And(N.item_is(it, 'Unit'), N.d(e) == 1), N.p(e, 0, 'Some')


def orphan(N, u):
    """an autogenerated definition whose source is not there"""
    i = z3.Int('i')
    a, n = auto_name(N, AT(u, i))
    return z3.Exists([i], z3.And(0 <= i, i < LEN(u), a, z3.Not(DEFN(u, n))))


def duplicate_fault(u):
    i, j = z3.Ints('i j')
    return z3.Exists([i, j], z3.And(0 <= i, i < j, j < LEN(u), NAME(AT(u, i)) == NAME(AT(u, j))))


def kind_fault(N, u):
    i, j, v = z3.Int('i'), z3.Int('j'), z3.Const('v', U)
    return z3.Exists([i, j, v], z3.And(0 <= i, i < LEN(u), 0 <= j, j < LEN(u), LEAF(N.p(AT(u, i), N.expr), v), N.other(v), NAME(AT(u, j)) == N.ident(v),
                                       z3.Not(allowed(N, KIND(AT(u, i)), KIND(AT(u, j))))))


def unresolved_idents_contract(N):
    def spec(eng, st, args):
        u, r = store_arg(eng, st, N, args[0])
        t = uf('spec.names', U, U)(u)
        k = z3.Const('k', U)
        eng.fact(st, z3.ForAll([k], HAS(t, k) == DEFN(u, k), patterns=[HAS(t, k)]))
        return Opq(t, Ty('path', 'HashSet', (IDENT,)))
    return FnContract('IdentStorage::unresolved_idents', key_re(r'IdentStorage::unresolved_idents'), spec)


def c13_filters(ck, P, cfg):
    def idents():
        S = Storage(ck, P, cfg, 'unresolved_idents', mut=False)
        k = z3.Const('k', U)
        for o in S.run():
            S.prove(o, 'exactly the names of the definitions', HAS(S.eng.to_u(o.val, o.st), k) == DEFN(S.u, k))
    ck.guard(f'IdentStorage::unresolved_idents [{cfg}]', idents)

    def undefined():
        N = Names(P)
        S = Storage(ck, P, cfg, 'filter_undefined', [unresolved_idents_contract(N), emit_list_contract('UndefinedError')])
        for o in S.run():
            S.prove(o, 'an error exactly when a definition mentions a name that is not defined', o.st.ghost[ERR] == z3.Or(E0, undefined_fault(N, S.u)))
            u2, r2 = S.after(o.st)
            S.prove(o, 'nothing changes if there is no such name', z3.Or(undefined_fault(N, S.u), S.same(u2)))
            S.prove(o, 'resolved definitions are left alone', r2 == S.r)
    ck.guard(f'IdentStorage::filter_undefined [{cfg}]', undefined)

    def auto():
        N = Names(P)
        S = Storage(ck, P, cfg, 'filter_autogenerated_invalid', [unresolved_idents_contract(N)])
        for o in S.run():
            u2, r2 = S.after(o.st)
            S.prove(o, 'no error', o.st.ghost[ERR] == E0)
            S.prove(o, 'nothing changes unless the source of a generated definition is missing', z3.Or(orphan(N, S.u), S.same(u2)))
            S.prove(o, 'resolved definitions are left alone', r2 == S.r)
    ck.guard(f'IdentStorage::filter_autogenerated_invalid [{cfg}]', auto)


class Count:
    """ghost: the keys key(i), i < n, of the elements with cond(i): seen at least once, seen at least twice"""

    def __init__(self, name, key, cond):
        self.key, self.cond, self.name = key, cond, name
        self.seen, self.twice = uf(f'ghost.seen.{name}', INT, U, BOOL), uf(f'ghost.twice.{name}', INT, U, BOOL)
        self.pos = []

    def at(self, pos):
        """mention a position; the recursion equations are instantiated there"""
        self.pos.append(pos)
        return pos

    def unfold(self, n):
        k = z3.Const('k!c', U)
        hit = lambda k: z3.And(self.cond(n), self.key(n) == k)
        return [z3.ForAll([k], self.seen(n + 1, k) == z3.Or(self.seen(n, k), hit(k))), z3.ForAll([k], self.twice(n + 1, k) == z3.Or(self.twice(n, k), z3.And(self.seen(n, k), hit(k))))]

    def base(self):
        k = z3.Const('k!c', U)
        return [z3.ForAll([k], z3.Not(self.seen(0, k))), z3.ForAll([k], z3.Not(self.twice(0, k)))]

    def defs(self):
        out = self.base()
        for p in self.pos:
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ADD:
                n = [x for x in p.children() if not z3.is_int_value(x)][0]
                out += self.unfold(n)
        return out

    def once_(self, n, k):
        i = z3.Int('i!c')
        return z3.Exists([i], z3.And(0 <= i, i < n, self.cond(i), self.key(i) == k))

    def twice_(self, n, k):
        i, j = z3.Ints('i!c j!c')
        return z3.Exists([i, j], z3.And(0 <= i, i < j, j < n, self.cond(i), self.cond(j), self.key(i) == k, self.key(j) == k))

    def lemma(self, n):
        """by induction (count_lemma); the existentials are written with witness functions"""
        k = z3.Const('k!c', U)
        i, j = z3.Ints('i!c j!c')
        w1, w2, w3 = [uf(f'ghost.{w}.{self.name}', U, INT) for w in ('first', 'fst', 'snd')]
        pi = C.source_at(self.key(i), i)
        pj = C.source_at(self.key(j), j)
        pat = {'patterns': [z3.MultiPattern(pi[0], pj[0])]} if pi else {}
        pat1 = {'patterns': [pi[0]]} if pi else {}
        return [z3.ForAll([k], z3.Implies(self.seen(n, k), z3.And(0 <= w1(k), w1(k) < n, self.cond(w1(k)), self.key(w1(k)) == k)), patterns=[self.seen(n, k)]),
                z3.ForAll([k], z3.Implies(self.twice(n, k), z3.And(0 <= w2(k), w2(k) < w3(k), w3(k) < n, self.cond(w2(k)), self.cond(w3(k)), self.key(w2(k)) == k, self.key(w3(k)) == k)), patterns=[self.twice(n, k)]),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, self.cond(i)), self.seen(n, self.key(i))), **pat1),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, self.cond(i), self.cond(j), self.key(i) == self.key(j)), self.twice(n, self.key(i))), **pat)]

    def claim(self, n):
        k = z3.Const('k!c', U)
        return [z3.ForAll([k], self.seen(n, k) == self.once_(n, k), patterns=[self.seen(n, k)]), z3.ForAll([k], self.twice(n, k) == self.twice_(n, k), patterns=[self.twice(n, k)])]


def count_lemma(ck):
    fn = 'lemma: keys seen so far'
    K, CO = uf('ghost.key', INT, U), uf('ghost.cond', INT, BOOL)
    c = Count('lemma', K, CO)
    n, k = z3.Int('n0'), z3.Const('k0', U)
    voc = lambda x: us_vocab(x) or x.startswith('ghost.')
    ck.prove(fn, 'base', c.base(), z3.And(c.seen(0, k) == c.once_(0, k), c.twice(0, k) == c.twice_(0, k)), [], vocab=voc)
    ih = [n >= 0] + c.unfold(n) + c.claim(n)
    i = z3.Int('i!c')
    ck.prove(fn, 'step: seen once', ih, c.seen(n + 1, k) == c.once_(n + 1, k), [], vocab=voc)
    ck.prove(fn, 'step: seen twice', ih, c.twice(n + 1, k) == c.twice_(n + 1, k), [], vocab=voc)
    # a filter that keeps everything keeps the places (used for partition and filter)
    fn = 'lemma: a filter that keeps everything'
    f, g = uf('ghost.src', INT, INT), uf('ghost.dst', INT, INT)
    m, j, j2 = z3.Int('m0'), z3.Int('j0'), z3.Int('j')
    i, i2 = z3.Ints('i i2')
    inc = [z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m), f(i) < f(i2)), patterns=[z3.MultiPattern(f(i), f(i2))]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= f(i), f(i) < n)), patterns=[f(i)])]
    ck.prove(fn, 'base: an increasing function on indices does not fall behind', inc + [m > 0], f(0) >= 0, [], vocab=voc)
    ck.prove(fn, 'step: an increasing function on indices does not fall behind', inc + [0 <= j, j + 1 < m, f(j) >= j], f(j + 1) >= j + 1, [], vocab=voc)
    inv = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), g(f(i)) == i), patterns=[f(i)]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= g(i), g(i) < m, f(g(i)) == i)), patterns=[g(i)])]
    ck.prove(fn, 'the way back is increasing too', inc + inv + [0 <= j, j < k_(j2, n), j2 < n, m >= 0], g(j) < g(j2), [], vocab=voc)
    lag = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), f(i) >= i), patterns=[f(i)]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), g(i) >= i), patterns=[g(i)])]
    ck.prove(fn, 'every element stays in its place', inc + inv + lag + [m >= 0, n >= 0, 0 <= j, j < n], z3.And(f(j) == j, j < m), [], vocab=voc)
    ck.prove(fn, 'and the length is the same', inc + inv + lag + [m >= 0, n >= 0, z3.Implies(m > 0, z3.And(f(m - 1) >= m - 1, f(m - 1) < n)), z3.Implies(n > 0, z3.And(g(n - 1) >= n - 1, g(n - 1) < m))], m == n, [], vocab=voc)
    ck.covers += 2


def k_(j2, n):
    return z3.If(j2 < n, j2, n)


USIZE_MAX_LEN = z3.IntVal(2 ** 63)
COUNTV = uf('int', U, INT)


def is_counter(v, val):
    return isinstance(v, Opq) and isinstance(v.ty, Ty) and v.ty.kind == 'path' and v.ty.last in ('HashMap', 'BTreeMap') and len(v.ty.args) > 1 and val(v.ty.args[1])


def counter_cell(eng, fr, st, val):
    c = []
    for l, cell in fr['cells'].items():
        v = st.mem.get(cell)
        if is_counter(v, val) and l in fr['fn'].locals and any(l == d for ds in fr['fn'].debug.values() for d in ds):
            c.append(cell)
    if len(c) != 1:
        raise Unsupported('counting map not found')
    return c[0]


USIZE = lambda t: t.kind == 'path' and t.name == 'usize'
VECV = lambda t: t.kind == 'path' and t.last == 'Vec'


def count_inv(c, m, pos, size, bound=True):
    """map m holds for every key seen before pos a number that is at least two exactly when the key was seen twice"""
    k = z3.Const('k!i', U)
    n = c.at(pos)
    return z3.ForAll([k], z3.And(HAS(m, k) == c.seen(n, k), z3.Implies(c.twice(n, k), c.seen(n, k)), z3.Implies(HAS(m, k), z3.And(size(GET(m, k)) >= 1, (size(GET(m, k)) >= 2) == c.twice(n, k), size(GET(m, k)) <= n if bound else z3.BoolVal(True)))), patterns=[HAS(m, k), c.twice(n, k)])


def seq_arg(t, ty):
    return Opq(t, ty)


def slice_ref(st, t, ety):
    return Ref(st.cell(Opq(t, Ty('slice', '', (ety,)))))


def c13_multiply(ck, P, cfg):
    def go():
        N = Names(P)
        sink = []
        S = Storage(ck, P, cfg, 'filter_multiply_defined', [emit_list_contract('MultipleDefinitionsError')])
        S.st.assume(LEN(S.u) < USIZE_MAX_LEN)
        c = Count('name', lambda i: NAME(AT(S.u, i)), lambda i: z3.BoolVal(True))
        inv = lambda m, pos: count_inv(c, m, pos, COUNTV)
        S.eng.folds = [(lambda eng, st, it, init: is_counter(init, USIZE), lambda eng, st, it, acc, pos: inv(eng.to_u(acc, st), pos), sink)]
        loop = C.ForInv(lambda eng, fr, st, it, pos: inv(eng.to_u(st.mem[counter_cell(eng, fr, st, USIZE)], st), pos), modifies=lambda eng, fr, st: [counter_cell(eng, fr, st, USIZE)],
                        match=lambda eng, fr, st, it: len(it.fams) == 1 and it.fams[0].n is not None, sink=sink, name='counting loop')
        S.eng.loop_spec = lambda item: C.AutoLoop([loop])
        outs = S.run()
        sinks(ck, S.fn, [(w, pc + c.defs() + S.ax, g, ax) for w, pc, g, ax in sink], vocab=res_vocab)
        for o in outs:
            both(ck, S.fn, 'an error exactly when a name is defined twice', o, S.ax + c.lemma(LEN(S.u)), duplicate_fault(S.u), S.eng)
            u2, r2 = S.after(o.st)
            S.prove(o, 'the definitions are left alone', z3.And(S.same(u2), r2 == S.r))
    ck.guard(f'IdentStorage::filter_multiply_defined [{cfg}]', go)


def both(ck, fn, what, o, hyps, fault, eng):
    """the errors flag is raised exactly by the fault, in both directions"""
    ck.prove(fn, what + ': no error without it', o.st.pc + hyps + [o.st.ghost[ERR], z3.Not(E0)], fault, eng.axioms(), vocab=res_vocab)
    ck.prove(fn, what + ': an error if it is there', o.st.pc + hyps + [z3.Or(E0, fault)], o.st.ghost[ERR], eng.axioms(), vocab=res_vocab)


def res_vocab(n):
    return us_vocab(n) or n.startswith('ghost.')


UNITE, DIME = Ty('path', 'UnitEntry'), Ty('path', 'DimensionEntry')


def symbol_of(N, x):
    e = N.p(x, N.usym)
    return N.d(e) == 1, N.p(N.p(e, 0, 'Some'), 0)


def symbol_fault(N, un):
    i, j = z3.Ints('i j')
    (a, s), (b, t) = symbol_of(N, AT(un, i)), symbol_of(N, AT(un, j))
    return z3.Exists([i, j], z3.And(0 <= i, i < j, j < LEN(un), a, b, s == t))


def c13_symbols(ck, P, cfg):
    fn = f'check_multiply_defined_symbols [{cfg}]'

    def go():
        N = Names(P)
        sink = []
        eng = res_engine(P, cfg, [emit_one_contract('SymbolDefinedMultipleTimes')])
        st = ghost_state(eng)
        un = z3.Const('units', U)
        st.assume(LEN(un) < USIZE_MAX_LEN)
        c = Count('symbol', lambda i: symbol_of(N, AT(un, i))[1], lambda i: symbol_of(N, AT(un, i))[0])
        inv = lambda eng, fr, st, it, pos: count_inv(c, eng.to_u(st.mem[counter_cell(eng, fr, st, VECV)], st), pos, LEN, False)
        loop = C.ForInv(inv, modifies=lambda eng, fr, st: [counter_cell(eng, fr, st, VECV)], match=lambda eng, fr, st, it: len(it.fams) == 1 and it.fams[0].n is not None, sink=sink, name='loop over the units')
        eng.loop_spec = lambda item: C.AutoLoop([loop])
        outs = outcomes(ck, eng, fn, function(P, 'check_multiply_defined_symbols'), [slice_ref(st, un, UNITE)], st)
        sinks(ck, fn, [(w, pc + c.defs(), g, ax) for w, pc, g, ax in sink], vocab=res_vocab)
        for o in outs:
            both(ck, fn, 'an error exactly when two units share a symbol', o, c.lemma(LEN(un)), symbol_fault(N, un), eng)
    ck.guard(fn, go)


def distinct_names(u):
    i, j = z3.Ints('i j')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LEN(u)), NAME(AT(u, i)) != NAME(AT(u, j))), patterns=[z3.MultiPattern(AT(u, i), AT(u, j))])


def c13_check_kinds(ck, P, cfg):
    def go():
        N = Names(P)
        S = Storage(ck, P, cfg, 'check_kinds_in_definitions', [emit_one_contract('KindNotAllowedError')], mut=False)
        S.eng.loop_spec = lambda item: C.AutoLoop([])
        S.st.assume(distinct_names(S.u))
        for o in S.run():
            S.prove(o, 'an error exactly when a definition mentions a name of a kind it may not mention', o.st.ghost[ERR] == z3.Or(E0, kind_fault(N, S.u)))
    ck.guard(f'IdentStorage::check_kinds_in_definitions [{cfg}]', go)


def base_of(N, x):
    """unit entry: (is it declared as the base unit of a dimension, that dimension)"""
    dv = N.variants('Definition', 'Base', 'Expression')
    d = N.p(x, N.udef)
    return N.d(d) == dv.index('Base'), N.p(d, 0, 'Base')


def declared_base(N, x):
    """written (not generated) declaration of a base unit"""
    return z3.And(base_of(N, x)[0], N.d(N.p(x, N.uauto)) == 0)


def base_dim(N, x):
    dv = N.variants('Definition', 'Base', 'Expression')
    return N.d(N.p(x, N.drhs)) == dv.index('Base')


def is_base_dim(N, ds, k, listed=False):
    j = z3.Int('j!b')
    return z3.Exists([j], z3.And(0 <= j, j < LEN(ds), z3.BoolVal(True) if listed else base_dim(N, AT(ds, j)), N.p(AT(ds, j), N.dname) == k))


def base_unit_fault(N, un, ds, listed=False):
    i, j = z3.Ints('i j')
    a, b = AT(un, i), AT(un, j)
    return z3.Or(z3.Exists([i], z3.And(0 <= i, i < LEN(un), declared_base(N, a), z3.Not(is_base_dim(N, ds, base_of(N, a)[1], listed)))),
                 z3.Exists([i, j], z3.And(0 <= i, i < j, j < LEN(un), declared_base(N, a), declared_base(N, b), base_of(N, a)[1] == base_of(N, b)[1])))


def wf_units(N, un):
    i = z3.Int('i')
    dv = N.variants('Definition', 'Base', 'Expression')
    x = AT(un, i)
    ds = [N.d(N.p(x, N.udef)), N.d(N.p(x, N.uauto)), N.d(N.p(x, N.usym))]
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(un)), z3.And([z3.And(0 <= d, d <= 1) for d in ds])), patterns=[AT(un, i)])


def c13_base_units(ck, P, cfg):
    fn = f'check_invalid_base_units [{cfg}]'

    def go():
        N = Names(P)
        sink = []
        eng = res_engine(P, cfg, [emit_one_contract('MultipleBaseUnitsForDimensionError'), emit_one_contract('BaseUnitForNonBaseDimensionError')])
        st = ghost_state(eng)
        un, bd = z3.Const('units', U), z3.Const('base', U)
        st.assume(LEN(un) < USIZE_MAX_LEN)
        st.assume(wf_units(N, un))
        c = Count('base', lambda i: base_of(N, AT(un, i))[1], lambda i: declared_base(N, AT(un, i)))
        BASE = uf('ghost.isbase', U, BOOL)
        k = z3.Const('k!i', U)
        isbase = z3.ForAll([k], BASE(k) == is_base_dim(N, bd, k, True), patterns=[BASE(k)])
        st.assume(isbase)
        bad = lambda n: z3.Exists([k], z3.If(BASE(k), c.twice(n, k), c.seen(n, k)))

        def inv(eng, fr, st, it, pos):
            m = eng.to_u(st.mem[counter_cell(eng, fr, st, USIZE)], st)
            n = c.at(pos)
            return z3.And(z3.ForAll([k], z3.And(HAS(m, k) == BASE(k), z3.Implies(c.twice(n, k), c.seen(n, k)), z3.Implies(HAS(m, k), z3.And(
                0 <= COUNTV(GET(m, k)), COUNTV(GET(m, k)) <= n, (COUNTV(GET(m, k)) >= 1) == c.seen(n, k), (COUNTV(GET(m, k)) >= 2) == c.twice(n, k)))), patterns=[HAS(m, k)]),
                st.ghost[ERR] == z3.Or(E0, bad(n)))
        loop = C.ForInv(inv, modifies=lambda eng, fr, st: [counter_cell(eng, fr, st, USIZE)], match=lambda eng, fr, st, it: len(it.fams) == 1 and it.fams[0].n is not None, sink=sink, name='loop over the units', ghosts=(ERR,))
        eng.loop_spec = lambda item: C.AutoLoop([loop])
        outs = outcomes(ck, eng, fn, function(P, 'check_invalid_base_units'), [slice_ref(st, un, UNITE), slice_ref(st, bd, Ty('ref', '', (DIME,)))], st)
        sinks(ck, fn, [(w, pc + c.defs() + int_axioms(cfg), g, ax) for w, pc, g, ax in sink], vocab=res_vocab)
        for o in outs:
            both(ck, fn, 'an error exactly when a base unit is declared for something else than a base dimension, or twice', o, c.lemma(LEN(un)), base_unit_fault(N, un, bd, True), eng)
    ck.guard(fn, go)
    fn2 = f'get_base_dimensions [{cfg}]'

    def go2():
        N = Names(P)

        def check(eng, st, args):
            un, bd = [eng.to_u(eng.deref_all(a, st), st) for a in args]
            emits(st, base_unit_fault(N, un, bd, True))
            return unit_val()
        eng = res_engine(P, cfg, [FnContract('check_invalid_base_units', key_re('check_invalid_base_units'), check), snake_contract()])
        st = ghost_state(eng)
        un, ds = z3.Const('units', U), z3.Const('dims', U)
        for o in outcomes(ck, eng, fn2, function(P, 'get_base_dimensions'), [slice_ref(st, ds, DIME), slice_ref(st, un, UNITE)], st):
            ck.prove(fn2, 'an error exactly when a base unit is declared for something else than a base dimension, or twice', o.st.pc, o.st.ghost[ERR] == z3.Or(E0, base_unit_fault(N, un, ds)), eng.axioms(), vocab=res_vocab)
            t = eng.to_u(o.val, o.st)
            i, j = z3.Ints('i j')
            ck.prove(fn2, 'every base dimension is listed', o.st.pc + [0 <= i, i < LEN(ds), base_dim(N, AT(ds, i))], z3.Exists([j], z3.And(0 <= j, j < LEN(t), AT(t, j) == SNAKE(N.p(AT(ds, i), N.dname)))), eng.axioms(), vocab=res_vocab)
            ck.prove(fn2, 'nothing else is listed', o.st.pc + [0 <= j, j < LEN(t)], z3.Exists([i], z3.And(0 <= i, i < LEN(ds), base_dim(N, AT(ds, i)), AT(t, j) == SNAKE(N.p(AT(ds, i), N.dname)))), eng.axioms(), vocab=res_vocab)
    ck.guard(fn2, go2)
    fn3 = f'check_for_base_units_without_symbol [{cfg}]'

    def go3():
        eng = res_engine(P, cfg, [emit_one_contract('NoSymbolForBaseUnitError')])
        eng.loop_spec = lambda item: C.AutoLoop([])
        st = ghost_state(eng)
        un = z3.Const('units', U)
        for o in outcomes(ck, eng, fn3, function(P, 'check_for_base_units_without_symbol'), [slice_ref(st, un, Ty('path', 'Unit'))], st):
            ck.prove(fn3, 'an error exactly when a base unit has no symbol', o.st.pc + unit_wf(P, un), o.st.ghost[ERR] == z3.Or(E0, no_symbol_fault(P, un)), eng.axioms(), vocab=res_vocab)
    ck.guard(fn3, go3)


SNAKE = uf('spec.base_dimension', U, U)


def snake_contract():
    return term_contract('BaseDimension::from_dimension', r'BaseDimension::from_dimension', SNAKE, Ty('path', 'BaseDimension'))


def unit_fields(P):
    f = [n for n, _ in P.struct_fields('Unit')]
    return f.index('is_base_unit'), f.index('symbol')


def unit_wf(P, un):
    b, s = unit_fields(P)
    i = z3.Int('i')
    d = Names.d(Names.p(AT(un, i), s))
    return [z3.ForAll([i], z3.And(0 <= d, d <= 1), patterns=[AT(un, i)])]


def no_symbol_fault(P, un):
    b, s = unit_fields(P)
    i = z3.Int('i')
    x = AT(un, i)
    return z3.Exists([i], z3.And(0 <= i, i < LEN(un), uf('bool', U, BOOL)(Names.p(x, b)), Names.d(Names.p(x, s)) == 0))


def c13_single(ck, P, cfg):
    fn = f'get_single_ident [{cfg}]'

    def go():
        eng = res_engine(P, cfg)
        eng.inline_all = True
        st = ghost_state(eng)
        l = z3.Const('types', U)
        st.assume(LEN(l) < USIZE_MAX_LEN)
        nm = lambda n: Ref(st.cell(Opq(z3.Const(n, U), Ty('path', 'str'))))
        for o in outcomes(ck, eng, fn, function(P, 'get_single_ident'), [Opq(l, Ty('path', 'Vec', (IDENT,))), nm('type_name'), nm('default_name')], st):
            t = eng.deref_all(o.val, o.st)
            res = eng.field(t, None, 1, parse_ty('Result<(), TypeDefinitionsError>'), o.st)
            d = eng.discr(eng.deref_all(res, o.st), o.st)
            ck.prove(fn, 'an error exactly when there is not one definition', o.st.pc, (d == 1) == (LEN(l) != 1), eng.axioms(), vocab=res_vocab)
            v = eng.to_u(eng.deref_all(eng.field(t, None, 0, IDENT, o.st), o.st), o.st)
            ck.prove(fn, 'the definition if there is one', o.st.pc + [LEN(l) == 1], v == AT(l, 0), eng.axioms(), vocab=res_vocab)
            if eng.feasible(o.st, d == 1):
                s2 = o.st.copy()
                s2.assume(d == 1)
                e = eng.field(eng.deref_all(res, s2), 'Err', 0, Ty('path', 'TypeDefinitionsError'), s2)
                e = eng.deref_all(e, s2)
                vs = Names(P).variants('TypeDefinitionsError', 'Multiple', 'None')
                fl = [n for n, _ in variant_fields(P, 'TypeDefinitionsError', 'Multiple')]
                dd = eng.discr(e, s2)
                lst = LEN(Names.p(eng.to_u(e, s2), fl.index('idents'), 'Multiple')) > 0
                ck.prove(fn, 'the error lists the definitions, or says that there is none', s2.pc, z3.Or(dd == vs.index('None'), lst), eng.axioms(), vocab=res_vocab)
    ck.guard(fn, go)
    fn2 = f'emit_errors [{cfg}]'

    def go2():
        def emit(eng, st, args):
            emits(st, z3.BoolVal(True))
            return unit_val()
        eng = res_engine(P, cfg, [FnContract('<E as Emit>::emit', key_re(r'<\w+ as (?:\w+::)*Emit>::emit'), emit)])
        st = ghost_state(eng)
        a, r = z3.Const('input', U), z3.Const('result', U)
        res = Opq(r, parse_ty('Result<(), E>'))
        for o in outcomes(ck, eng, fn2, function(P, 'emit_errors'), [Agg(Ty('tuple', '', (Ty('path', 'T'), res.ty)), None, [Opq(a, Ty('path', 'T')), res])], st):
            ck.prove(fn2, 'an error is reported exactly when the result is one; the value is passed on', o.st.pc, z3.And(o.st.ghost[ERR] == z3.Or(E0, Names.d(r) == 1), eng.to_u(eng.deref_all(o.val, o.st), o.st) == a), eng.axioms(), vocab=res_vocab)
    ck.guard(fn2, go2)


# ------------------------------------------------------------------ C14: annotations
def ann(N, it):
    """(does the definition carry an annotation, the annotated name)"""
    u, c = N.p(N.item_entry(it, 'Unit'), N.uann), N.p(N.item_entry(it, 'Constant'), N.cann)
    has = z3.Or(z3.And(N.item_is(it, 'Unit'), N.d(u) == 1), z3.And(N.item_is(it, 'Constant'), N.d(c) == 1))
    return has, z3.If(N.item_is(it, 'Unit'), N.p(u, 0, 'Some'), N.p(c, 0, 'Some'))


HASANN, ANN = uf('spec.annotated', U, BOOL), uf('spec.annotation', U, U)


def annotation_contract():
    def spec(eng, st, args):
        it = eng.to_u(eng.deref_all(args[0], st), st)
        outs = []
        if eng.feasible(st, z3.Not(HASANN(it))):
            s2 = st.copy()
            s2.assume(z3.Not(HASANN(it)))
            outs.append(Outcome('ret', s2, C.opt_none()))
        if eng.feasible(st, HASANN(it)):
            st.assume(HASANN(it))
            outs.append(Outcome('ret', st, C.opt_some(Ref(st.cell(Opq(ANN(it), IDENT))))))
        return outs
    return FnContract('Item::annotation', key_re(r'Item::annotation'), spec)


def same_dims(P, cfg, a, b):
    d = z3.Const('d!a', U)
    return z3.ForAll([d], E_(cfg, fields_of(P, a), d) == E_(cfg, fields_of(P, b), d))


def annotation_fault(P, cfg, N, r):
    k = z3.Const('k!a', U)
    S = Store(N)
    dm, mg = dam_fields(P)
    it = S.item(r, k)
    a = ANN(it)
    dims = lambda k: N.p(S.dims(r, k), dm)
    kv = N.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
    return z3.Exists([k], z3.And(HAS(r, k), HASANN(it), z3.Or(z3.Not(HAS(r, a)), KIND(S.item(r, a)) != kv.index('Dimension'), z3.Not(same_dims(P, cfg, dims(a), dims(k))))))


def c14(ck):
    for cfg in CFGS:
        P = us_prog(cfg)
        fn = f'Item::annotation [{cfg}]'

        def go():
            N = Names(P)
            eng = res_engine(P, cfg)
            st = State(eng)
            it = z3.Const('it', U)
            st.assume(N.wf_item(it))
            for x in (N.p(N.item_entry(it, 'Unit'), N.uann), N.p(N.item_entry(it, 'Constant'), N.cann)):
                st.assume(z3.And(0 <= N.d(x), N.d(x) <= 1))
            has, name = ann(N, it)
            for o in outcomes(ck, eng, fn, method(P, 'Item', 'annotation'), [Ref(st.cell(Opq(it, ITEM)))], st):
                v = eng.deref_all(o.val, o.st)
                d = eng.discr(v, o.st)
                ck.prove(fn, 'there is one exactly when it is written', o.st.pc, (d == 1) == has, eng.axioms(), vocab=us_vocab)
                s2 = o.st.copy()
                s2.assume(d == 1)
                if not (isinstance(v, Agg) and v.var == 'None'):
                    x = eng.to_u(eng.deref_all(eng.field(v, 'Some', 0, Ty('ref', '', (IDENT,)), s2), s2), s2)
                    ck.prove(fn, 'the name that is written', s2.pc, x == name, eng.axioms(), vocab=us_vocab)
        ck.guard(fn, go)
        c13_kinds(ck, P, cfg)

        def go2():
            N = Names(P)
            S = Storage(ck, P, cfg, 'check_type_annotations', [annotation_contract()] + [emit_one_contract(e) for e in ('WrongTypeInAnnotationError', 'ViolatedAnnotationError', 'UndefinedAnnotationDimensionError')], mut=False)
            S.eng.loop_spec = lambda item: C.AutoLoop([])
            for o in S.run():
                both(ck, S.fn, 'an error exactly when an annotation names no dimension, or not the dimension of the right-hand side', o, S.ax, annotation_fault(P, cfg, N, S.r), S.eng)
        ck.guard(f'IdentStorage::check_type_annotations [{cfg}]', go2)
        c13_emit(ck, P, cfg)


# ------------------------------------------------------------------ the storage as a whole
INTO = uf('spec.item_of', U, U)
ADDED, RESOLUTION = uf('spec.added', U, U, U), uf('spec.resolution', U, U)
RIGHT, FROM = uf('spec.right_kind', INT, BOOL), uf('spec.from_item', U, U, U)


def added_facts(u, xs):
    t = ADDED(u, xs)
    i = z3.Int('i')
    return [LEN(t) == LEN(u) + LEN(xs), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(u)), AT(t, i) == AT(u, i)), patterns=[AT(t, i)]),
            z3.ForAll([i], z3.Implies(z3.And(LEN(u) <= i, i < LEN(u) + LEN(xs)), AT(t, i) == INTO(AT(xs, i - LEN(u)))), patterns=[AT(t, i)])]


def c13_storage(ck, P, cfg):
    """add and get_items, for every type of definition"""
    def add():
        N = Names(P)
        into = term_contract('<I as Into<Item>>::into', r'<I as (?:\w+::)*Into<.*>>::into', INTO, ITEM)
        S = Storage(ck, P, cfg, 'add', [into])
        xs = z3.Const('xs', U)
        i = z3.Int('i0')
        for o in outcomes(ck, S.eng, S.fn, method(P, 'IdentStorage', 'add'), [Ref(S.cell, (), True), Opq(xs, Ty('path', 'Vec', (Ty('path', 'I'),)))], S.st):
            u2, r2 = S.after(o.st)
            S.prove(o, 'one more item for every definition', LEN(u2) == LEN(S.u) + LEN(xs), [LEN(xs) >= 0, LEN(S.u) >= 0])
            S.prove(o, 'the items that were there stay', AT(u2, i) == AT(S.u, i), [0 <= i, i < LEN(S.u)])
            S.prove(o, 'then the new ones in order', AT(u2, LEN(S.u) + i) == INTO(AT(xs, i)), [0 <= i, i < LEN(xs)])
            S.prove(o, 'resolved definitions are left alone', r2 == S.r)
            S.prove(o, 'no error', o.st.ghost[ERR] == E0)
    ck.guard(f'IdentStorage::add [{cfg}]', add)

    def items():
        N = Names(P)

        def right(eng, st, args):
            return RIGHT(eng.discr(eng.deref_all(args[0], st), st))

        def frm(eng, st, args):
            return Opq(FROM(*[eng.to_u(eng.deref_all(a, st), st) for a in args]), Ty('path', 'I'))
        S = Storage(ck, P, cfg, 'get_items', [FnContract('<I as FromItem>::is_correct_kind', key_re(r'<I as (?:\w+::)*FromItem>::is_correct_kind'), right),
                                             FnContract('<I as FromItem>::from_item_and_dimensions', key_re(r'<I as (?:\w+::)*FromItem>::from_item_and_dimensions'), frm)], mut=False)
        T = Store(N)
        k, k2 = z3.Const('k', U), z3.Const('k2', U)
        i, j = z3.Ints('i j')
        val = lambda k: FROM(T.item(S.r, k), T.dims(S.r, k))
        sel = lambda k: z3.And(HAS(S.r, k), RIGHT(KIND(T.item(S.r, k))))
        FN = uf('spec.name_of_result', U, U)
        x, y = z3.Const('x', U), z3.Const('y', U)
        named = [z3.ForAll([x, y], FN(FROM(x, y)) == NAME(x), patterns=[FROM(x, y)]), z3.ForAll([k], z3.Implies(HAS(S.r, k), NAME(T.item(S.r, k)) == k), patterns=[HAS(S.r, k)])]
        for o in S.run():
            t = S.eng.to_u(o.val, o.st)
            S.prove(o, 'every stored definition of the kind is listed', z3.Exists([j], z3.And(0 <= j, j < LEN(t), AT(t, j) == val(k))), [sel(k)])
            S.prove(o, 'nothing else is listed', z3.Exists([k], z3.And(sel(k), AT(t, j) == val(k))), [0 <= j, j < LEN(t)])
            S.prove(o, 'nothing is listed twice', FN(AT(t, i)) != FN(AT(t, j)), named + [0 <= i, i < j, j < LEN(t)])
    ck.guard(f'IdentStorage::get_items [{cfg}]', items)


SINGLE, BASEDIMS = uf('spec.single', U, U), uf('spec.base_dims', U, U)


def composite_contracts(P, cfg, N):
    """contracts of everything UnresolvedDefs::resolve calls, as proved above and in C12/C14"""
    T = Store(N)

    def state(eng, st, a):
        """(cell, path, unresolved, resolved) of a &mut IdentStorage argument"""
        c, p, v = C.place_of(eng, st, a)
        t = eng.to_u(v, st)
        return c, p, N.p(t, N.unresolved), N.p(t, N.resolved)

    def put(eng, st, c, p, u, r):
        fs = [None, None]
        fs[N.unresolved], fs[N.resolved] = Opq(u, Ty('path', 'Vec', (ITEM,))), Opq(r, Ty('path', 'BTreeMap', (IDENT, Ty('path', 'ResolvedItem'))))
        eng.store(st, c, p, Agg(STORAGE, None, fs))

    def single(eng, st, args):
        l = eng.to_u(eng.deref_all(args[0], st), st)
        rt = parse_ty('Result<(), TypeDefinitionsError>')
        r = C.new_term(eng, st, 'result')
        eng.fact(st, (N.d(r) == 1) == (LEN(l) != 1))
        eng.fact(st, z3.And(0 <= N.d(r), N.d(r) <= 1))
        eng.fact(st, z3.Implies(LEN(l) == 1, SINGLE(l) == AT(l, 0)))
        return Agg(Ty('tuple', '', (IDENT, rt)), None, [Opq(SINGLE(l), IDENT), Opq(r, rt)])

    def report(eng, st, args):
        t = eng.deref_all(args[0], st)
        r = eng.deref_all(eng.field(t, None, 1, parse_ty('Result<(), TypeDefinitionsError>'), st), st)
        emits(st, eng.discr(r, st) == 1)
        return eng.field(t, None, 0, IDENT, st)

    def default(eng, st, args):
        fs = [None, None]
        fs[N.unresolved], fs[N.resolved] = Opq(EMPTY, Ty('path', 'Vec', (ITEM,))), Opq(MEMPTY, Ty('path', 'BTreeMap', (IDENT, Ty('path', 'ResolvedItem'))))
        return Agg(STORAGE, None, fs)

    def bases(eng, st, args):
        ds, un = [eng.to_u(eng.deref_all(a, st), st) for a in args]
        emits(st, base_unit_fault(N, un, ds))
        return Opq(BASEDIMS(ds), Ty('path', 'Vec', (Ty('path', 'BaseDimension'),)))

    def symbols(eng, st, args):
        emits(st, symbol_fault(N, eng.to_u(eng.deref_all(args[0], st), st)))
        return unit_val()

    def add(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        xs = eng.to_u(eng.deref_all(args[1], st), st)
        for f in added_facts(u, xs):
            eng.fact(st, f)
        st.ghost['added'] = st.ghost.get('added', ()) + (xs,)
        put(eng, st, c, p, ADDED(u, xs), r)
        return unit_val()

    def filter_(fault, error):
        def spec(eng, st, args):
            c, p, u, r = state(eng, st, args[0])
            f = fault(u)
            if error:
                emits(st, f)
            u2 = C.new_term(eng, st, 'filtered')
            eng.fact(st, z3.Or(f, u2 == u))     # a vector is determined by its elements
            put(eng, st, c, p, u2, r)
            return unit_val()
        return spec

    def multiply(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        emits(st, duplicate_fault(u))
        return unit_val()

    def kinds(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        x = z3.Bool(eng.fresh_name('kinds'))
        eng.fact(st, z3.Implies(distinct_names(u), x == kind_fault(N, u)))
        emits(st, x)
        return unit_val()

    def resolve(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        x = z3.Bool(eng.fresh_name('unresolved'))
        pre = z3.And(distinct_names(u), r == MEMPTY)
        r2 = RESOLUTION(u)
        eng.fact(st, z3.Implies(pre, z3.And(T.final(u, r2))))
        eng.fact(st, z3.Implies(pre, x == unresolved_fault(N, u, r2)))
        emits(st, x)
        u2 = C.new_term(eng, st, 'left')
        r3 = C.new_term(eng, st, 'resolved')
        eng.fact(st, z3.Implies(pre, r3 == r2))
        put(eng, st, c, p, u2, r3)
        return unit_val()

    def annotations(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        emits(st, annotation_fault(P, cfg, N, r))
        return unit_val()

    def items(eng, st, args):
        c, p, u, r = state(eng, st, args[0])
        g = callee_arg(eng)
        f = uf('spec.items.' + g, U, U)(r)
        return Opq(f, Ty('path', 'Vec', (Ty('path', g),)))

    class Items(FnContract):
        def apply(self, eng, callee, key, args, dty, st):
            m = re.search(r'get_items::<([\w:]+)>', key) or re.search(r'Vec<([\w:]+)>', str(dty))
            if not m:
                raise Unsupported('kind of the items')
            c, p, u, r = state(eng, st, args[0])
            g = m.group(1).split('::')[-1]
            return eng._outs(Opq(uf('spec.items.' + g, U, U)(r), Ty('path', 'Vec', (Ty('path', g),))), st)

    def nosymbol(eng, st, args):
        emits(st, no_symbol_fault(P, eng.to_u(eng.deref_all(args[0], st), st)))
        return unit_val()
    M_ = lambda n: r'IdentStorage::' + n
    return [FnContract(n, key_re(k), f) for n, k, f in (
        ('get_single_ident', r'get_single_ident', single), ('emit_errors', r'emit_errors(?:<.*>)?', report), ('IdentStorage::default', r'<IdentStorage as Default>::default', default),
        ('get_base_dimensions', r'get_base_dimensions', bases), ('check_multiply_defined_symbols', r'check_multiply_defined_symbols', symbols),
        ('IdentStorage::add', M_(r'add(?:<.*>)?'), add), ('IdentStorage::filter_undefined', M_('filter_undefined'), filter_(lambda u: undefined_fault(N, u), True)),
        ('IdentStorage::filter_autogenerated_invalid', M_('filter_autogenerated_invalid'), filter_(lambda u: orphan(N, u), False)),
        ('IdentStorage::filter_multiply_defined', M_('filter_multiply_defined'), multiply), ('IdentStorage::check_kinds_in_definitions', M_('check_kinds_in_definitions'), kinds),
        ('IdentStorage::resolve (C12)', M_('resolve'), resolve), ('IdentStorage::check_type_annotations (C14)', M_('check_type_annotations'), annotations),
        ('check_for_base_units_without_symbol', r'check_for_base_units_without_symbol', nosymbol))] + \
        [Items('IdentStorage::get_items', key_re(M_(r'get_items(?:<.*>)?')), None)]


def unresolved_fault(N, u, r):
    x = z3.Const('x!u', U)
    return z3.Exists([x], z3.And(IN(u, x), z3.Not(HAS(r, NAME(x)))))


def c13_composite(ck, P, cfg):
    fn = f'UnresolvedDefs::resolve [{cfg}]'

    def go():
        N = Names(P)
        fs = [n for n, _ in P.struct_fields('Unresolved')]
        eng = res_engine(P, cfg, composite_contracts(P, cfg, N))
        st = ghost_state(eng)
        d0 = z3.Const('defs', U)
        f = lambda n: N.p(d0, fs.index(n))
        ds, un, cs = f('dimensions'), f('units'), f('constants')
        cand = [x for x in P.by_last.get('resolve', []) for i in [P.impl_of(x.name)] if '{closure' not in x.name and i and i.trait is None and i.ty.last in ('UnresolvedDefs', 'Unresolved')]
        if len(cand) != 1:
            raise Unsupported('anchor UnresolvedDefs::resolve not found')
        for o in outcomes(ck, eng, fn, cand[0], [Opq(d0, parse_ty('Unresolved<UnitEntry>'))], st):
            # everything that is defined, in whatever order it is added
            order = o.st.ghost.get('added', ())
            if not (len(order) == 3 and all(any(a.eq(x) for a in order) for x in (ds, un, cs))):
                order = (ds, un, cs)
            items = EMPTY
            for x in order:
                items = ADDED(items, x)
            r = RESOLUTION(items)
            faults = [('not exactly one quantity type', LEN(f('quantity_types')) != 1, 0), ('not exactly one dimension type', LEN(f('dimension_types')) != 1, 0),
                      ('two base units for a dimension, or a base unit for something else than a base dimension', base_unit_fault(N, un, ds), 0),
                      ('two units share a symbol', symbol_fault(N, un), 0), ('a name that is not defined', undefined_fault(N, items), 0),
                      ('a name defined twice', duplicate_fault(items), 0), ('a definition mentioning a name of the wrong kind', kind_fault(N, items), 1),
                      ('a definition that cannot be resolved (a cycle)', unresolved_fault(N, items, r), 1), ('an annotation that is not satisfied', annotation_fault(P, cfg, N, r), 1),
                      ('a base unit without symbol', no_symbol_fault(P, uf('spec.items.Unit', U, U)(r)), 1)]
            # names for the faults, to keep the obligations propositional where they can be
            named = [(w, z3.Bool(f'fault!{n}'), g, late) for n, (w, g, late) in enumerate(faults)]
            defs = [b == g for _, b, g, _ in named]
            undup = [z3.Implies(z3.Not(named[5][1]), distinct_names(items))]
            early = [z3.Not(b) for _, b, _, late in named[:6]]
            # units are generated together with what they are generated from (C15)
            hyp = o.st.pc + defs + undup + [z3.Not(orphan(N, items))]
            for w, b, g, late in named:
                ck.prove(fn, 'rejected: ' + w, hyp + [b] + (early if late else []), o.st.ghost[ERR], eng.axioms(), vocab=res_vocab)
            ck.prove(fn, 'errors reported before stay reported', hyp + [E0], o.st.ghost[ERR], eng.axioms(), vocab=res_vocab)
            ck.prove(fn, 'no error otherwise', hyp + [z3.Not(b) for _, b, _, _ in named] + [z3.Not(E0)], z3.Not(o.st.ghost[ERR]), eng.axioms(), vocab=res_vocab)
            df = [n for n, _ in P.struct_fields('Defs')]
            v = eng.to_u(o.val, o.st)
            want = {'dimensions': uf('spec.items.Dimension', U, U)(r), 'units': uf('spec.items.Unit', U, U)(r), 'constants': uf('spec.items.Constant', U, U)(r), 'base_dimensions': BASEDIMS(ds),
                    'quantity_type': SINGLE(f('quantity_types')), 'dimension_type': SINGLE(f('dimension_types'))}
            for n in df:
                if n not in want:
                    raise Unsupported(f'Defs has a field {n} the contract does not know')
                ck.prove(fn, f'result: {n}', hyp + [z3.Not(b) for _, b, _, _ in named], N.p(v, df.index(n)) == want[n], eng.axioms(), vocab=res_vocab)
    ck.guard(fn, go)
    fn2 = f'lemma: distinct names [{cfg}]'

    def go2():
        u = z3.Const('u', U)
        ck.prove(fn2, 'no two definitions share a name unless a name is defined twice', [z3.Not(duplicate_fault(u))], distinct_names(u), [], vocab=res_vocab)
        ck.covers += 1
    ck.guard(fn2, go2)


def c13(ck):
    count_lemma(ck)
    for cfg in CFGS:
        P = us_prog(cfg)
        c13_emit(ck, P, cfg)
        c13_kinds(ck, P, cfg)
        c13_filters(ck, P, cfg)
        c13_multiply(ck, P, cfg)
        c13_symbols(ck, P, cfg)
        c13_check_kinds(ck, P, cfg)
        c13_base_units(ck, P, cfg)
        c13_single(ck, P, cfg)
        c13_storage(ck, P, cfg)
        c13_composite(ck, P, cfg)
