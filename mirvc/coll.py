"""Library theory: Vec / slices as sequences, HashMap / BTreeMap / HashSet as finite maps, iterators as families of
elements.  Everything here is an assumed contract on std, listed in the evidence when used.

A sequence is a term s with seq.len(s) and seq.at(s, i); a map is a term m with map.has(m, k) and map.get(m, k).
An iterator is a list of families: elements val(b) for all binders b satisfying guard(b), in the order of the binder
when it is an index.  Closures given to iterator adaptors are executed on an arbitrary element; their result becomes a
quantified formula.  Iteration orders of HashMap / HashSet are left open."""
import re
import z3
from mir import *
from engine import *
import models as M

R = re.compile
INT = z3.IntSort()
BOOL = z3.BoolSort()
LEN = uf('seq.len', U, INT)
AT = uf('seq.at', U, INT, U)
PUSH = uf('seq.push', U, U, U)
REM = uf('seq.remove', U, INT, U)
EMPTY = z3.Const('seq.empty', U)
HAS = uf('map.has', U, U, BOOL)
GET = uf('map.get', U, U, U)
INS = uf('map.insert', U, U, U, U)
MDEL = uf('map.remove', U, U, U)
MEMPTY = z3.Const('map.empty', U)
UNIT = z3.Const('mk:()', U)


def theory():
    s, x, m, k, v, k2 = [z3.Const(n, U) for n in ('s', 'x', 'm', 'k', 'v', 'k2')]
    i, j = z3.Ints('i j')
    return [
        z3.ForAll([s], LEN(s) >= 0, patterns=[LEN(s)]),
        LEN(EMPTY) == 0,
        z3.ForAll([s, x], LEN(PUSH(s, x)) == LEN(s) + 1, patterns=[PUSH(s, x)]),
        z3.ForAll([s, x, i], AT(PUSH(s, x), i) == z3.If(i == LEN(s), x, AT(s, i)), patterns=[AT(PUSH(s, x), i)]),
        z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < LEN(s)), LEN(REM(s, i)) == LEN(s) - 1), patterns=[REM(s, i)]),
        z3.ForAll([s, i, j], AT(REM(s, i), j) == z3.If(j < i, AT(s, j), AT(s, j + 1)), patterns=[AT(REM(s, i), j)]),
        z3.ForAll([k], z3.Not(HAS(MEMPTY, k)), patterns=[HAS(MEMPTY, k)]),
        z3.ForAll([m, k, v, k2], HAS(INS(m, k, v), k2) == z3.Or(k2 == k, HAS(m, k2)), patterns=[HAS(INS(m, k, v), k2)]),
        z3.ForAll([m, k, v, k2], GET(INS(m, k, v), k2) == z3.If(k2 == k, v, GET(m, k2)), patterns=[GET(INS(m, k, v), k2)]),
        z3.ForAll([m, k, k2], HAS(MDEL(m, k), k2) == z3.And(k2 != k, HAS(m, k2)), patterns=[HAS(MDEL(m, k), k2)]),
        z3.ForAll([m, k, k2], GET(MDEL(m, k), k2) == GET(m, k2), patterns=[GET(MDEL(m, k), k2)]),
    ]


class Fam:
    """elements val(bs) for all binders bs (of the given sorts) with guard(bs); n: number of elements when the single
    binder is an index 0 <= b < n and nothing is filtered"""

    def __init__(self, sorts, guard, val, n=None, ordered=True, total=None):
        """total: number of elements of the indexed iterator that was filtered"""
        self.sorts, self.guard, self.val, self.n, self.ordered = sorts, guard, val, n, ordered
        self.total = n if total is None else total


class It(Lib):
    def __init__(self, fams, ety=None):
        self.fams, self.ety = fams, ety

    def __repr__(self):
        return f'It({len(self.fams)})'


class ItAt(Lib):
    """iterator inside a loop whose next element is the one named by bs"""
    def __init__(self, it, fam, bs):
        self.it, self.fam, self.bs = it, fam, bs


class ItUsed(Lib):
    def __init__(self, it):
        self.it = it


class ItEnd(Lib):
    def __init__(self, it=None):
        self.it = it


# ------------------------------------------------------------------ types
COLL = ('Vec', 'VecDeque', 'HashSet', 'BTreeSet', 'HashMap', 'BTreeMap')


def peel(t):
    while t is not None and t.kind in ('ref', 'refmut', 'ptr') or t is not None and t.kind == 'path' and t.last in ('Box', 'Cow') and t.args:
        t = t.args[0] if t.kind != 'path' else [a for a in t.args if a.kind != 'life'][0]
    return t


def elem_ty(t):
    t = peel(t)
    if t is None:
        return None
    if t.kind in ('slice', 'array'):
        return t.args[0] if t.args else None
    if t.kind == 'path' and t.last in ('Vec', 'VecDeque', 'HashSet', 'BTreeSet', 'Option') and t.args:
        return t.args[0]
    return None


def kv_ty(t):
    t = peel(t)
    if t is not None and t.kind == 'path' and t.last in ('HashMap', 'BTreeMap') and len(t.args) >= 2:
        return t.args[0], t.args[1]
    return None, None


def place_of(eng, st, v):
    """the place a (chain of) reference(s) denotes: (cell, path, value)"""
    if not isinstance(v, Ref):
        return None, None, v
    x = eng.load(st, v.cell, v.path)
    while isinstance(x, Ref):
        v = x
        x = eng.load(st, v.cell, v.path)
    return v.cell, v.path, x


def as_term(eng, st, v):
    """term and type of a collection value"""
    v = eng.deref_all(v, st)
    if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.kind == 'array':
        n = len(v.f)
        us = [eng.to_u(v.f[i], st) for i in range(n)]
        t = uf(f'array/{n}', *([U] * n), U)(*us) if n else EMPTY
        k = ('arr', t.get_id())
        if k not in eng.facts:
            eng.facts[k] = (t, [LEN(t) == n] + [AT(t, i) == us[i] for i in range(n)])
        return t, v.ty
    if isinstance(v, Opq):
        return v.t, v.ty
    if isinstance(v, Grow):
        return v.to_u(eng, st), v.ty
    if isinstance(v, Agg) and v.base is not None and not v.f:
        return v.base.t, v.ty
    raise Unsupported(f'collection {v!r}')


# ------------------------------------------------------------------ closures
def changed_cells(eng, st, st2):
    out = []
    for c, v in st.mem.items():
        w = st2.mem.get(c)
        if w is v:
            continue
        if isinstance(v, Grow) or isinstance(w, Grow):
            out.append(c)
            continue
        try:
            if w is not None and eng.to_u(v, st).eq(eng.to_u(w, st2)):
                continue
        except Unsupported:
            pass
        out.append(c)
    return out


def conds(eng, pc, n0):
    return [c for c in pc[n0:] if c.get_id() not in eng.factset]


class Effects(Unsupported):
    """a closure changed memory or ghost state"""

    def __init__(self, cells, ghosts):
        Unsupported.__init__(self, f'closure with effects ({cells or ghosts})')
        self.cells, self.ghosts = cells, ghosts


def is_map(ty):
    return isinstance(ty, Ty) and ty.kind == 'path' and ty.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')


def growable(v):
    return isinstance(v, Grow) or isinstance(v, Opq) and isinstance(v.ty, Ty) and v.ty.kind == 'path' and (v.ty.last == 'Vec' or is_map(v.ty) and v.t.eq(MEMPTY))


class Grow(Lib):
    """a vector that is only added to: whether it holds an element, and the families of elements added (parts) to what it
    held at first (base; None: what it holds at the start of the iteration).  parts None: not known"""

    def __init__(self, flag, ty, parts=None, base=None):
        self.flag, self.ty, self.parts, self.base = flag, ty, parts, base
        self.memo = None

    def __repr__(self):
        return f'Grow({self.flag}, {self.parts})'

    def more(self, fams):
        """with the elements of further families added"""
        return self.parts + fams if self.parts is not None else None

    def to_u(self, eng, st):
        if self.memo is None:
            exact = self.parts is not None and self.base is not None
            t = new_term(eng, st, 'grown' if exact and len(self.parts) == 1 and self.base.eq(EMPTY) else 'lossy!grown')
            tmp = st.copy()
            n0 = len(tmp.pc)
            if exact and is_map(self.ty):
                if not self.base.eq(MEMPTY):
                    raise Unsupported('map added to in a loop')
                t = collect(eng, tmp, [It(self.parts)], self.ty, None, '').t
            elif exact:
                fams = ([] if self.base.eq(EMPTY) else [seq_fam(self.base, strip_life(elem_ty(self.ty)), False)]) + self.parts
                seq_facts(eng, tmp, It(fams), t)
            defs = [c for c in tmp.pc[n0:] if c.get_id() not in eng.mustset]
            for c in defs:
                eng.factset[c.get_id()] = c
            if not is_map(self.ty):
                eng.facts.setdefault(('grow', t.get_id()), (t, [(LEN(t) > 0) == self.flag]))
            self.memo = t, defs
        t, defs = self.memo
        have = {c.get_id() for c in st.pc}
        for c in defs:
            if c.get_id() not in have:
                st.pc.append(c)
        return t


def flag_of(eng, st, key):
    if key[0] == 'ghost':
        return st.ghost[key[1]]
    v = st.mem[key[1]]
    if key[0] == 'bool':
        return v
    if key[0] == 'notbool':
        return z3.Not(v)
    if isinstance(v, Grow):
        return v.flag
    if isinstance(v, Opq) and isinstance(v.ty, Ty) and v.ty.kind == 'path' and v.ty.last == 'Vec':
        return z3.BoolVal(False) if v.t.eq(EMPTY) else LEN(v.t) > 0
    if growable(v):
        return z3.BoolVal(False)
    raise Unsupported(f'effect on {v!r}')


def set_flag(eng, st, key, e, parts=None, base=None):
    if key[0] == 'ghost':
        st.ghost[key[1]] = e
    elif key[0] == 'bool':
        st.mem[key[1]] = e
    elif key[0] == 'notbool':
        st.mem[key[1]] = z3.simplify(z3.Not(e))
    else:
        st.mem[key[1]] = Grow(e, st.mem[key[1]].ty, parts, base)


def term_fam(bs, guard, v, ety, n=None, ordered=True, total=None):
    """the family of the values v (a term over the constants bs)"""
    def S(b2):
        sub = [(a, b) for a, b in zip(bs, b2) if not a.eq(b)]
        return (lambda e: z3.substitute(e, *sub)) if sub else (lambda e: e)
    if isinstance(v, list):
        # an entry of a map
        val = lambda eng, st, b2: Agg(Ty('tuple', '', tuple(ety)), None, [eng.val_of_term(e, S(b2)(x), st) for e, x in zip(ety, v)])
    else:
        val = lambda eng, st, b2: eng.val_of_term(ety, S(b2)(v), st)
    return Fam([b.sort() for b in bs], lambda eng, st, b2: S(b2)(guard), val, n, ordered, total)


def part_ty(ty):
    k, v = kv_ty(ty)
    return strip_life(elem_ty(ty)) if k is None else [strip_life(k), strip_life(v)]


def pushed(eng, st, x, v):
    """x with the value v added"""
    if x.parts is None:
        return Grow(z3.BoolVal(True), x.ty)
    u = [eng.to_u(y, st) for y in v] if isinstance(v, list) else eng.to_u(v, st)
    return Grow(z3.BoolVal(True), x.ty, x.parts + [term_fam([], z3.BoolVal(True), u, part_ty(x.ty))], x.base)


def iteration_parts(eng, key, fam, bs, g, backs, n0):
    """families added by a loop to the vector key: [(condition of the path, parts)] for every path through the body"""
    leaves = []
    for sb in backs:
        x = sb.mem.get(key[1])
        if not isinstance(x, Grow) or x.parts is None or x.base is not None:
            return None
        leaves.append((z3.And(conds(eng, sb.pc, n0) or [z3.BoolVal(True)]), x, sb))
    if not leaves or all(not x.parts for _, x, _ in leaves):
        return []
    ety = part_ty(leaves[0][1].ty)
    pair = isinstance(ety, list)

    def terms(v, sb):
        return [eng.to_u(v.f[i], sb) for i in range(2)] if pair else [eng.to_u(v, sb)]
    back = lambda ts: ts if pair else ts[0]
    late = lambda bs, *es: bool(bs) and eng.late(z3.And([e == e for e in es]), bs, eng.witness)
    if all(len(x.parts) <= 1 and all(not p.sorts for p in x.parts) for _, x, _ in leaves):
        some = [(c, x.parts[0], sb) for c, x, sb in leaves if x.parts]
        every = len(some) == len(leaves)
        us = [(z3.And(c, p.guard(eng, sb, [])), terms(p.val(eng, sb, []), sb)) for c, p, sb in some]
        v = us[-1][1]
        for c, u in us[:-1][::-1]:
            v = [a if a.eq(b) else z3.If(c, a, b) for a, b in zip(u, v)]
        cs = z3.simplify(z3.Or([c for c, _ in us]))
        if late(list(bs), cs, *v):
            return None
        # (where every path adds an element, that one of them is taken is part of the conditions of the exit)
        return [term_fam(bs, g if every else z3.And(g, cs), back(v), ety, fam.n if every else None, fam.ordered, fam.total)]
    out = []
    for c, x, sb in leaves:
        for p in x.parts:
            ib = [eng.binder(q) for q in p.sorts]
            s2 = under(sb, ib)
            h = p.guard(eng, s2, ib)
            u = terms(p.val(eng, s2, ib), s2)
            allb = list(bs) + ib
            if late(allb, c, h, *u):
                return None
            out.append(term_fam(allb, z3.And(g, z3.simplify(c), h), back(u), ety))
    return out


def effect_keys(e):
    if any(k == 'scope' for k in e.ghosts):
        raise e
    return [('cell', c) for c in e.cells] + [('ghost', g) for g in e.ghosts]


def with_effects(eng, st, s, f, args):
    """results of f in state s, and the conditions under which it adds to a vector or sets a ghost flag"""
    keys, s3, fl = [], s, {}
    while True:
        try:
            if not keys:
                return apply(eng, s3, f, args), {}
            base = s3.copy()
            res = apply(eng, s3, f, args, effects=True)
            for c, v, s2 in res:
                ch = [x for x in changed_cells(eng, base, s2) if ('cell', x) not in keys]
                gh = [x for x in s2.ghost if ('ghost', x) not in keys and (x not in base.ghost or s2.ghost[x] is not base.ghost[x])]
                if ch or gh:
                    raise Effects(ch, gh)
            break
        except Effects as e:
            new = [k for k in effect_keys(e) if k not in keys]
            if not new:
                raise
            keys += new
            s3 = s.copy()
            for k in keys:
                flag_of(eng, s, k)
                fl[k] = z3.Bool(eng.fresh_name('flag'))
                set_flag(eng, s3, k, fl[k])
    em = {}
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    alls = [fl[k] for k in keys]
    for k in keys:
        ors = []
        for c, v, s2 in res:
            x = flag_of(eng, s2, k)
            if not z3.is_true(z3.simplify(z3.substitute(x, (fl[k], T)))):
                raise Unsupported('effect is not monotone')
            x = z3.substitute(x, (fl[k], F))
            if any(mentions_any(y, alls) for y in (c, x)):
                raise Unsupported('closure depends on its effects')
            ors.append(z3.And(c, x))
        em[k] = z3.simplify(z3.Or(ors))
    return res, em


def mentions_any(e, xs):
    ids = {x.get_id() for x in xs}
    seen, todo = set(), [e]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.get_id() in ids:
            return True
        todo += [y.body()] if z3.is_quantifier(y) else y.children()
    return False


def apply(eng, st, f, args, dty=None, effects=False):
    """[(condition, value, state)] of calling f on a copy of st; the panicking outcomes are left out (partial
    correctness: a panicking macro or lookup gives no result)"""
    base = st.copy()
    n0 = len(base.pc)
    k0 = eng.nfresh
    outs = eng.call_value(f, args, base, dty)
    res = []
    left = False
    for o in outs:
        if o.kind != 'ret':
            if o.kind == 'panic':
                eng.panics.add(o.msg)
            left = True
            continue
        if not effects:
            ch = changed_cells(eng, st, o.st)
            gh = [k for k in o.st.ghost if k != 'must' and (k not in st.ghost or o.st.ghost[k] is not st.ghost[k])]
            if ch or gh:
                raise Effects(ch, gh)
        cs = conds(eng, o.st.pc, n0)
        ms = [c for c in cs if c.get_id() in eng.mustset]
        if ms:
            cs = [c for c in cs if c.get_id() not in eng.mustset]
            o.st.ghost['must'] = o.st.ghost.get('must', ()) + tuple(ms)
        res.append((z3.And(cs) if cs else z3.BoolVal(True), o.val, o.st))
    if not res:
        raise Unsupported('closure has no normal outcome')
    if left:
        # whoever has the value of the call knows that it did not panic
        c = z3.simplify(z3.Or([c for c, _, _ in res]))
        if not z3.is_true(c):
            for _, _, s2 in res:
                s2.ghost['must'] = s2.ghost.get('must', ()) + (c,)
    return res


def assume_musts(eng, st, s2, bs, g):
    for c in musts(eng, s2, bs):
        f = forall(bs, z3.Implies(g, c))
        eng.mustset[f.get_id()] = f
        st.assume(f)


def musts(eng, st, bs):
    """conditions under which the values computed in st exist at all"""
    return [c for c in st.ghost.get('must', ()) if not (bs and eng.late(c, bs, eng.witness))]


def fresh_check(eng, e, bs):
    """no witness chosen inside may depend on the binders"""
    if not bs:
        return
    bad = eng.late(e, bs, eng.witness)
    if bad:
        raise Unsupported(f'value chosen under a quantifier ({bad[0]})')


def import_facts(eng, st, s2):
    have = {f.get_id() for f in st.pc}
    for f in s2.pc[len(st.pc):]:
        if f.get_id() in eng.factset and f.get_id() not in have:
            st.pc.append(f)


def truth(eng, st, res):
    """merged boolean result of apply()"""
    ors = []
    for c, v, s2 in res:
        import_facts(eng, st, s2)
        v = eng.deref_all(v, s2)
        if not z3.is_bool(v):
            raise Unsupported(f'predicate returning {v!r}')
        ors.append(z3.And(c, v))
    return z3.simplify(z3.Or(ors))


def merge(eng, st, res, dty=None):
    """merged value of apply(), importing new cells into st"""
    old = {c.get_id() for c in st.ghost.get('must', ())}
    ms = [m if len(res) == 1 else z3.Implies(c, m) for c, _, s2 in res for m in s2.ghost.get('must', ()) if m.get_id() not in old]
    if ms:
        st.ghost['must'] = st.ghost.get('must', ()) + tuple(ms)
    if len(res) == 1:
        c, v, s2 = res[0]
        for k, x in s2.mem.items():
            if k not in st.mem:
                st.mem[k] = x
        for f in s2.pc[len(st.pc):]:
            if f.get_id() in eng.factset:
                st.pc.append(f)
        return v
    vs = [(c, eng.deref_all(v, s2), s2) for c, v, s2 in res]
    if all(isinstance(v, Agg) and v.base is None and v.var == vs[0][1].var and v.f.keys() == vs[0][1].f.keys() for _, v, _ in vs):
        return Agg(vs[0][1].ty, vs[0][1].var, {k: merge(eng, st, [(c, v.f[k], s2) for c, v, s2 in vs]) for k in vs[0][1].f})
    if all(z3.is_expr(v) for _, v, _ in vs):
        r = vs[-1][1]
        for c, v, _ in vs[:-1][::-1]:
            r = z3.If(c, v, r)
        return r
    ty = None
    us = []
    for c, v, s2 in vs:
        if isinstance(v, (Opq, Agg)):
            ty = v.ty
        us.append(eng.to_u(v, s2))
    r = us[-1]
    for (c, _, _), u in list(zip(vs, us))[:-1][::-1]:
        r = z3.If(c, u, r)
    t = ty if isinstance(ty, Ty) else None
    if t is None:
        if dty is None:
            raise Unsupported('merged value of unknown type')
        t = dty
    return eng.val_of_term(t, r, st)


def pred(eng, st, f, v, byref=True, effects=None):
    a = Ref(st.cell(v)) if byref else v
    if effects is None:
        return truth(eng, st, apply(eng, st, f, [a]))
    res, em = with_effects(eng, st, st, f, [a])
    effects.update(em)
    return truth(eng, st, res)


def binders(eng, fam):
    return [eng.binder(s) for s in fam.sorts]


def witnesses(eng, fam, st):
    ks = [z3.Const(eng.fresh_name('k'), s) for s in fam.sorts]
    return ks


def forall(bs, body):
    body = z3.simplify(body)
    if not bs or z3.is_true(body) or z3.is_false(body):
        return body
    return z3.ForAll(bs, body)


def exists(bs, body):
    body = z3.simplify(body)
    if not bs or z3.is_true(body) or z3.is_false(body):
        return body
    return z3.Exists(bs, body)


def under(st, bs):
    s = st.copy()
    s.ghost['scope'] = s.ghost.get('scope', ()) + tuple(bs)
    return s


def fam_guard(eng, st, fam, bs):
    return fam.guard(eng, st, bs)


def elem(eng, st, fam, bs):
    """value of the element named by bs, in a state where its guard holds"""
    return fam.val(eng, st, bs)


# ------------------------------------------------------------------ constructing iterators
def seq_fam(t, ety, byref):
    n = LEN(t)

    def val(eng, st, bs):
        v = eng.val_of_term(ety, AT(t, bs[0]), st)
        return Ref(st.cell(v)) if byref and not isinstance(v, Ref) else v
    return Fam([INT], lambda eng, st, bs: z3.And(0 <= bs[0], bs[0] < n), val, n)


def seq_iter(eng, st, v, byref=True, ety=None):
    t, ty = as_term(eng, st, v)
    ety = ety or elem_ty(ty)
    x = eng.deref_all(v, st)
    if ety is None and isinstance(x, Agg) and x.f and isinstance(getattr(x.f[0], 'ty', None), Ty):
        ety = x.f[0].ty
    if ety is None:
        raise Unsupported('element type')
    return It([seq_fam(t, strip_life(ety), byref)], ety)


def map_fam(t, kty, vty, what, place=None):
    def val(eng, st, bs):
        k = eng.val_of_term(kty, bs[0], st)
        if what == 'keys':
            return Ref(st.cell(k))
        if what == 'keyval':
            return k
        if place is not None:
            v = Ref(place[0], place[1] + (('k', bs[0], vty),), True)
        else:
            v = eng.val_of_term(vty, GET(t, bs[0]), st)
            if z3.is_int(v) and eng.mode != 'bv':
                st.ghost['must'] = st.ghost.get('must', ()) + (eng.rng(vty.name, v),)
            if what != 'owned':
                v = v if isinstance(v, Ref) else Ref(st.cell(v))
        if what == 'values':
            return v
        if what == 'owned':
            return Agg(Ty('tuple', '', (kty, vty)), None, [k, v])
        return Agg(Ty('tuple', '', (Ty('ref', '', (kty,)), Ty('ref', '', (vty,)))), None, [Ref(st.cell(k)), v])
    return Fam([U], lambda eng, st, bs: HAS(t, bs[0]), val, None, False)


def coll_iter(eng, st, v, how):
    """how: iter | into | keys | values | iter_mut"""
    c, p, x = place_of(eng, st, v)
    byref = isinstance(v, Ref)
    if isinstance(x, It):
        return x
    if isinstance(x, (ItAt, ItUsed, ItEnd)):
        raise Unsupported('iterator in use')
    ty = x.ty if isinstance(x, (Opq, Agg)) else None
    if isinstance(ty, Ty) and ty.kind == 'path' and ty.last in ('Range', 'RangeInclusive') and isinstance(x, Agg) and x.base is None:
        lo, hi = x.f[0], x.f[1]
        if ty.last == 'RangeInclusive':
            hi = hi + 1
        if not z3.is_int(lo):
            raise Unsupported('range')
        n = z3.If(hi >= lo, hi - lo, z3.IntVal(0))
        return It([Fam([INT], lambda eng, st, bs: z3.And(0 <= bs[0], bs[0] < n), lambda eng, st, bs: lo + bs[0], n)])
    if isinstance(ty, Ty) and ty.kind == 'path' and ty.last == 'Option':
        e = elem_ty(ty)
        some = eng.discr(x, st) == 1

        def val(eng, st, bs):
            y = eng.field(x, 'Some', 0, e, st)
            return Ref(st.cell(y)) if byref else y
        return It([Fam([], lambda eng, st, bs: some, val)], e)
    t, ty = as_term(eng, st, x)
    k, vt = kv_ty(ty)
    if k is not None:
        k, vt = strip_life(k), strip_life(vt)
        if how == 'keys':
            return It([map_fam(t, k, vt, 'keys')])
        if how == 'values':
            return It([map_fam(t, k, vt, 'values')])
        if how == 'iter_mut' or how == 'into' and byref and v.mut:
            return It([map_fam(t, k, vt, 'iter_mut', (c, p))])
        return It([map_fam(t, k, vt, 'pairs' if byref else 'owned')])
    if ty.kind == 'path' and ty.last in ('HashSet', 'BTreeSet'):
        e = strip_life(ty.args[0])
        return It([map_fam(t, e, None, 'keys' if byref else 'keyval')])
    return seq_iter(eng, st, x, byref)


# ------------------------------------------------------------------ adaptors
def it_of(eng, st, v):
    x = eng.deref_all(v, st)
    if isinstance(x, It):
        return x
    raise Unsupported(f'iterator {x!r}')


def m_map(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]

    def mk(fam):
        def val(eng, st, bs):
            v = elem(eng, st, fam, bs)
            return merge(eng, st, apply(eng, under(st, bs), f, [v]))
        return Fam(fam.sorts, fam.guard, val, fam.n, fam.ordered)
    return It([mk(x) for x in it.fams])


def m_filter(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]

    def mk(fam):
        def guard(eng, st, bs):
            s2 = under(st, bs)
            g = fam.guard(eng, s2, bs)
            s2.assume(g)
            return z3.And(g, pred(eng, s2, f, elem(eng, s2, fam, bs)))
        return Fam(fam.sorts, guard, fam.val, None, fam.ordered, fam.total)
    return It([mk(x) for x in it.fams])


def m_filter_map(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]

    def mk(fam):
        def run(eng, st, bs):
            s2 = under(st, bs)
            g = fam.guard(eng, s2, bs)
            s2.assume(g)
            return g, apply(eng, s2, f, [elem(eng, s2, fam, bs)])

        def guard(eng, st, bs):
            g, res = run(eng, st, bs)
            return z3.And(g, z3.simplify(z3.Or([z3.And(c, eng.discr(eng.deref_all(v, s2), s2) == 1) for c, v, s2 in res])))

        def val(eng, st, bs):
            g, res = run(eng, st, bs)
            some = []
            for c, v, s2 in res:
                v = eng.deref_all(v, s2)
                if isinstance(v, Agg) and v.var == 'None':
                    continue
                e = elem_ty(v.ty)
                some.append((z3.And(c, eng.discr(v, s2) == 1), eng.field(v, 'Some', 0, e, s2), s2))
            return merge(eng, st, some)
        return Fam(fam.sorts, guard, val, None, fam.ordered)
    return It([mk(x) for x in it.fams])


def m_flat_map(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    out = []
    for fam in it.fams:
        bs0 = binders(eng, fam)
        s2 = under(st, bs0)
        s2.assume(fam.guard(eng, s2, bs0))
        res = apply(eng, s2, f, [elem(eng, s2, fam, bs0)])
        if len(res) != 1:
            raise Unsupported('flat_map with a branching closure')
        inner = res[0][1]
        inner = inner if isinstance(inner, It) else coll_iter(eng, res[0][2], inner, 'into')
        for idx in range(len(inner.fams)):
            def again(eng, st, bs, fam=fam, idx=idx):
                r = apply(eng, under(st, bs), f, [elem(eng, st, fam, bs)])
                v = merge(eng, st, r)
                v = v if isinstance(v, It) else coll_iter(eng, st, v, 'into')
                return v.fams[idx]
            k = len(fam.sorts)

            def guard(eng, st, bs, fam=fam, again=again, k=k):
                return z3.And(fam.guard(eng, st, bs[:k]), again(eng, st, bs[:k]).guard(eng, st, bs[k:]))

            def val(eng, st, bs, again=again, k=k):
                return again(eng, st, bs[:k]).val(eng, st, bs[k:])
            nf = Fam(fam.sorts + inner.fams[idx].sorts, guard, val, None, fam.ordered and inner.fams[idx].ordered)
            out.append(nf)
    return It(out)


def m_chain(eng, st, args, dty, m, callee):
    a = it_of(eng, st, args[0])
    b = args[1] if isinstance(args[1], It) else coll_iter(eng, st, args[1], 'into')
    return It(a.fams + b.fams)


def m_enumerate(eng, st, args, dty, m, callee):
    it = it_of(eng, st, args[0])
    if len(it.fams) != 1 or it.fams[0].n is None:
        raise Unsupported('enumerate')
    fam = it.fams[0]

    def val(eng, st, bs):
        return Agg(Ty('tuple', '', (Ty('path', 'usize'), Ty('path', '?'))), None, [bs[0], elem(eng, st, fam, bs)])
    return It([Fam(fam.sorts, fam.guard, val, fam.n)])


def m_cloned(eng, st, args, dty, m, callee):
    it = it_of(eng, st, args[0])

    def mk(fam):
        def val(eng, st, bs):
            v = elem(eng, st, fam, bs)
            return eng.load(st, v.cell, v.path) if isinstance(v, Ref) else v
        return Fam(fam.sorts, fam.guard, val, fam.n, fam.ordered)
    return It([mk(x) for x in it.fams])


def m_rev(eng, st, args, dty, m, callee):
    it = it_of(eng, st, args[0])
    out = []
    for fam in it.fams[::-1]:
        if fam.n is not None:
            out.append(Fam(fam.sorts, fam.guard, lambda eng, st, bs, fam=fam: fam.val(eng, st, [fam.n - 1 - bs[0]]), fam.n))
        else:
            out.append(Fam(fam.sorts, fam.guard, fam.val, None, False))
    return It(out)


def m_once(eng, st, args, dty, m, callee):
    v = args[0]
    return It([Fam([], lambda eng, st, bs: z3.BoolVal(True), lambda eng, st, bs: v)])


def m_empty(eng, st, args, dty, m, callee):
    return It([])


# ------------------------------------------------------------------ consumers
def quantified(eng, st, it, body, universal):
    """body(state, fam, bs) -> Bool"""
    out = []
    for fam in it.fams:
        bs = binders(eng, fam)
        s2 = under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        p = body(s2, fam, bs)
        fresh_check(eng, z3.And(g, p), bs)
        out.append(forall(bs, z3.Implies(g, p)) if universal else exists(bs, z3.And(g, p)))
    return z3.And(out) if universal else z3.Or(out)


def m_all(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    try:
        return all_pure(eng, st, it, f)
    except Effects:
        pass
    # short-circuiting with an effect: exact when the element that stops the search is the one with the effect
    found, todo = [], {}
    for fam in it.fams:
        bs = binders(eng, fam)
        s2 = under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        res, em = with_effects(eng, s2, s2, f, [elem(eng, s2, fam, bs)])
        p = truth(eng, s2, res)
        for k, e in em.items():
            if eng.feasible(s2, z3.Not(e == z3.Not(p))):
                raise Unsupported('effect of an element that does not stop the search')
            fresh_check(eng, z3.And(g, p, e), bs)
            todo.setdefault(k, []).append(exists(bs, z3.And(g, e)))
        found.append(forall(bs, z3.Implies(g, p)))
    if len(it.fams) != 1:
        raise Unsupported('effects in a composite search')
    for k, es in todo.items():
        set_flag(eng, st, k, z3.simplify(z3.Or([flag_of(eng, st, k)] + es)))
    return z3.And(found)


def all_pure(eng, st, it, f):
    return quantified(eng, st, it, lambda s, fam, bs: truth(eng, s, apply(eng, s, f, [elem(eng, s, fam, bs)])), True)


def m_any(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    return quantified(eng, st, it, lambda s, fam, bs: truth(eng, s, apply(eng, s, f, [elem(eng, s, fam, bs)])), False)


def before(fam, bs, ks):
    """bs comes strictly before ks"""
    if not fam.ordered:
        return None
    if any(b.sort() != INT for b in bs):
        return None
    ors, eq = [], z3.BoolVal(True)
    for b, k in zip(bs, ks):
        ors.append(z3.And(eq, b < k))
        eq = z3.And(eq, b == k)
    return z3.Or(ors) if ors else z3.BoolVal(False)


def first_match(eng, st, it, P):
    """outcomes of searching for the first element with P(state, fam, bs): [(state, fam, ks) | (state, None, None)]"""
    outs = []
    nomatch = []
    for fam in it.fams:
        bs = binders(eng, fam)
        s2 = under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        p = P(s2, fam, bs)
        fresh_check(eng, z3.And(g, p), bs)
        # found in this part
        ks = witnesses(eng, fam, st)
        s3 = st.copy()
        for c in nomatch:
            s3.assume(c)
        sub = list(zip(bs, ks))
        s3.assume(z3.substitute(z3.And(g, p), *sub) if sub else z3.And(g, p))
        if bs:
            bf = before(fam, bs, ks)
            if bf is not None:
                s3.assume(forall(bs, z3.Implies(z3.And(g, bf), z3.Not(p))))
        if eng.feasible(s3, z3.BoolVal(True)):
            outs.append((s3, fam, ks))
        nomatch.append(forall(bs, z3.Implies(g, z3.Not(p))))
    s4 = st.copy()
    for c in nomatch:
        s4.assume(c)
    outs.append((s4, None, None))
    return outs


OPT = Ty('path', 'Option')


def opt_none(ty=None):
    return Agg(ty if ty is not None else OPT, 'None', [])


def opt_some(v, ty=None):
    return Agg(ty if ty is not None else OPT, 'Some', [v])


def m_find(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    outs = []
    for s, fam, ks in first_match(eng, st, it, lambda s, fam, bs: pred(eng, s, f, elem(eng, s, fam, bs))):
        v = opt_none(dty) if fam is None else opt_some(elem(eng, s, fam, ks), dty)
        outs.append(Outcome('ret', s, v))
    return outs


def m_position(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    if len(it.fams) != 1 or it.fams[0].n is None:
        raise Unsupported('position')
    outs = []
    for s, fam, ks in first_match(eng, st, it, lambda s, fam, bs: truth(eng, s, apply(eng, s, f, [elem(eng, s, fam, bs)]))):
        outs.append(Outcome('ret', s, opt_none(dty) if fam is None else opt_some(ks[0], dty)))
    return outs


def new_term(eng, st, base):
    return skolem(eng, st, eng.fresh_name(base), [], U)()


def skolem(eng, st, name, sorts, res):
    """a made-up function of the binders in scope (and of further arguments)"""
    sc = {}
    for x in st.ghost.get('scope', ()):
        for b in mentions(x, eng.binders):
            sc[b.get_id()] = b
    sc = [sc[k] for k in sorted(sc)]
    if not sc:
        return lambda *a: uf(name, *sorts, res)(*a) if a else z3.Const(name, res)
    eng.skolems.add(name)
    return lambda *a: uf(name, *[b.sort() for b in sc], *sorts, res)(*sc, *a)


def source_at(v, b):
    """the element of the source sequence at index b, as a trigger"""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'seq.at' and x.arg(1).eq(b) and not mentions_any(x.arg(0), [b]):
            return [x]
        todo += x.children()
    return []


def nonneg(c, *ns):
    """c, guarded by lengths that are not obviously natural numbers"""
    gs = [n >= 0 for n in ns if z3.is_expr(n) and not (z3.is_int_value(n) and n.as_long() >= 0) and not (z3.is_app(n) and n.decl().eq(LEN))]
    return z3.Implies(z3.And(gs), c) if gs else c


def seq_facts(eng, st, it, t):
    """facts saying that sequence t holds the elements of it"""
    for fam in it.fams:
        bs = binders(eng, fam)
        s2 = under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        v = eng.to_u(elem(eng, s2, fam, bs), s2)
        fresh_check(eng, z3.And(g, v == v), bs)
        assume_musts(eng, st, s2, bs, g)
        if len(it.fams) == 1 and fam.n is not None:
            st.assume(nonneg(LEN(t) == fam.n, fam.n))
            st.assume(z3.ForAll(bs, z3.Implies(g, AT(t, bs[0]) == v), patterns=[AT(t, bs[0])] + source_at(v, bs[0])))
        elif len(it.fams) == 1 and len(bs) > 1:
            # every combination of the binders is at one position
            sorts = [b.sort() for b in bs]
            pos = skolem(eng, st, eng.fresh_name('pos'), sorts, INT)
            inv = [skolem(eng, st, eng.fresh_name(f'at{i}'), [INT], b) for i, b in enumerate(sorts)]
            j = z3.Int('j')
            rng = z3.And(0 <= j, j < LEN(t))
            S = lambda e: z3.substitute(e, *[(b, f(j)) for b, f in zip(bs, inv)])
            st.assume(z3.ForAll([j], z3.Implies(rng, z3.And(S(g), AT(t, j) == S(v), pos(*[f(j) for f in inv]) == j)), patterns=[AT(t, j)]))
            body = z3.Implies(g, z3.And(0 <= pos(*bs), pos(*bs) < LEN(t), AT(t, pos(*bs)) == v, *[f(pos(*bs)) == b for f, b in zip(inv, bs)]))
            st.assume(z3.ForAll(bs, body, patterns=[pos(*bs)]))
            src = [source_at(v, b) for b in bs]
            if all(src):
                st.assume(z3.ForAll(bs, body, patterns=[z3.MultiPattern(*[x[0] for x in src])]))
            else:
                st.assume(z3.ForAll(bs, body))
        elif len(it.fams) == 1 and len(bs) == 1:
            # order preserving subsequence
            src = skolem(eng, st, eng.fresh_name('src'), [INT], bs[0].sort())
            dst = skolem(eng, st, eng.fresh_name('dst'), [bs[0].sort()], INT)
            j, j2 = z3.Ints('j j2')
            rng = z3.And(0 <= j, j < LEN(t))
            st.assume(z3.ForAll([j], z3.Implies(rng, z3.And(z3.substitute(g, (bs[0], src(j))), AT(t, j) == z3.substitute(v, (bs[0], src(j))), dst(src(j)) == j)), patterns=[AT(t, j)]))
            st.assume(z3.ForAll([j], z3.Implies(rng, z3.And(z3.substitute(g, (bs[0], src(j))), AT(t, j) == z3.substitute(v, (bs[0], src(j))), dst(src(j)) == j)), patterns=[src(j)]))
            st.assume(z3.ForAll(bs, z3.Implies(g, z3.And(0 <= dst(bs[0]), dst(bs[0]) < LEN(t), src(dst(bs[0])) == bs[0], AT(t, dst(bs[0])) == v))))
            if fam.ordered and bs[0].sort() == INT:
                st.assume(z3.ForAll([j, j2], z3.Implies(z3.And(rng, j < j2, j2 < LEN(t)), src(j) < src(j2)), patterns=[z3.MultiPattern(src(j), src(j2))]))
                if fam.total is not None:
                    # nothing is filtered out: the elements in their places (filter_lemma)
                    b2 = eng.binder(INT)
                    allin = forall([b2], z3.Implies(z3.And(0 <= b2, b2 < fam.total), z3.substitute(g, (bs[0], b2))))
                    st.assume(z3.Implies(allin, z3.And(LEN(t) == fam.total, z3.ForAll(bs, z3.Implies(z3.And(0 <= bs[0], bs[0] < fam.total), AT(t, bs[0]) == v), patterns=[AT(t, bs[0])] + source_at(v, bs[0])))))
        else:
            st.assume(forall(bs, z3.Implies(g, z3.Exists([z3.Int('j')], z3.And(0 <= z3.Int('j'), z3.Int('j') < LEN(t), AT(t, z3.Int('j')) == v)))))
    if len(it.fams) != 1:
        j = z3.Int('j')
        ors = []
        for fam in it.fams:
            bs = binders(eng, fam)
            s2 = under(st, bs)
            g = fam.guard(eng, s2, bs)
            s2.assume(g)
            v = eng.to_u(elem(eng, s2, fam, bs), s2)
            ors.append(exists(bs, z3.And(g, AT(t, j) == v)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < LEN(t)), z3.Or(ors)), patterns=[AT(t, j)]))
        if not it.fams:
            st.assume(LEN(t) == 0)


def m_collect(eng, st, args, dty, m, callee):
    n0 = len(st.pc)
    r = collect(eng, st, args, dty, m, callee)
    for c in st.pc[n0:]:
        if c.get_id() in eng.mustset:
            continue
        # what is said about the collected value defines it
        eng.factset[c.get_id()] = c
    return r


def collect(eng, st, args, dty, m, callee):
    it = it_of(eng, st, args[0])
    if dty is None:
        raise Unsupported('collect into unknown type')
    tgt = peel(dty)
    if tgt.kind == 'path' and tgt.last == 'Vec':
        t = new_term(eng, st, 'vec')
        seq_facts(eng, st, it, t)
        return Opq(t, tgt)
    if tgt.kind == 'path' and tgt.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        t = new_term(eng, st, 'map')
        ismap = tgt.last.endswith('Map')
        k = z3.Const('key', U)
        ors = []
        for n, fam in enumerate(it.fams):
            bs = binders(eng, fam)
            s2 = under(st, bs)
            g = fam.guard(eng, s2, bs)
            s2.assume(g)
            e = elem(eng, s2, fam, bs)
            if ismap:
                e = eng.deref_all(e, s2)
                key, v = eng.to_u(e.f[0], s2), eng.to_u(e.f[1], s2)
            else:
                key, v = eng.to_u(e, s2), None
            fresh_check(eng, z3.And(g, key == key, key == key if v is None else v == v), bs)
            assume_musts(eng, st, s2, bs, g)
            st.assume(forall(bs, z3.Implies(g, HAS(t, key))))
            if len(bs) == 1 and key.eq(bs[0]):
                # keyed by the binder itself: no two elements share a key
                if len(it.fams) == 1:
                    st.assume(z3.ForAll(bs, HAS(t, key) == g, patterns=[HAS(t, key)]))
                    if ismap:
                        st.assume(z3.ForAll(bs, z3.Implies(g, GET(t, key) == v), patterns=[GET(t, key)]))
                    return Opq(t, tgt)
            ws = [skolem(eng, st, eng.fresh_name(f'wit{n}.{i}'), [U], b.sort())(k) for i, b in enumerate(bs)]
            sub = list(zip(bs, ws))
            S = (lambda e: z3.substitute(e, *sub)) if sub else (lambda e: e)
            c = z3.And(S(g), S(key) == k)
            if ismap:
                c = z3.And(c, GET(t, k) == S(v))
            ors.append(c)
        st.assume(z3.ForAll([k], z3.Implies(HAS(t, k), z3.Or(ors) if ors else z3.BoolVal(False)), patterns=[HAS(t, k)]))
        return Opq(t, tgt)
    h = eng.collectors.get(tgt.last if tgt.kind == 'path' else '')
    if h:
        return h(eng, st, it, tgt)
    raise Unsupported(f'collect into {tgt}')


def for_effects(eng, st, it, f, byref):
    """effects of calling f on every element"""
    todo = {}
    for fam in it.fams:
        bs = binders(eng, fam)
        s2 = under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        v = elem(eng, s2, fam, bs)
        res, em = with_effects(eng, s2, s2, f, [Ref(s2.cell(v)) if byref else v])
        for k, e in em.items():
            fresh_check(eng, z3.And(g, e), bs)
            todo.setdefault(k, []).append(exists(bs, z3.And(g, e)))
    for k, es in todo.items():
        set_flag(eng, st, k, z3.simplify(z3.Or([flag_of(eng, st, k)] + es)))


def m_for_each(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    for_effects(eng, st, it, f, False)
    return Agg('()', None, [])


def m_fold(eng, st, args, dty, m, callee):
    """fold by an invariant supplied by the property (eng.folds: [(applies, inv, sink)])"""
    it, init, f = it_of(eng, st, args[0]), args[1], args[2]
    if len(it.fams) != 1 or it.fams[0].n is None:
        raise Unsupported('fold over a composite iterator')
    fam = it.fams[0]
    if isinstance(init, Agg) or not isinstance(init, Opq):
        init = eng.deref_all(init, st)
    for applies, inv, sink in getattr(eng, 'folds', []):
        if not applies(eng, st, it, init):
            continue
        ty = init.ty
        sink.append(('fold: invariant holds for the initial value', list(st.pc), inv(eng, st, it, init, z3.IntVal(0)), eng.axioms()))
        s = st.copy()
        k = z3.Int(eng.fresh_name('pos'))
        acc = eng.fresh(ty, s, 'acc')
        s.assume(z3.And(0 <= k, k < fam.n))
        s.assume(inv(eng, s, it, acc, k))
        for c, v, s2 in apply(eng, s, f, [acc, elem(eng, s, fam, [k])]):
            sink.append(('fold: invariant preserved', list(s2.pc), inv(eng, s2, it, v, k + 1), eng.axioms()))
        eng.fact(st, fam.n >= 0)
        acc = eng.fresh(ty, st, 'acc')
        st.assume(inv(eng, st, it, acc, fam.n))
        return acc
    raise Unsupported('fold without invariant')


def m_partition(eng, st, args, dty, m, callee):
    it, f = it_of(eng, st, args[0]), args[1]
    outs = []
    vty = dty.args[0]
    for_effects(eng, st, it, f, True)
    for neg in (False, True):
        def mk(fam):
            def guard(eng, st, bs):
                s2 = under(st, bs)
                g = fam.guard(eng, s2, bs)
                s2.assume(g)
                p = pred(eng, s2, f, elem(eng, s2, fam, bs), effects={})
                return z3.And(g, z3.Not(p) if neg else p)
            return Fam(fam.sorts, guard, fam.val, None, fam.ordered, fam.total)
        t = new_term(eng, st, 'part')
        seq_facts(eng, st, It([mk(x) for x in it.fams]), t)
        outs.append(Opq(t, vty))
    return Agg(dty, None, outs)


def m_count(eng, st, args, dty, m, callee):
    it = it_of(eng, st, args[0])
    if len(it.fams) == 1 and it.fams[0].n is not None:
        return it.fams[0].n
    raise Unsupported('count')


def m_iter_next(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    if isinstance(x, ItAt):
        eng.store(st, c, p, ItUsed(x.it))
        return opt_some(elem(eng, st, x.fam, x.bs), dty)
    if isinstance(x, ItEnd):
        return opt_none(dty)
    if isinstance(x, It) and not x.fams:
        return opt_none(dty)
    if isinstance(x, It) and len(x.fams) == 1 and not x.fams[0].sorts:
        g = x.fams[0].guard(eng, st, [])
        s2 = st.copy()
        s2.assume(z3.Not(g))
        outs = [Outcome('ret', s2, opt_none(dty))] if eng.feasible(st, z3.Not(g)) else []
        st.assume(g)
        v = elem(eng, st, x.fams[0], [])
        eng.store(st, c, p, It([]))
        return outs + [Outcome('ret', st, opt_some(v, dty))]
    if isinstance(x, It) and len(x.fams) == 1 and x.fams[0].n is not None:
        fam = x.fams[0]
        outs = []
        if eng.feasible(st, fam.n <= 0):
            s2 = st.copy()
            s2.assume(fam.n <= 0)
            outs.append(Outcome('ret', s2, opt_none(dty)))
        if eng.feasible(st, fam.n > 0):
            st.assume(fam.n > 0)
            v = elem(eng, st, fam, [z3.IntVal(0)])
            rest = Fam(fam.sorts, lambda eng, st, bs: z3.And(0 <= bs[0], bs[0] < fam.n - 1), lambda eng, st, bs: fam.val(eng, st, [bs[0] + 1]), fam.n - 1)
            eng.store(st, c, p, It([rest]))
            outs.append(Outcome('ret', st, opt_some(v, dty)))
        return outs
    raise Unsupported(f'next of {x!r} outside of a loop')


# ------------------------------------------------------------------ vectors
def vec_ty(dty, x=None):
    return dty


def m_vec_new(eng, st, args, dty, m, callee):
    return Opq(EMPTY, peel(dty))


def m_map_new(eng, st, args, dty, m, callee):
    return Opq(MEMPTY, peel(dty))


def m_push(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    if isinstance(x, Grow):
        eng.store(st, c, p, pushed(eng, st, x, args[1]))
        return Agg('()', None, [])
    t, ty = as_term(eng, st, x)
    eng.store(st, c, p, Opq(PUSH(t, eng.to_u(args[1], st)), ty))
    return Agg('()', None, [])


def m_len(eng, st, args, dty, m, callee):
    t, ty = as_term(eng, st, args[0])
    if ty.kind == 'path' and ty.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return uf('map.len', U, INT)(t)
    n = LEN(t)
    eng.fact(st, n >= 0)
    return n


def m_is_empty(eng, st, args, dty, m, callee):
    x = eng.deref_all(args[0], st)
    if isinstance(x, Grow):
        return z3.Not(x.flag)
    t, ty = as_term(eng, st, args[0])
    if ty.kind == 'path' and ty.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        k = z3.Const('key', U)
        return z3.Not(z3.Exists([k], HAS(t, k)))
    eng.fact(st, LEN(t) >= 0)
    return LEN(t) == 0


def bounds(eng, st, t, i, msg):
    ok = z3.And(0 <= i, i < LEN(t))
    outs = []
    if eng.feasible(st, z3.Not(ok)):
        s2 = st.copy()
        s2.assume(z3.Not(ok))
        outs.append(Outcome('panic', s2, msg=msg))
    st.assume(ok)
    return outs


def m_vec_remove(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    t, ty = as_term(eng, st, x)
    i = args[1]
    outs = bounds(eng, st, t, i, 'index out of bounds in remove')
    v = eng.val_of_term(dty, AT(t, i), st)
    eng.store(st, c, p, Opq(REM(t, i), ty))
    return outs + [Outcome('ret', st, v)]


def m_vec_index(eng, st, args, dty, m, callee):
    t, ty = as_term(eng, st, args[0])
    i = args[1]
    outs = bounds(eng, st, t, i, 'index out of bounds')
    return outs + [Outcome('ret', st, Ref(st.cell(eng.val_of_term(strip_life(elem_ty(ty)), AT(t, i), st))))]


def m_drain(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    t, ty = as_term(eng, st, x)
    it = seq_iter(eng, st, x, False)
    eng.store(st, c, p, Opq(EMPTY, ty))
    return it


def m_contains(eng, st, args, dty, m, callee):
    t, ty = as_term(eng, st, args[0])
    x = eng.to_u(args[1], st)
    if ty.kind == 'path' and ty.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return HAS(t, x)
    i = eng.binder(INT)
    return z3.Exists([i], z3.And(0 <= i, i < LEN(t), AT(t, i) == x))


def m_extend(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    it = args[1] if isinstance(args[1], It) else coll_iter(eng, st, args[1], 'into')
    if isinstance(x, Grow):
        some = []
        for fam in it.fams:
            bs = binders(eng, fam)
            some.append(exists(bs, fam.guard(eng, under(st, bs), bs)))
        e = strip_life(elem_ty(x.ty))

        def owned(fam):
            return Fam(fam.sorts, fam.guard, lambda eng, st, bs: eng.val_of_term(e, eng.to_u(elem(eng, st, fam, bs), st), st), fam.n, fam.ordered, fam.total)
        eng.store(st, c, p, Grow(z3.simplify(z3.Or([x.flag] + some)), x.ty, x.more([owned(f) for f in it.fams]), x.base))
        return Agg('()', None, [])
    t, ty = as_term(eng, st, x)
    if ty.kind == 'path' and ty.last != 'Vec':
        raise Unsupported('extend of a map')
    t2 = new_term(eng, st, 'vec')
    seq_facts(eng, st, It([seq_fam(t, strip_life(elem_ty(ty)), False)] + it.fams), t2)
    if len(it.fams) == 1 and it.fams[0].n is not None:
        fam = it.fams[0]
        st.assume(LEN(t2) == LEN(t) + fam.n)
        i = eng.binder(INT)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(t)), AT(t2, i) == AT(t, i)), patterns=[AT(t2, i)]))
        s2 = under(st, [i])
        s2.assume(z3.And(0 <= i, i < fam.n))
        v = eng.to_u(elem(eng, s2, fam, [i]), s2)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < fam.n), AT(t2, LEN(t) + i) == v)))
    eng.store(st, c, p, Opq(t2, ty))
    return Agg('()', None, [])


# ------------------------------------------------------------------ maps
def m_map_insert(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    if isinstance(x, Grow):
        eng.store(st, c, p, pushed(eng, st, x, args[1] if len(args) == 2 else args[1:3]))
        if len(args) == 2:
            return z3.Bool(eng.fresh_name('lossy!new'))
        return eng.val_of_term(dty, z3.Const(eng.fresh_name('lossy!old'), U), st)
    t, ty = as_term(eng, st, x)
    k = eng.to_u(args[1], st)
    if len(args) == 2:       # a set
        eng.store(st, c, p, Opq(INS(t, k, UNIT), ty))
        return z3.Not(HAS(t, k))
    eng.store(st, c, p, Opq(INS(t, k, eng.to_u(args[2], st)), ty))
    outs = []
    if eng.feasible(st, z3.Not(HAS(t, k))):
        s2 = st.copy()
        s2.assume(z3.Not(HAS(t, k)))
        outs.append(Outcome('ret', s2, opt_none(dty)))
    if eng.feasible(st, HAS(t, k)):
        st.assume(HAS(t, k))
        vt = kv_ty(ty)[1]
        outs.append(Outcome('ret', st, opt_some(eng.val_of_term(strip_life(vt), GET(t, k), st), dty)))
    return outs


def m_map_get(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    t, ty = as_term(eng, st, x)
    k = eng.to_u(args[1], st)
    vt = strip_life(kv_ty(ty)[1])
    mut = m.group('n') == 'get_mut'
    outs = []
    if eng.feasible(st, z3.Not(HAS(t, k))):
        s2 = st.copy()
        s2.assume(z3.Not(HAS(t, k)))
        outs.append(Outcome('ret', s2, opt_none(dty)))
    if eng.feasible(st, HAS(t, k)):
        st.assume(HAS(t, k))
        if mut:
            r = Ref(c, p + (('k', k, vt),), True)
        else:
            v = eng.val_of_term(vt, GET(t, k), st)
            r = Ref(st.cell(v)) if not isinstance(v, Ref) else v
        outs.append(Outcome('ret', st, opt_some(r, dty)))
    return outs


def m_map_index(eng, st, args, dty, m, callee):
    t, ty = as_term(eng, st, args[0])
    k = eng.to_u(args[1], st)
    vt = strip_life(kv_ty(ty)[1])
    outs = []
    if eng.feasible(st, z3.Not(HAS(t, k))):
        s2 = st.copy()
        s2.assume(z3.Not(HAS(t, k)))
        outs.append(Outcome('panic', s2, msg='missing key'))
    st.assume(HAS(t, k))
    return outs + [Outcome('ret', st, Ref(st.cell(eng.val_of_term(vt, GET(t, k), st))))]


class Entry(Lib):
    def __init__(self, c, p, k, vt):
        self.c, self.p, self.k, self.vt = c, p, k, vt


def m_entry(eng, st, args, dty, m, callee):
    c, p, x = place_of(eng, st, args[0])
    t, ty = as_term(eng, st, x)
    return Entry(c, p, eng.to_u(args[1], st), strip_life(kv_ty(ty)[1]))


def m_or_insert(eng, st, args, dty, m, callee):
    e = args[0]
    x = eng.load(st, e.c, e.p)
    t, ty = as_term(eng, st, x)
    if m.group('n') == 'or_insert':
        dflt = args[1]
    else:
        if e.vt.kind == 'path' and e.vt.last == 'Vec':
            dflt = Opq(EMPTY, e.vt)
        elif e.vt.kind == 'path' and e.vt.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            dflt = Opq(MEMPTY, e.vt)
        else:
            raise Unsupported('or_default')
    outs = []
    r = Ref(e.c, e.p + (('k', e.k, e.vt),), True)
    if eng.feasible(st, z3.Not(HAS(t, e.k))):
        s2 = st.copy()
        s2.assume(z3.Not(HAS(t, e.k)))
        eng.store(s2, e.c, e.p, Opq(INS(t, e.k, eng.to_u(dflt, s2)), ty))
        outs.append(Outcome('ret', s2, r))
    if eng.feasible(st, HAS(t, e.k)):
        st.assume(HAS(t, e.k))
        outs.append(Outcome('ret', st, r))
    return outs


# ------------------------------------------------------------------ options
def opt_cases(eng, st, v):
    """[(state, payload or None)] with payload a value (or, for a reference to an option, a reference to the payload)"""
    c = p = None
    while isinstance(v, Ref):
        c, p = v.cell, v.path
        v = eng.load(st, c, p)
    d = z3.simplify(eng.discr(v, st))
    outs = []
    if eng.feasible(st, d == 0):
        s2 = st.copy()
        s2.assume(z3.simplify(d == 0))
        outs.append((s2, None))
    if eng.feasible(st, d == 1):
        s2 = st.copy()
        s2.assume(z3.simplify(d == 1))
        e = elem_ty(v.ty) if isinstance(v.ty, Ty) else None
        if c is not None:
            outs.append((s2, Ref(c, p + (('v', 'Some'), ('f', 0, e)))))
        else:
            outs.append((s2, eng.field(v, 'Some', 0, e, s2)))
    return outs


def m_option(eng, st, args, dty, m, callee):
    n = m.group('n')
    outs = []
    R_ = lambda s, v: outs.append(Outcome('ret', s, v))
    if n in ('is_some', 'is_none'):
        v = eng.deref_all(args[0], st)
        d = eng.discr(v, st)
        return d == (1 if n == 'is_some' else 0)
    if n in ('is_some_and', 'is_none_or'):
        for s, x in opt_cases(eng, st, args[0]):
            if x is None:
                R_(s, z3.BoolVal(n == 'is_none_or'))
            else:
                outs.extend(eng.call_value(args[1], [x], s, dty))
        return outs
    for s, x in opt_cases(eng, st, args[0]):
        if n in ('as_ref', 'as_mut', 'as_deref'):
            R_(s, opt_none(dty) if x is None else opt_some(x, dty))
        elif n in ('cloned', 'copied'):
            R_(s, opt_none(dty) if x is None else opt_some(eng.load(s, x.cell, x.path) if isinstance(x, Ref) else x, dty))
        elif n == 'unwrap_or':
            R_(s, args[1] if x is None else x)
        elif n in ('unwrap', 'expect'):
            if x is None:
                outs.append(Outcome('panic', s, msg='unwrap of None'))
            else:
                R_(s, x)
        elif n == 'unwrap_or_else':
            if x is None:
                outs.extend(eng.call_value(args[1], [], s, dty))
            else:
                R_(s, x)
        elif n == 'map':
            if x is None:
                R_(s, opt_none(dty))
            else:
                for o in eng.call_value(args[1], [x], s, elem_ty(dty)):
                    if o.kind == 'ret':
                        R_(o.st, opt_some(o.val, dty))
                    else:
                        outs.append(o)
        elif n == 'and_then':
            if x is None:
                R_(s, opt_none(dty))
            else:
                outs.extend(eng.call_value(args[1], [x], s, dty))
        elif n == 'map_or':
            if x is None:
                R_(s, args[1])
            else:
                outs.extend(eng.call_value(args[2], [x], s, dty))
        elif n in ('ok_or', 'ok_or_else'):
            if x is None:
                if n == 'ok_or':
                    R_(s, Agg(dty, 'Err', [args[1]]))
                else:
                    for o in eng.call_value(args[1], [], s, dty.args[1] if dty is not None and len(dty.args) > 1 else None):
                        if o.kind == 'ret':
                            R_(o.st, Agg(dty, 'Err', [o.val]))
                        else:
                            outs.append(o)
            else:
                R_(s, Agg(dty, 'Ok', [x]))
        elif n == 'unwrap_or_default':
            if x is None:
                return None
            R_(s, x)
        else:
            return None
    return outs


def m_branch(eng, st, args, dty, m, callee):
    """? on Option / Result"""
    v = eng.deref_all(args[0], st)
    if not isinstance(v.ty, Ty) or v.ty.last not in ('Option', 'Result'):
        return None
    isopt = v.ty.last == 'Option'
    d = z3.simplify(eng.discr(v, st))
    good = 1 if isopt else 0
    outs = []
    CF = Ty('path', 'ControlFlow')
    if eng.feasible(st, d == good):
        s = st.copy()
        s.assume(z3.simplify(d == good))
        x = eng.field(v, 'Some' if isopt else 'Ok', 0, v.ty.args[0] if v.ty.args else None, s)
        outs.append(Outcome('ret', s, Agg(CF, 'Continue', [x])))
    if eng.feasible(st, d == 1 - good):
        s = st.copy()
        s.assume(z3.simplify(d == 1 - good))
        r = opt_none() if isopt else Agg(Ty('path', 'Result'), 'Err', [eng.field(v, 'Err', 0, v.ty.args[1] if len(v.ty.args) > 1 else None, s)])
        outs.append(Outcome('ret', s, Agg(CF, 'Break', [r])))
    return outs


def m_residual(eng, st, args, dty, m, callee):
    v = eng.deref_all(args[0], st)
    if isinstance(v, Agg) and v.var == 'None':
        return opt_none(dty)
    if isinstance(v, Agg) and v.var == 'Err':
        return Agg(dty, 'Err', [v.f[0]])       # From<E> for E is the identity; other conversions are uninterpreted errors
    return None


def m_result(eng, st, args, dty, m, callee):
    n = m.group('n')
    v = eng.deref_all(args[0], st)
    d = z3.simplify(eng.discr(v, st))
    if n in ('is_ok', 'is_err'):
        return d == (0 if n == 'is_ok' else 1)
    outs = []
    for ok in (0, 1):
        if not eng.feasible(st, d == ok):
            continue
        s = st.copy()
        s.assume(z3.simplify(d == ok))
        ty = v.ty.args[ok] if isinstance(v.ty, Ty) and len(v.ty.args) > ok else None
        x = eng.field(v, 'Err' if ok else 'Ok', 0, ty, s)
        if n == 'map_err':
            if ok:
                for o in eng.call_value(args[1], [x], s, dty.args[1] if dty is not None and len(dty.args) > 1 else None):
                    outs.append(Outcome('ret', o.st, Agg(dty, 'Err', [o.val])) if o.kind == 'ret' else o)
            else:
                outs.append(Outcome('ret', s, Agg(dty, 'Ok', [x])))
        elif n == 'map':
            if not ok:
                for o in eng.call_value(args[1], [x], s, dty.args[0] if dty is not None and dty.args else None):
                    outs.append(Outcome('ret', o.st, Agg(dty, 'Ok', [o.val])) if o.kind == 'ret' else o)
            else:
                outs.append(Outcome('ret', s, Agg(dty, 'Err', [x])))
        elif n == 'and_then':
            if not ok:
                outs.extend(eng.call_value(args[1], [x], s, dty))
            else:
                outs.append(Outcome('ret', s, Agg(dty, 'Err', [x])))
        elif n == 'ok':
            outs.append(Outcome('ret', s, opt_none(dty) if ok else opt_some(x, dty)))
        elif n in ('unwrap', 'expect'):
            outs.append(Outcome('panic', s, msg='unwrap of Err') if ok else Outcome('ret', s, x))
        else:
            return None
    return outs


def m_box_new(eng, st, args, dty, m, callee):
    v = args[0]
    if isinstance(v, Lib):
        return v
    return Ref(st.cell(v), (), True)


def m_into_iter(eng, st, args, dty, m, callee):
    return coll_iter(eng, st, args[0], 'into')


def m_coll_iter(eng, st, args, dty, m, callee):
    return coll_iter(eng, st, args[0], {'iter': 'iter', 'keys': 'keys', 'values': 'values', 'iter_mut': 'iter_mut', 'into_keys': 'keys', 'into_values': 'values'}[m.group('n')])


def m_default(eng, st, args, dty, m, callee):
    t = peel(dty)
    if t.kind == 'path' and t.last in ('Vec', 'VecDeque'):
        return Opq(EMPTY, t)
    if t.kind == 'path' and t.last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return Opq(MEMPTY, t)
    return None


def m_same(eng, st, args, dty, m, callee):
    return args[0]


def m_clone(eng, st, args, dty, m, callee):
    """clone gives an equal value"""
    v = args[0]
    if isinstance(v, Ref):
        v = eng.load(st, v.cell, v.path)
    if isinstance(v, Ref) and dty is not None and dty.kind not in ('ref', 'refmut'):
        # Box<T>: a new box with an equal value
        return Ref(st.cell(eng.deref_all(v, st)), (), True)
    return v


def m_fncall(eng, st, args, dty, m, callee):
    """F: Fn(A): call(&f, (a,))"""
    tup = args[1]
    tup = eng.deref_all(tup, st) if isinstance(tup, Ref) else tup
    if isinstance(tup, Agg) and tup.base is None:
        xs = [tup.f[k] for k in sorted(tup.f)]
    else:
        raise Unsupported('argument tuple')
    f = args[0]
    while isinstance(f, Ref):
        f = eng.load(st, f.cell, f.path)
    return eng.call_value(f, xs, st, dty)


SEQTY = r'(?:Vec<.*>|\[.*\]|VecDeque<.*>)'
MAPTY = r'(?:HashMap|BTreeMap)<.*>'
SETTY = r'(?:HashSet|BTreeSet)<.*>'
ITER = r'<.* as (?:Iterator|DoubleEndedIterator|ExactSizeIterator)>::'
COLLECTIONS = [
    (R(rf'{ITER}map(?:<.*>)?'), m_map),
    (R(rf'{ITER}filter(?:<.*>)?'), m_filter),
    (R(rf'{ITER}filter_map(?:<.*>)?'), m_filter_map),
    (R(rf'{ITER}flat_map(?:<.*>)?'), m_flat_map),
    (R(rf'{ITER}chain(?:<.*>)?'), m_chain),
    (R(rf'{ITER}enumerate'), m_enumerate),
    (R(rf'{ITER}(?:cloned|copied)(?:<.*>)?'), m_cloned),
    (R(rf'{ITER}rev'), m_rev),
    (R(rf'{ITER}(?:by_ref|fuse|peekable)'), m_same),
    (R(rf'{ITER}all(?:<.*>)?'), m_all),
    (R(rf'{ITER}any(?:<.*>)?'), m_any),
    (R(rf'{ITER}find(?:<.*>)?'), m_find),
    (R(rf'{ITER}position(?:<.*>)?'), m_position),
    (R(rf'{ITER}collect(?:<.*>)?'), m_collect),
    (R(rf'{ITER}partition(?:<.*>)?'), m_partition),
    (R(rf'{ITER}for_each(?:<.*>)?'), m_for_each),
    (R(rf'{ITER}fold(?:<.*>)?'), m_fold),
    (R(rf'{ITER}count'), m_count),
    (R(rf'{ITER}next'), m_iter_next),
    (R(r'(?:iter::)?once(?:<.*>)?'), m_once),
    (R(r'(?:iter::)?empty(?:<.*>)?'), m_empty),
    (R(r'<.* as IntoIterator>::into_iter'), m_into_iter),
    (R(rf'(?:{SEQTY}|{MAPTY}|{SETTY}|Option<.*>)::(?P<n>iter|iter_mut|keys|values|into_keys|into_values)'), m_coll_iter),
    (R(rf'(?:Vec|VecDeque)<.*>::(?:new|with_capacity)'), m_vec_new),
    (R(rf'(?:{MAPTY}|{SETTY})::(?:new|with_capacity)'), m_map_new),
    (R(r'<.* as Default>::default'), m_default),
    (R(rf'(?:Vec|VecDeque)<.*>::(?:push|push_back)'), m_push),
    (R(rf'(?:{SEQTY}|{MAPTY}|{SETTY})::len'), m_len),
    (R(rf'(?:{SEQTY}|{MAPTY}|{SETTY})::is_empty'), m_is_empty),
    (R(rf'Vec<.*>::remove'), m_vec_remove),
    (R(rf'<{SEQTY} as Index<usize>>::index'), m_vec_index),
    (R(rf'Vec<.*>::drain<RangeFull>'), m_drain),
    (R(rf'(?:{SEQTY}|{SETTY}|{MAPTY})::(?:contains|contains_key)(?:<.*>)?'), m_contains),
    (R(rf'<Vec<.*> as Extend<.*>>::extend(?:<.*>)?'), m_extend),
    (R(rf'(?:{MAPTY}|{SETTY})::insert'), m_map_insert),
    (R(rf'{MAPTY}::(?P<n>get|get_mut)(?:<.*>)?'), m_map_get),
    (R(rf'<{MAPTY} as Index<.*>>::index'), m_map_index),
    (R(rf'{MAPTY}::entry'), m_entry),
    (R(r'Entry<.*>::(?P<n>or_insert|or_default)'), m_or_insert),
    (R(r'Option<.*>::(?P<n>\w+)(?:<.*>)?'), m_option),
    (R(r'Result<.*>::(?P<n>\w+)(?:<.*>)?'), m_result),
    (R(r'<.* as Try>::branch'), m_branch),
    (R(r'<.* as FromResidual<.*>>::from_residual'), m_residual),
    (R(r'Box<.*>::new'), m_box_new),
    (R(r'<.* as (?:Deref|DerefMut|AsRef<.*>|Borrow<.*>)>::(?:deref|deref_mut|as_ref|borrow)'), m_same),
    (R(r'(?:Vec<.*>|String)::(?:as_slice|as_str|as_mut_slice)|\[.*\]::into_vec<.*>'), m_same),
    (R(r'<.* as Clone>::clone'), m_clone),
    (R(r'<.* as PartialEq(?:<.*>)?>::(?P<op>eq|ne)'), M.m_eq),
    (R(r'<.* as (?:Fn|FnMut|FnOnce)<.*>>::call(?:_mut|_once)?'), m_fncall),
]


def install(eng):
    eng.theory = theory()
    eng.witness = {}
    eng.mustset = {}
    eng.panics = set()
    eng.collectors = {}
    return eng


# ------------------------------------------------------------------ loops over iterators
def callee_key(t):
    return canon(strip_life(t)) if isinstance(t, Ty) else ''


class AutoLoop:
    """Loops driven by Iterator::next.  A loop whose body changes nothing but its own temporaries and the monotone ghost
    flags (diagnostics emitted) is summarised exactly: the elements are those of the iterator, each iteration is
    executed once on an arbitrary element.  Loops with other effects need an invariant (invs)."""
    wants_outs = True

    def __init__(self, invs=(), flags=('errors',)):
        self.invs, self.flags = list(invs), flags

    def iterator_local(self, fr, bb, body):
        fn = fr['fn']
        inner = [b for h, b in fr['heads'].items() if h != bb and h in body and b < body]
        for b in sorted(body):
            if any(b in x for x in inner):
                continue
            t = fn.blocks[b].term
            if t and t.kind == 'call' and re.fullmatch(r'<.* as Iterator>::next', callee_key(t.d['callee'])):
                a = t.d['args'][0]
                for s in fn.blocks[b].stmts:
                    if s.kind == 'assign' and s.place.local == a.place.local and s.rv[0] == 'refmut':
                        return s.rv[1].local
        return None

    def __call__(self, eng, fr, st, bb, body, seen, outs):
        from loops import assigned_locals
        loc = self.iterator_local(fr, bb, body)
        for inv in self.invs:
            if inv.applies(eng, fr, st, bb, body, loc):
                return inv.run(eng, fr, st, bb, body, seen, outs, loc)
        if loc is None:
            raise Unsupported(f'loop without invariant in {fr["fn"].name}')
        # locals holding a truth value on entry: flags that are set in the loop
        keys = []
        for l in assigned_locals(fr['fn'], body, borrowed=False):
            v = st.mem.get(fr['cells'][l])
            if z3.is_expr(v) and z3.is_bool(v):
                v = z3.simplify(v)
                keys.append(('notbool' if z3.is_true(v) else 'bool', fr['cells'][l]))
        if keys:
            n = len(outs)
            try:
                return self.attempt(eng, fr, st, bb, body, seen, outs, loc, keys)
            except Unsupported:
                del outs[n:]
        return self.attempt(eng, fr, st, bb, body, seen, outs, loc, [])

    def attempt(self, eng, fr, st, bb, body, seen, outs, loc, keys):
        while True:
            n = len(outs)
            try:
                return self.summarise(eng, fr, st, bb, body, seen, outs, loc, keys)
            except Effects as e:
                del outs[n:]
                new = [k for k in effect_keys(e) if k not in keys]
                if not new:
                    raise
                keys = keys + new

    def summarise(self, eng, fr, st, bb, body, seen, outs, loc, keys):
        from loops import assigned_locals
        cell = fr['cells'][loc]
        it = st.mem.get(cell)
        if isinstance(it, Ref):
            c, p, it = place_of(eng, st, it)
            if p != ():
                raise Unsupported('iterator in a field')
            cell = c
        if not isinstance(it, It):
            raise Unsupported(f'loop over {it!r}')
        tmps = [l for l in assigned_locals(fr['fn'], body, borrowed=False) if fr['cells'][l] != cell]
        conts = []
        done = []            # conditions: every element of the earlier parts continues
        flag0 = {('ghost', f): st.ghost[f] for f in self.flags if f in st.ghost}
        flag0.update({k: flag_of(eng, st, k) for k in keys})
        grown = {k[1] for k in keys if k[0] != 'ghost'}
        tmps = [l for l in tmps if fr['cells'][l] not in grown]
        for fam in it.fams:
            bs = binders(eng, fam)
            s = under(st, bs)
            for l in tmps:
                c = fr['cells'][l]
                if c in s.mem and not self.carried(fr, l, body):
                    del s.mem[c]
            fl = {}
            for f in flag0:
                fl[f] = z3.Bool(eng.fresh_name('flag'))
                set_flag(eng, s, f, fl[f], [])
            g = fam.guard(eng, s, bs)
            s.assume(g)
            n0 = len(s.pc)
            s.mem[cell] = ItAt(it, fam, bs)
            start = s.copy()
            inner = []
            leaves = eng.exec(fr, [(s, bb, seen)], inner, bb, body)
            backs = [x for x in leaves if x[0] == 'back']
            cs, em = [], {f: [] for f in flag0}
            for _, sb, _, _ in backs:
                ch = [c for c in changed_cells(eng, start, sb) if c != cell and c not in grown and c not in {fr['cells'][l] for l in tmps if not self.carried(fr, l, body)}]
                if ch:
                    for c in ch:
                        v = start.mem[c]
                        if not growable(v):
                            raise Unsupported(f'loop body changes {self.names(fr, ch)}; needs an invariant')
                    raise Effects(ch, [])
                c = z3.And(conds(eng, sb.pc, n0) or [z3.BoolVal(True)])
                cs.append(c)
                for f in flag0:
                    e = z3.simplify(z3.substitute(flag_of(eng, sb, f), (fl[f], z3.BoolVal(False))))
                    mono = z3.simplify(z3.substitute(flag_of(eng, sb, f), (fl[f], z3.BoolVal(True))))
                    if not z3.is_true(mono):
                        raise Unsupported('ghost flag is not monotone')
                    if z3.simplify(z3.substitute(c, (fl[f], z3.BoolVal(False)))).get_id() != z3.simplify(c).get_id():
                        raise Unsupported('control flow depends on a ghost flag')
                    em[f].append(z3.And(c, e))
            for o in inner:
                if o.kind == 'panic':
                    eng.panics.add(o.msg)
                elif o.kind == 'ret':
                    conts.append(('ret', o.st, fam, bs, g, cs, list(done), fl, em))
            for k, se, b2, sn in leaves:
                if k == 'exit':
                    conts.append(('exit', se, fam, bs, g, cs, list(done), fl, em, b2, sn))
            allc = z3.simplify(z3.Or(cs)) if cs else z3.BoolVal(False)
            fresh_check(eng, z3.And([g, allc] + [x for f in em for x in em[f]]), bs)
            pts = {k: iteration_parts(eng, k, fam, bs, g, [sb for _, sb, _, _ in backs], n0) for k in keys if k[0] == 'cell'}
            done.append((fam, bs, g, allc, em, pts))
        work = []
        # exits in the middle
        for c in conts:
            kind, se, fam, bs, g, cs, prev, fl, em = c[:9]
            s = se.copy()
            s.ghost['scope'] = st.ghost.get('scope', ())
            if 'scope' not in st.ghost:
                s.ghost.pop('scope', None)
            for pf, pbs, pg, pc, pem, _ in prev:
                s.assume(forall(pbs, z3.Implies(pg, pc)))
            bs2 = [eng.binder(b.sort()) for b in bs]
            bf = before(fam, bs2, bs)
            sub = list(zip(bs, bs2))
            S = (lambda e: z3.substitute(e, *sub)) if sub else (lambda e: e)
            if bf is not None and bs:
                s.assume(forall(bs2, z3.Implies(z3.And(S(g), bf), S(z3.simplify(z3.Or(cs)) if cs else z3.BoolVal(False)))))
            for f in flag0:
                parts = [flag0[f]]
                for pf, pbs, pg, pc, pem, _ in prev:
                    parts.append(exists(pbs, z3.And(pg, z3.Or(pem[f]))) if pem[f] else z3.BoolVal(False))
                if em[f] and bs:
                    if bf is None:
                        unk = z3.Bool(eng.fresh_name('lossy!earlier'))
                        s.assume(z3.Implies(unk, exists(bs2, z3.And(S(g), S(z3.Or(em[f]))))))
                        parts.append(unk)
                    else:
                        parts.append(exists(bs2, z3.And(S(g), bf, S(z3.Or(em[f])))))
                set_flag(eng, s, f, z3.substitute(flag_of(eng, s, f), (fl[f], z3.Or(parts))))
            # the binders become witnesses of the element at which the loop is left
            for b in bs:
                eng.witness[b.get_id()] = b
            if kind == 'ret':
                fr_out = Outcome('ret', s, conts and c[1].mem.get(fr['cells']['_0']))
                outs.append(fr_out)
            else:
                s.mem[cell] = ItUsed(it)
                work.append((s, c[9], seen))
        # exhausted
        s = st.copy()
        others = bool(conts)
        new = {k: [] for k in keys if k[0] == 'cell'}
        for fam, bs, g, allc, em, pts in done:
            for k in new:
                new[k] = new[k] + pts[k] if new[k] is not None and pts[k] is not None else None
            if others or eng.panics:
                s.assume(forall(bs, z3.Implies(g, allc)))
            for f in flag0:
                if em[f]:
                    set_flag(eng, s, f, z3.simplify(z3.Or(flag_of(eng, s, f), exists(bs, z3.And(g, z3.Or(em[f]))))))
        for k, ps in new.items():
            v = st.mem[k[1]]
            if isinstance(v, Grow):
                ps, base = v.more(ps) if ps is not None else None, v.base
            else:
                base = v.t
            s.mem[k[1]] = Grow(flag_of(eng, s, k), v.ty, ps, base)
        for l in tmps:
            c = fr['cells'][l]
            if c in s.mem and not self.carried(fr, l, body):
                del s.mem[c]
        s.mem[cell] = ItEnd(it)
        inner = []
        for k, se, b2, sn in eng.exec(fr, [(s, bb, seen)], inner, bb, body):
            if k == 'back':
                raise Unsupported('loop does not stop at the end of its iterator')
            work.append((se, b2, seen))
        outs.extend(inner)
        return work

    def names(self, fr, cells):
        inv = {c: l for l, c in fr['cells'].items()}
        return [inv.get(c, c) for c in cells]

    def carried(self, fr, l, body):
        """is the local read before being written in an iteration?  (then its value at entry matters)"""
        return l == '_0'


class ForInv:
    """invariant for a loop over an iterator with effects.
    match(eng, fr, st, it) -> bool; modifies(eng, fr, st) -> list of cells;
    inv(eng, fr, st, it, pos) -> Bool where pos is the number of elements done (indexed iterators) or a term V with
    map.has(V, key) for the keys done (map iterators)."""

    def __init__(self, inv, modifies=None, match=None, sink=None, name='loop', ghosts=()):
        self.inv, self.modifies, self.match, self.sink, self.name, self.ghosts = inv, modifies, match, sink, name, ghosts

    def applies(self, eng, fr, st, bb, body, loc):
        if loc is None:
            return False
        it = st.mem.get(fr['cells'][loc])
        if isinstance(it, Ref):
            it = place_of(eng, st, it)[2]
        return isinstance(it, It) and (self.match is None or self.match(eng, fr, st, it))

    def run(self, eng, fr, st, bb, body, seen, outs, loc):
        from loops import assigned_locals
        cell = fr['cells'][loc]
        it = st.mem[cell]
        if isinstance(it, Ref):
            c, p, it = place_of(eng, st, it)
            cell = c
        if len(it.fams) != 1 or len(it.fams[0].sorts) != 1:
            raise Unsupported('invariant over a composite iterator')
        fam = it.fams[0]
        indexed = fam.n is not None
        start = z3.IntVal(0) if indexed else MEMPTY
        self.sink.append((f'{self.name}: invariant holds on entry', list(st.pc), self.inv(eng, fr, st, it, start), eng.axioms()))
        tmps = assigned_locals(fr['fn'], body)

        def havoc(s):
            for l in tmps:
                c = fr['cells'][l]
                if c == cell or c not in s.mem or l == '_0':
                    continue
                v = s.mem[c]
                if isinstance(v, (Ref, Lib)):
                    del s.mem[c]
                else:
                    s.mem[c] = eng.fresh(eng.local_ty(fr, l), s, 'h' + l)
            for c in (self.modifies(eng, fr, s) if self.modifies else []):
                v = s.mem[c]
                ty = v.ty if isinstance(v, (Opq, Agg)) else None
                if ty is None:
                    raise Unsupported('type of a modified place')
                s.mem[c] = eng.fresh(ty, s, 'h')
            for g in self.ghosts:
                s.ghost[g] = z3.Const(eng.fresh_name('g'), s.ghost[g].sort())
        # arbitrary iteration
        s = st.copy()
        havoc(s)
        k = z3.Const(eng.fresh_name('pos'), INT if indexed else U)
        if indexed:
            s.assume(z3.And(0 <= k, k < fam.n))
            b = k
            nxt = k + 1
        else:
            b = z3.Const(eng.fresh_name('key'), U)
            x = z3.Const('x', U)
            s.assume(z3.And(fam.guard(eng, s, [b]), z3.Not(HAS(k, b))))
            bb_ = eng.binder(U)
            s.assume(z3.ForAll([bb_], z3.Implies(HAS(k, bb_), fam.guard(eng, s, [bb_])), patterns=[HAS(k, bb_)]))
            nxt = INS(k, b, UNIT)
        s.assume(self.inv(eng, fr, s, it, k))
        s.mem[cell] = ItAt(it, fam, [b])
        base = s.copy()
        inner = []
        work = []
        for kind, sb, b2, sn in eng.exec(fr, [(s, bb, seen)], inner, bb, body):
            if kind == 'back':
                ch = [c for c in changed_cells(eng, base, sb) if c != cell and c not in {fr['cells'][l] for l in tmps} and
                      c not in (self.modifies(eng, fr, st) if self.modifies else [])]
                if ch:
                    inv = {c: l for l, c in fr['cells'].items()}
                    raise Unsupported(f'loop body changes {[inv.get(c, c) for c in ch]}, outside of its frame')
                for g, x in sb.ghost.items():
                    if g not in self.ghosts and g not in ('scope', 'must') and base.ghost.get(g) is not x:
                        raise Unsupported(f'loop changes the ghost state {g}')
                self.sink.append((f'{self.name}: invariant preserved', list(sb.pc), self.inv(eng, fr, sb, it, nxt), eng.axioms()))
            else:
                sb.mem[cell] = ItUsed(it)
                work.append((sb, b2, seen))
        outs.extend(inner)
        # exhausted
        s = st.copy()
        havoc(s)
        if indexed:
            end = fam.n
            eng.fact(s, fam.n >= 0)
        else:
            end = z3.Const(eng.fresh_name('all'), U)
            bb_ = eng.binder(U)
            s.assume(z3.ForAll([bb_], HAS(end, bb_) == fam.guard(eng, s, [bb_]), patterns=[HAS(end, bb_)]))
        s.assume(self.inv(eng, fr, s, it, end))
        s.mem[cell] = ItEnd(it)
        inner = []
        for kind, se, b2, sn in eng.exec(fr, [(s, bb, seen)], inner, bb, body):
            if kind == 'back':
                raise Unsupported('loop does not stop at the end of its iterator')
            work.append((se, b2, seen))
        outs.extend(inner)
        return work


class WhileInv:
    """invariant and variant for a loop that is not driven by an iterator.
    modifies(eng, fr, st) -> [cells] or None if the contract does not apply to this loop; inv(eng, fr, st) -> Bool;
    variant(eng, fr, st) -> Int; ghosts not named in `ghosts` must be unchanged at the back edge."""

    def __init__(self, inv, modifies, variant=None, sink=None, name='loop', ghosts=()):
        self.inv, self.modifies, self.variant, self.sink, self.name, self.ghosts = inv, modifies, variant, sink, name, ghosts

    def applies(self, eng, fr, st, bb, body, loc):
        return loc is None and self.modifies(eng, fr, st) is not None

    def run(self, eng, fr, st, bb, body, seen, outs, loc):
        from loops import assigned_locals
        self.sink.append((f'{self.name}: invariant holds on entry', list(st.pc), self.inv(eng, fr, st), eng.axioms()))
        s = st.copy()
        tmps = assigned_locals(fr['fn'], body)
        mod = self.modifies(eng, fr, s)
        for l in tmps:
            c = fr['cells'][l]
            if c not in s.mem or l == '_0' or c in mod:
                continue
            v = s.mem[c]
            if isinstance(v, (Ref, Lib)):
                del s.mem[c]
            else:
                s.mem[c] = eng.fresh(eng.local_ty(fr, l), s, 'h' + l)
        for c in mod:
            v = s.mem[c]
            ty = v.ty if isinstance(v, (Opq, Agg)) else None
            if ty is None:
                raise Unsupported('type of a modified place')
            s.mem[c] = eng.fresh(ty, s, 'h')
        for g in self.ghosts:
            s.ghost[g] = z3.Const(eng.fresh_name('g'), s.ghost[g].sort())
        s.assume(self.inv(eng, fr, s))
        v0 = self.variant(eng, fr, s) if self.variant else None
        base = s.copy()
        inner, work = [], []
        for kind, sb, b2, sn in eng.exec(fr, [(s, bb, seen)], inner, bb, body):
            if kind != 'back':
                work.append((sb, b2, seen))
                continue
            ch = [c for c in changed_cells(eng, base, sb) if c not in mod and c not in {fr['cells'][l] for l in tmps}]
            if ch:
                inv = {c: l for l, c in fr['cells'].items()}
                raise Unsupported(f'loop body changes {[inv.get(c, c) for c in ch]}, outside of its frame')
            for g, x in sb.ghost.items():
                if g not in self.ghosts and g not in ('scope', 'must') and base.ghost.get(g) is not x:
                    raise Unsupported(f'loop changes the ghost state {g}')
            self.sink.append((f'{self.name}: invariant preserved', list(sb.pc), self.inv(eng, fr, sb), eng.axioms()))
            if self.variant:
                v1 = self.variant(eng, fr, sb)
                self.sink.append((f'{self.name}: variant decreases', list(sb.pc), z3.And(0 <= v0, v1 < v0), eng.axioms()))
        outs.extend(inner)
        return work
