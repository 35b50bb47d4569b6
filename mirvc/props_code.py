"""C20: the generated items carry the resolved definitions"""
import os, re
import z3
from mir import *
from engine import *
import coll as C
import texts as T
import tokens as K
from coll import AT, LEN, HAS, GET
from props_lib import FnContract, lean
from props_us import us_engine, us_prog, method, function, outcomes, us_vocab, key_re, term_contract, Names, CFGS, INT, REAL, BOOL, exponent, E_, fields_of, dam_fields
import props_res as RS
import props_us as US
from props_res import IDENT, ITEM, Storage, KIND
from tokens import Tok, read, cases, element

P_, D_ = Names.p, Names.d
RNUM, RDEN = uf('ratio.num', U, INT), uf('ratio.denom', U, INT)
RAT = uf('ratio.value', U, REAL)
FROM_ITEM = {'Dimension': ('Dimension',), 'Unit': ('Unit', 'BaseUnit'), 'Constant': ('Constant',)}


def voc(n):
    return us_vocab(n) or T.text_vocab(n) or K.tok_vocab(n)


# ------------------------------------------------------------------ items of a kind
def impl_fn(P, trait, ty, name):
    out = [x for x in P.by_last.get(name, []) for i in [P.impl_of(x.name)] if i and i.trait is not None and i.trait.last == trait and i.ty.kind == 'path' and i.ty.last == ty and '{closure' not in x.name]
    if len(out) != 1:
        raise Unsupported(f'anchor <{ty} as {trait}>::{name} not found')
    return out[0]


def c20_from_item(ck, P, cfg):
    for ty, kinds in FROM_ITEM.items():
        fn = f'<{ty} as FromItem>::is_correct_kind [{cfg}]'

        def kind():
            N = Names(P)
            kv = N.variants('Kind', 'Dimension', 'BaseUnit', 'Unit', 'Constant')
            eng = us_engine(P, cfg)
            st = State(eng)
            k = z3.Const('kind', U)
            st.assume(z3.And(D_(k) >= 0, D_(k) < len(kv)))
            for o in outcomes(ck, eng, fn, impl_fn(P, 'FromItem', ty, 'is_correct_kind'), [Opq(k, Ty('path', 'Kind'))], st):
                ck.prove(fn, 'exactly the definitions of this kind', o.st.pc, eng.deref_all(o.val, o.st) == z3.Or([D_(k) == kv.index(n) for n in kinds]), eng.axioms(), vocab=voc)
        ck.guard(fn, kind)
        fn2 = f'<{ty} as FromItem>::from_item_and_dimensions [{cfg}]'

        def conv():
            N = Names(P)
            eng = us_engine(P, cfg)
            st = State(eng)
            it, d = z3.Const('it', U), z3.Const('d', U)
            st.assume(N.wf_item(it))
            st.assume(N.item_is(it, ty))
            fs = [n for n, _ in P.struct_fields(ty)]
            di, mi = dam_fields(P)
            en = N.item_entry(it, ty)
            want = {'name': N.item_name(it), 'dimensions': P_(d, di), 'magnitude': P_(d, mi), 'symbol': P_(en, N.usym)}
            for o in outcomes(ck, eng, fn2, impl_fn(P, 'FromItem', ty, 'from_item_and_dimensions'), [Opq(it, ITEM), Opq(d, Ty('path', 'DimensionsAndMagnitude'))], st):
                r = eng.to_u(o.val, o.st)
                for i, n in enumerate(fs):
                    if n == 'is_base_unit':
                        ck.prove(fn2, 'a base unit exactly if its definition is one', o.st.pc, uf('bool', U, BOOL)(P_(r, i)) == N.base_unit(it), eng.axioms(), vocab=voc)
                    elif n in want:
                        ck.prove(fn2, f'{n}: that of the definition' if n in ('name', 'symbol') else f'{n}: the resolved one', o.st.pc, P_(r, i) == want[n], eng.axioms(), vocab=voc)
                    else:
                        raise Unsupported(f'{ty} has a further field {n}')
        ck.guard(fn2, conv)


# ------------------------------------------------------------------ generated tokens
def code_engine(P, cfg, contracts=()):
    def num(f, n):
        def spec(eng, st, args):
            t = eng.to_u(eng.deref_all(args[0], st), st)
            eng.fact(st, z3.And(RDEN(t) > 0, RAT(t) * z3.ToReal(RDEN(t)) == z3.ToReal(RNUM(t))))
            return f(t)
        return FnContract(f'Ratio::{n} (C03)', key_re(rf'Ratio::{n}'), spec)
    eng = us_engine(P, cfg, list(contracts) + [num(RNUM, 'num'), num(RDEN, 'denom')], models=K.TOKENS + T.TEXTS)
    K.install(eng)
    return eng


def opaque_parts(names):
    """the other generators: some tokens, determined by the definitions"""
    return [FnContract(f'Codegen::{n}', key_re(rf'(?:\w+::)*(?:<impl (?:\w+::)*Codegen>|Codegen)::{n}'), lambda eng, st, args, n=n: K.stream(uf('gen.' + n, U, U)(eng.to_u(eng.deref_all(args[0], st), st)))) for n in names]


class Code:
    """field positions of the definitions handed to the generator"""

    def __init__(self, P):
        def idx(ty):
            return {n: i for i, (n, _) in enumerate(P.struct_fields(ty))}
        self.cg, self.defs = idx('Codegen'), idx('Defs')
        self.mag = None
        self.g = z3.Const('codegen', U)
        self.d = P_(self.g, self.cg['defs'])
        self.idx = idx

    def part(self, n):
        return P_(self.d, self.defs[n])

    def arg(self, st):
        return Ref(st.cell(Opq(self.g, Ty('path', 'Codegen'))))


def split(toks, sep):
    """top level parts; angle brackets nest (a shift token counts twice)"""
    out, cur, depth = [], [], 0
    for x in toks:
        if x.kind == 'p':
            depth += {'<': 1, '<<': 2, '>': -1, '>>': -2}.get(x.v, 0)
        if x.is_(sep) and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + ([cur] if cur else [])


def unbrace(toks):
    while len(toks) == 1 and toks[0].kind == 'g' and toks[0].v in ('{', '(', ''):
        toks = toks[0].inner
    return toks


def generic_args(toks):
    """the arguments of NAME < .. >, and what follows"""
    i = 0
    while i < len(toks) and not toks[i].is_('<'):
        i += 1
    if i == len(toks):
        raise Unsupported('no type arguments')
    depth, j = 0, i
    while j < len(toks):
        if toks[j].kind == 'p':
            depth += {'<': 1, '<<': 2, '>': -1, '>>': -2}.get(toks[j].v, 0)
            if toks[j].v in ('>', '>>', '>=', '>>=') and depth <= 0 or toks[j].v == '>=' and depth == 1:
                break
        j += 1
    return toks[:i], split(toks[i + 1:j], ','), toks[j + 1:]


def number(toks):
    """the integer a literal denotes"""
    toks = unbrace(toks)
    if len(toks) == 2 and toks[0].is_('-'):
        return -number(toks[1:])
    if len(toks) == 1 and toks[0].kind == 'int':
        return toks[0].v
    if len(toks) == 1 and toks[0].kind == 'w' and re.fullmatch(r'\d[\d_]*(?:[iu]\d+)?', toks[0].v):
        return z3.IntVal(int(re.match(r'[\d_]+', toks[0].v).group(0).replace('_', '')))
    raise Unsupported(f'number {toks}')


def exponent_value(toks):
    """the rational number an exponent expression denotes, and what has to hold for it to denote one"""
    toks = unbrace(toks)
    if len(toks) == 4 and toks[0].is_('Exponent', 'Ratio') and toks[1].is_('::') and toks[3].kind == 'g':
        args = split(toks[3].inner, ',')
        if toks[2].is_('new') and len(args) == 2:
            n, d = number(args[0]), number(args[1])
            return z3.ToReal(n) / z3.ToReal(d), d != 0
        if toks[2].is_('int') and len(args) == 1:
            return z3.ToReal(number(args[0])), z3.BoolVal(True)
    return z3.ToReal(number(toks)), z3.BoolVal(True)


def read_magnitude(toks):
    """{mantissa, exponent, sign} of a Magnitude literal"""
    toks = unbrace(toks)
    while len(toks) > 2 and toks[1].is_('::'):
        toks = toks[2:]
    if len(toks) != 2 or not toks[0].is_('Magnitude') or toks[1].kind != 'g':
        raise Unsupported(f'magnitude {toks}')
    out = {}
    for e in split(toks[1].inner, ','):
        if len(e) < 3 or e[0].kind != 'w' or not e[1].is_(':'):
            raise Unsupported('magnitude literal')
        out[e[0].v] = number(e[2:])
    return out


class Dim:
    """a dimension literal: streams of entries (binders, guard, state, field, value), and whether the rest is zero"""

    def __init__(self, eng, code, toks):
        toks = unbrace(toks)
        if len(toks) != 2 or toks[1].kind != 'g' or not (toks[0].kind == 'id' and toks[0].v.eq(code.part('dimension_type')) or toks[0].is_('Dimension')):
            raise Unsupported(f'dimension {toks}')
        self.named = toks[0].kind == 'id'
        inner = toks[1].inner
        self.entries, self.update = [], False
        for x in inner:
            if x.kind != 'concat':
                break
            for bs, g, st, ts, fam in element(eng, x):
                for cs, ts in cases(ts):
                    for e in split(ts, ','):
                        if len(e) < 3 or e[0].kind != 'id' or not e[1].is_(':'):
                            raise Unsupported(f'dimension entry {e}')
                        v, ok = exponent_value(e[2:])
                        self.entries.append((bs, z3.And(g, *cs), st, e[0].v, v, ok))
            inner = inner[1:]
        if inner:
            if not (len(inner) == 5 and inner[0].is_('..') and inner[1].kind == 'id' and inner[1].v.eq(code.part('dimension_type')) and inner[2].is_('::') and inner[3].is_('none')
                    and inner[4].kind == 'g' and not inner[4].inner):
                raise Unsupported(f'rest of a dimension {inner}')
            self.update = True


def flatten(toks):
    for x in toks:
        yield x
        if x.kind == 'g' and x.v != '(':
            yield from flatten(x.inner)


def item_streams(toks, start):
    """concatenations in a (possibly nested) stream whose elements begin an item"""
    return [x for x in flatten(toks) if x.kind == 'concat']


def skip_attrs(toks):
    while len(toks) >= 2 and toks[0].is_('#') and toks[1].kind == 'g':
        toks = toks[2:]
    return toks


def body_of(toks, mod):
    """contents of `pub mod NAME { .. }`, once at the top level"""
    out = [toks[i + 2].inner for i in range(len(toks) - 2) if toks[i].is_('mod') and toks[i + 1].is_(mod) and toks[i + 2].kind == 'g' and i and toks[i - 1].is_('pub')]
    if len(out) != 1:
        raise Unsupported(f'module {mod}')
    return out[0]


def items_of(toks):
    """the contents of a module: use declarations and one concatenation of items"""
    cc = []
    toks = list(toks)
    while toks:
        toks = skip_attrs(toks)
        if not toks:
            break
        if toks[0].kind == 'concat':
            cc.append(toks[0])
            toks = toks[1:]
        elif toks[0].is_('use') or toks[0].is_('pub') and len(toks) > 1 and toks[1].is_('use'):
            while toks and not toks[0].is_(';'):
                toks = toks[1:]
            toks = toks[1:]
        else:
            raise Unsupported(f'item {toks[:4]}')
    if len(cc) != 1:
        raise Unsupported('not one list of items')
    return cc[0]


class Stream:
    """proof obligations about a stream of items, one for every element of a list of definitions"""

    def __init__(self, ck, fn, eng, P, cfg, code, o, lst, ty):
        self.__dict__.update(locals())
        self.f = code.idx(ty)

    def prove(self, st, what, hyps, goal):
        self.ck.prove(self.fn, what, st.pc + list(hyps), goal, self.eng.axioms(), vocab=voc)

    def run(self, cc):
        els = element(self.eng, cc)
        n = 0
        i = z3.Int('i0')
        if len(els) != 1:
            raise Unsupported('several lists')
        bs, g, st, toks, fam = els[0]
        if len(bs) != 1 or fam.n is None or bs[0].sort() != INT:
            # filtered: every definition must get through
            if len(bs) == 1 and bs[0].sort() == INT:
                self.prove(self.o.st, 'one item for every definition', [0 <= i, i < LEN(self.lst)], z3.substitute(g, (bs[0], i)))
                self.prove(self.o.st, 'and no others', [g], z3.And(0 <= bs[0], bs[0] < LEN(self.lst)))
            else:
                raise Unsupported('order of the items')
        else:
            self.prove(self.o.st, 'as many items as definitions', [], LEN(self.lst) == fam.n)
        x = AT(self.lst, bs[0])
        for cs, ts in cases(toks):
            self.item(st, [g] + cs, ts, x)

    def item(self, st, hyps, toks, x):
        toks = skip_attrs(toks)
        if not (len(toks) > 3 and toks[0].is_('pub') and toks[-1].is_(';')):
            raise Unsupported(f'item {toks}')
        if self.ty == 'Dimension':
            if not (toks[1].is_('type') and toks[2].kind == 'id'):
                raise Unsupported(f'alias {toks}')
            name = toks[2].v
            _, params, rest = generic_args(toks[:-1])
            if not (len(params) == 1 and len(params[0]) == 1 and rest and rest[0].is_('=')):
                raise Unsupported('parameters of an alias')
            head, args, tail = generic_args(rest[1:])
            if tail or len(args) != 2 or not (args[0][0].kind == params[0][0].kind == 'w' and args[0][0].v == params[0][0].v):
                raise Unsupported('alias')
            head = [h for h in head if not h.is_('::')]
            if len(head) != 1 or head[0].kind != 'id':
                raise Unsupported('alias')
            self.prove(st, 'an alias of the quantity type', hyps, head[0].v == self.code.part('quantity_type'))
            dim, mag = args[1], None
        else:
            if not (toks[1].is_('const') and toks[2].kind == 'id' and toks[3].is_(':')):
                raise Unsupported(f'constant {toks}')
            name = toks[2].v
            head, args, tail = generic_args(toks[4:-1])
            if [h.v for h in head if not h.is_('::')] != ['Unit'] or len(args) != 2 or len(tail) < 2 or not tail[0].is_('=') or not tail[1].is_('Unit'):
                raise Unsupported(f'constant {toks}')
            dim, mag = args
        self.prove(st, 'carries the name of the definition', hyps, name == P_(x, self.f['name']))
        if mag is not None:
            got = read_magnitude(mag)
            m = P_(x, self.f['magnitude'])
            mf = ['mantissa', 'exponent', 'sign']
            if set(got) != set(mf):
                raise Unsupported('fields of a magnitude')
            for k, f in enumerate(mf):
                self.prove(st, f'magnitude: {f}', hyps, got[f] == uf('int', U, INT)(P_(m, k)))
        self.dimension(st, hyps, Dim(self.eng, self.code, dim), P_(x, self.f['dimensions']))

    def dimension(self, st, hyps, d, want):
        """for every base dimension: the exponent of the literal is the resolved one"""
        fs = fields_of(self.P, want)
        b = z3.Const('b0', U)
        inside = []
        for bs, g, s2, field, v, ok in d.entries:
            if len(bs) != 1:
                raise Unsupported('entries')
            key = bs[0]
            if key.sort() != U:
                raise Unsupported('entries not by base dimension')
            self.ck.prove(self.fn, 'every exponent written is that of a base dimension of the definition', s2.pc + hyps + [g, z3.Not(z3.And(v == 0, ok))], z3.And(HAS(fs, key), field == P_(key, 0)), self.eng.axioms(), vocab=voc)
            self.ck.prove(self.fn, 'exponents are the resolved ones', s2.pc + hyps + [g], z3.And(ok, v == E_(self.cfg, fs, key)), self.eng.axioms(), vocab=voc)
            inside.append((key, g, s2))
        # every base dimension with a non-zero exponent is written
        written = z3.Or([z3.substitute(g, (k, b)) for k, g, _ in inside]) if inside else z3.BoolVal(False)
        self.prove(st, 'every non-zero exponent is written', hyps + [E_(self.cfg, fs, b) != 0], written)
        if len(inside) > 1:
            raise Unsupported('several lists of entries')
        if not d.update:
            # the literal has to name every base dimension of the system
            base = self.code.part('base_dimensions')
            i = z3.Int('i!f')
            self.prove(st, 'without a rest every base dimension is written', hyps + pigeonhole(fs, base) + [of_system(fs, base), 0 <= i, i < LEN(base)], z3.substitute(written, (b, AT(base, i))))


def pigeonhole(m, s):
    """as many keys as the list has entries, and all of them in the list: every entry of the list is a key
    (lemmas/Pigeonhole.lean)"""
    i, i2, k = z3.Int('i!q'), z3.Int('i!r'), z3.Const('k!q', U)
    inside = z3.ForAll([k], z3.Implies(HAS(m, k), z3.Exists([i2], z3.And(0 <= i2, i2 < LEN(s), AT(s, i2) == k))))
    return [z3.Implies(z3.And(inside, uf('map.len', U, INT)(m) >= LEN(s)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < LEN(s)), HAS(m, AT(s, i))), patterns=[AT(s, i)]))]


def of_system(m, s):
    """a resolved dimension mentions base dimensions of the system only (c20_keys, by induction in the order of resolution)"""
    k, inv = z3.Const('k!s', U), uf('spec.position', U, U, INT)
    return z3.ForAll([k], z3.Implies(HAS(m, k), z3.And(0 <= inv(s, k), inv(s, k) < LEN(s), AT(s, inv(s, k)) == k)), patterns=[HAS(m, k)])


def c20_code(ck, P, cfg):
    for meth, mods in (('gen_units_and_constants', (('units', 'units', 'Unit'), ('constants', 'constants', 'Constant'))), ('gen_dimensions', (('dimensions', 'dimensions', 'Dimension'),))):
        fn = f'Codegen::{meth} [{cfg}]'

        def go():
            code = Code(P)
            eng = code_engine(P, cfg, opaque_parts(['gen_unit_type']))
            st = State(eng)
            for o in outcomes(ck, eng, fn, method(P, 'Codegen', meth), [code.arg(st)], st, vocab=voc):
                toks = read(eng.to_u(o.val, o.st))
                for mod, lst, ty in mods:
                    Stream(ck, f'Codegen::{meth}, module {mod} [{cfg}]', eng, P, cfg, code, o, code.part(lst), ty).run(items_of(body_of(toks, mod)))
        ck.guard(fn, go)


def c20_keys(ck, P, cfg):
    """a resolved definition mentions base dimensions of the system only (what the .. rest of a dimension literal relies on)"""
    US.c11_dims(ck, P, cfg, keys=True)


PARSE, EXPAND, RESOLVE, CODEGEN = uf('spec.parse', U, U), uf('spec.expand_templates', U, U), uf('spec.resolve', U, U), uf('spec.code_gen', U, U)


def gens(P):
    """the generators code_gen puts together: methods of Codegen that give a token stream from the definitions alone"""
    out = []
    for xs in P.by_last.values():
        for x in xs:
            i = P.impl_of(x.name)
            if '{closure' not in x.name and i and i.trait is None and i.ty.kind == 'path' and i.ty.last == 'Codegen' and x.name.split('::')[-1] != 'code_gen' and len(x.args()) == 1 \
                    and x.ret().kind == 'path' and x.ret().last == 'TokenStream':
                out.append(x.name.split('::')[-1])
    return sorted(set(out))


def c20_whole(ck, P, cfg):
    fn = f'Codegen::code_gen [{cfg}]'

    def code():
        eng = code_engine(P, cfg, opaque_parts(gens(P)))
        st = State(eng)
        code = Code(P)
        for o in outcomes(ck, eng, fn, method(P, 'Codegen', 'code_gen'), [code.arg(st)], st, vocab=voc):
            parts = [x.v for x in read(eng.to_u(o.val, o.st)) if x.kind == 'opq']
            for n in ('gen_dimensions', 'gen_units_and_constants'):
                ck.prove(fn, f'the output contains what {n} generates, once', o.st.pc, z3.BoolVal(sum(p.eq(uf('gen.' + n, U, U)(code.g)) for p in parts) == 1), eng.axioms(), vocab=voc)
    ck.guard(fn, code)

    fn2 = f'run_unit_system [{cfg}]'

    def whole():
        DEFS = Ty('path', 'Defs')
        def parse(eng, st, args):
            t = PARSE(eng.to_u(args[0], st))
            return Opq(t, parse_ty('Result<Unresolved<UnitTemplate>, syn::Error>'))

        def gen(eng, st, args):
            return K.stream(CODEGEN(eng.to_u(eng.deref_all(args[0], st), st)))
        ident = lambda eng, st, args: args[0]
        cs = [FnContract('syn::parse (the parser itself is checked against the text natively)', key_re(r'(?:syn::)?parse<.*>'), parse),
              term_contract('UnresolvedTemplates::expand_templates (C15)', r'(?:Unresolved<.*>|UnresolvedTemplates)::expand_templates', EXPAND, parse_ty('Unresolved<UnitEntry>')),
              term_contract('UnresolvedDefs::resolve (C12, C13)', r'(?:Unresolved<.*>|UnresolvedDefs)::resolve', RESOLVE, DEFS),
              FnContract('Codegen::code_gen (above)', key_re(r'Codegen::code_gen'), gen),
              FnContract('proc_macro2::TokenStream <-> proc_macro::TokenStream', key_re(r'<(?:\w+::)*TokenStream as (?:\w+::)*(?:Into|From)<(?:\w+::)*TokenStream>>::(?:into|from)'), ident),
              term_contract('syn::Error::to_compile_error', r'(?:syn::)?Error::(?:to|into)_compile_error', uf('spec.compile_error', U, U), K.STREAM)]
        eng = us_engine(P, cfg, cs)
        st = State(eng)
        src, ct = z3.Const('source', U), z3.Const('caller', U)
        f = [n for n, _ in P.struct_fields('Codegen')]
        ok = z3.BoolVal(False)
        for o in outcomes(ck, eng, fn2, function(P, 'run_unit_system'), [Opq(src, Ty('path', 'TokenStream')), Opq(ct, Ty('path', 'CallerType'))], st, vocab=voc):
            t = PARSE(src)
            defs = RESOLVE(EXPAND(P_(t, 0) if False else uf('Ok.0', U, U)(t)))
            parts = [None] * len(f)
            parts[f.index('defs')], parts[f.index('caller_type')] = Opq(defs, DEFS), Opq(ct, Ty('path', 'CallerType'))
            want = CODEGEN(eng.to_u(Agg(Ty('path', 'Codegen'), None, parts), o.st))
            ck.prove(fn2, 'what is generated is generated from the expanded and resolved definitions of the source text', o.st.pc + [D_(t) == 0], eng.to_u(o.val, o.st) == want, eng.axioms(), vocab=voc)
            ck.prove(fn2, 'a text that does not parse is rejected', o.st.pc + [D_(t) == 1], z3.Exists([z3.Const('e', U)], eng.to_u(o.val, o.st) == uf('spec.compile_error', U, U)(z3.Const('e', U))), eng.axioms(), vocab=voc)
    ck.guard(fn2, whole)


def c20_base(ck, P, cfg):
    """lemmas on resolved definitions"""
    fn = f'lemma: base units have magnitude one [{cfg}]'

    def go():
        N = Names(P)
        S = RS.Store(N)
        Sh = US.Shape(P)
        eng = us_engine(P, cfg)
        st = State(eng)
        u, r, x, y, g, h, v = [z3.Const(n, U) for n in ('u', 'r', 'x', 'y', 'g', 'h', 'v')]
        di, mi = dam_fields(P)
        dv = N.variants('Definition', 'Base', 'Expression')
        base = lambda it, ty, i: P_(N.item_entry(it, ty), i)
        NM = RS.NAME
        hyp = RS.member_lemmas()[0] + [RS.valof_def(N)] + S.final(u, r) + [N.item_is(y, 'Dimension'), N.d(base(y, 'Dimension', N.drhs)) == dv.index('Base'), RS.IN(u, x), RS.IN(u, y), HAS(r, NM(x))]
        ex, ey = N.p(x, N.expr), N.p(y, N.expr)

        def leaf(e):
            f = Sh.val(e)
            return z3.And(Sh.is_(e, Sh.ev, 'Value'), Sh.is_(f, Sh.fv, 'Value')), Sh.p(f, 'Value', 0)
        okx, lx = leaf(ex)
        oky, ly = leaf(ey)
        dm = uf('dam.dimensions', U, U)
        d0 = z3.Const('d0', U)
        # <Item as From<..>>::from (C11), the base unit of a base dimension (C13)
        hyp += [okx, N.other(lx), N.ident(lx) == NM(y), oky, N.concrete(ly), N.value(ly) == dm(d0)]
        V = RS.VALOF(r)
        for e in (ex, ey):
            hyp += US.rv_unfold(Sh, e, V, 'Expr') + US.rv_unfold(Sh, Sh.val(e), V, 'Factor')
            hyp += [z3.ForAll([v], US.LEAF(e, v) == Sh.unfold_leaf(e, v, 'Expr')), z3.ForAll([v], US.FLEAF(Sh.val(e), v) == Sh.unfold_leaf(Sh.val(e), v, 'Factor'))]
        hyp += [P_(dm(d0), mi) == US.enc(z3.Const('f64:1.0', U))]     # DimensionsAndMagnitude::dimensions (C11)
        ck.prove(fn, 'the magnitude stored for the base unit of a base dimension is from_f64(1.0)', hyp, P_(S.dims(r, NM(x)), mi) == US.enc(z3.Const('f64:1.0', U)), eng.axioms(), vocab=us_vocab)
        ck.prove(fn, 'its dimension is that of the base dimension', hyp, P_(S.dims(r, NM(x)), di) == P_(dm(d0), di), eng.axioms(), vocab=us_vocab)
        ck.covers += 1
    ck.guard(fn, go)


def c20(ck):
    for cfg in CFGS:
        P = us_prog(cfg)
        c20_from_item(ck, P, cfg)
        c20_code(ck, P, cfg)
        c20_keys(ck, P, cfg)
        c20_whole(ck, P, cfg)
        c20_base(ck, P, cfg)
        RS.c13_storage(ck, P, cfg)
    ck.trusted |= {'lemmas/Pigeonhole.lean (Lean 4 + Mathlib), checked by lean in the thorough tier'}
    if os.environ.get('VERIF_TIER') == 'thorough':
        lean(ck, 'Pigeonhole.lean')
