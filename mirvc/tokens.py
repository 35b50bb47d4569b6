"""Theory of token streams: a free monoid of tokens (kept in normal form as nested terms), and a reader that takes a
symbolic token stream apart.  Assumed contracts of proc_macro2 / quote, listed in the evidence when used; spans are left
out."""
import re
import z3
from mir import *
from engine import *
import coll as C
import texts as T

R = re.compile
STREAM = Ty('path', 'TokenStream')
TCAT = uf('tok.cat', U, U, U)
TNIL = z3.Const('tok.empty', U)
WORD, PUNCT, IDENTTOK, STRTOK, CONCAT, RAW = [uf('tok.' + n, U, U) for n in ('word', 'punct', 'ident', 'str', 'concat', 'raw')]
GROUP = uf('tok.group', U, U, U)
INTTOK = uf('tok.int', z3.IntSort(), U, U)
PUNCTS = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=', 'colon': ':', 'colon2': '::', 'comma': ',',
          'div': '/', 'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==', 'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=',
          'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'pound': '#', 'question': '?', 'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';',
          'shl': '<<', 'shl_eq': '<<=', 'shr': '>>', 'shr_eq': '>>=', 'star': '*', 'sub': '-', 'sub_eq': '-='}
DELIM = {'Parenthesis': '(', 'Brace': '{', 'Bracket': '[', 'None': ''}


def tparts(t):
    if z3.is_app(t) and t.decl().name() == 'tok.cat':
        return tparts(t.arg(0)) + tparts(t.arg(1))
    return [] if t.eq(TNIL) else [t]


def tcat(*ts):
    xs = [p for t in ts for p in tparts(t)]
    if not xs:
        return TNIL
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = TCAT(x, r)
    return r


def stream(t):
    return Opq(t, STREAM)


def push(eng, st, where, t):
    c, p, x = C.place_of(eng, st, where)
    if c is None:
        raise Unsupported('token stream that is not a place')
    eng.store(st, c, p, stream(tcat(eng.to_u(x, st), t)))
    return Agg('()', None, [])


def m_new(eng, st, args, dty, m, callee):
    return stream(TNIL)


def text_arg(eng, st, v):
    s = eng.to_u(eng.deref_all(v, st), st)
    if T.lit_of(s) is None:
        raise Unsupported('token text')
    return s


def m_push_ident(eng, st, args, dty, m, callee):
    return push(eng, st, args[0], WORD(text_arg(eng, st, args[-1])))


def m_push_raw(eng, st, args, dty, m, callee):
    return push(eng, st, args[0], RAW(text_arg(eng, st, args[-1])))


def m_push_group(eng, st, args, dty, m, callee):
    d = eng.deref_all(args[-2], st)
    n = d.var if isinstance(d, Agg) else None
    if isinstance(d, Agg) and not d.f and n not in DELIM:
        n = str(d.ty if d.var is None else d.var).split('::')[-1]
        if n not in DELIM:
            n = str(d).replace('{}', '').split('::')[-1]
    if n not in DELIM:
        raise Unsupported(f'delimiter {d}')
    return push(eng, st, args[0], GROUP(T.lit(DELIM[n]), eng.to_u(eng.deref_all(args[-1], st), st)))


def m_push_punct(eng, st, args, dty, m, callee):
    n = m.group('p')
    if n == 'underscore':
        return push(eng, st, args[0], WORD(T.lit('_')))
    if n not in PUNCTS:
        raise Unsupported('token ' + n)
    return push(eng, st, args[0], PUNCT(T.lit(PUNCTS[n])))


INTTYS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')


def tokens_of(eng, st, v, ty):
    ty = C.peel(ty)
    v = eng.deref_all(v, st)
    n = ty.last if ty is not None and ty.kind == 'path' else None
    if n == 'TokenStream':
        return eng.to_u(v, st)
    if n == 'Ident':
        return IDENTTOK(eng.to_u(v, st))
    if n in INTTYS:
        if not (z3.is_expr(v) and v.sort() == z3.IntSort()):
            raise Unsupported('integer token')
        return INTTOK(v, T.lit(n))
    if n in ('String', 'str'):
        return STRTOK(T.text_of(eng, st, v))
    if n == 'bool' and z3.is_bool(v):
        return z3.If(v, WORD(T.lit('true')), WORD(T.lit('false')))
    raise Unsupported(f'tokens of {ty}')


def m_to_tokens(eng, st, args, dty, m, callee):
    ty = callee.args[0] if isinstance(callee, Ty) and callee.kind == 'proj' else None
    if ty is None:
        raise Unsupported('to_tokens')
    ty = C.peel(ty)
    if ty.kind == 'path' and ty.last not in ('TokenStream', 'Ident', 'String', 'str', 'bool') + INTTYS:
        return None
    return push(eng, st, args[1], tokens_of(eng, st, args[0], ty))


def m_into_stream(eng, st, args, dty, m, callee):
    return stream(tokens_of(eng, st, args[0], callee.args[0]))


def m_extend(eng, st, args, dty, m, callee):
    v = eng.deref_all(args[1], st)
    if isinstance(v, C.It):
        return push(eng, st, args[0], eng.to_u(collector(eng, st, v, STREAM), st))
    return push(eng, st, args[0], tokens_of(eng, st, v, v.ty if isinstance(v, Opq) else None))


def m_self(eng, st, args, dty, m, callee):
    return args[0]


def collector(eng, st, it, tgt):
    """the concatenation of the streams an iterator gives"""
    if not it.fams:
        return stream(TNIL)
    fam = it.fams[0]
    n = z3.simplify(fam.n) if z3.is_expr(fam.n) else None
    if len(it.fams) == 1 and n is not None and z3.is_app(n) and n.decl().eq(C.LEN) and n.arg(0).decl().name().startswith('array/'):
        # the elements of an array expression
        a = n.arg(0)
        out = []
        for k in range(a.num_args()):
            v = eng.to_u(eng.deref_all(C.elem(eng, st, fam, [z3.IntVal(k)]), st), st)
            out.append(z3.substitute(v, (C.AT(a, z3.IntVal(k)), a.arg(k))))
        return stream(tcat(*out))
    t = C.new_term(eng, st, 'streams')
    if not hasattr(eng, 'concats'):
        eng.concats = {}
    name = t.decl().name()
    eng.concats[name] = (t, it, st.copy())
    return stream(CONCAT(t))


def m_from_iter(eng, st, args, dty, m, callee):
    v = eng.deref_all(args[0], st)
    if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.kind == 'array':
        return stream(tcat(*[eng.to_u(eng.deref_all(v.f[i], st), st) for i in sorted(v.f)]))
    if not isinstance(v, C.It):
        v = C.coll_iter(eng, st, args[0], 'into')
    return collector(eng, st, v, STREAM)


Q = r'(?:quote::)?(?:\w+::)*'
PM = r'(?:proc_macro2::)?'
TOKENS = [
    (R(rf'{PM}TokenStream::new'), m_new),
    (R(rf'<{PM}TokenStream as Default>::default'), m_new),
    (R(rf'{Q}push_ident(?:_spanned)?|{Q}push_lifetime(?:_spanned)?'), m_push_ident),
    (R(rf'{Q}push_group(?:_spanned)?'), m_push_group),
    (R(rf'{Q}push_(?P<p>\w+?)(?:_spanned)?'), m_push_punct),
    (R(rf'(?:quote::)?(?:\w+::)*parse(?:_spanned)?'), lambda eng, st, args, dty, m, callee: m_push_raw(eng, st, args, dty, m, callee) if len(args) > 1 and isinstance(args[0], Ref) else None),
    (R(rf'<.* as (?:\w+::)*ToTokens>::to_tokens'), m_to_tokens),
    (R(rf'<.* as (?:\w+::)*ToTokens>::(?:to_token_stream|into_token_stream)'), m_into_stream),
    (R(rf'<{PM}TokenStream as (?:\w+::)*Extend<.*>>::extend(?:<.*>)?'), m_extend),
    (R(rf'<{PM}TokenStream as (?:\w+::)*FromIterator<.*>>::from_iter(?:<.*>)?'), m_from_iter),
    (R(rf'<{PM}TokenStream as Clone>::clone'), m_self),
    (R(rf'{Q}get_span(?:<.*>)?|{Q}GetSpan(?:<.*>)?::__into_span'), m_self),
]


def tok_vocab(n):
    return n.startswith(('tok.', 'streams', 'gen.'))


def install(eng):
    eng.collectors['TokenStream'] = collector


# ------------------------------------------------------------------ reader
class Tok:
    """kind: w(ord) p(unct) g(roup) id int str raw concat opq"""

    def __init__(self, kind, v, inner=None):
        self.kind, self.v, self.inner = kind, v, inner

    def __repr__(self):
        return f'{self.kind}:{self.v}' + (f'{self.inner}' if self.kind == 'g' else '')

    def is_(self, *words):
        return self.kind in 'wp' and self.v in words


def raw_tokens(s):
    out = []
    for m in re.finditer(r'\s*([A-Za-z_]\w*|\d[\w.]*|"(?:[^"\\]|\\.)*"|\'\w+|[^\s\w])', s):
        x = m.group(1)
        out.append(Tok('w', x) if re.match(r'[A-Za-z_\d"\']', x) else Tok('p', x))
    return out


def read(t):
    """tokens of a symbolic stream"""
    out = []
    for x in tparts(t):
        n = x.decl().name() if z3.is_app(x) else ''
        if n == 'tok.word':
            out.append(Tok('w', T.lit_of(x.arg(0))))
        elif n == 'tok.punct':
            out.append(Tok('p', T.lit_of(x.arg(0))))
        elif n == 'tok.raw':
            out += raw_tokens(T.lit_of(x.arg(0)))
        elif n == 'tok.group':
            out.append(Tok('g', T.lit_of(x.arg(0)), read(x.arg(1))))
        elif n == 'tok.ident':
            out.append(Tok('id', x.arg(0)))
        elif n == 'tok.int':
            out.append(Tok('int', x.arg(0), T.lit_of(x.arg(1))))
        elif n == 'tok.str':
            out.append(Tok('str', x.arg(0)))
        elif n == 'tok.concat':
            out.append(Tok('concat', x.arg(0)))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out.append(Tok('if', x.arg(0), (read(x.arg(1)), read(x.arg(2)))))
        else:
            out.append(Tok('opq', x))
    return out


def cases(toks):
    """[(conditions, tokens)] with the conditionals decided"""
    for i, x in enumerate(toks):
        if x.kind == 'if':
            out = []
            for c, br in ((x.v, x.inner[0]), (z3.Not(x.v), x.inner[1])):
                for cs, rest in cases(toks[:i] + br + toks[i + 1:]):
                    out.append(([c] + cs, rest))
            return out
        if x.kind == 'g':
            inner = cases(x.inner)
            if len(inner) > 1:
                out = []
                for cs, ys in inner:
                    for cs2, rest in cases(toks[:i] + [Tok('g', x.v, ys)] + toks[i + 1:]):
                        out.append((cs + cs2, rest))
                return out
    return [([], toks)]


def element(eng, tok, base='e'):
    """the streams a concatenation is made of: [(binders, guard, state, tokens, family)]"""
    t = tok.v
    key = t.decl().name() if z3.is_app(t) else None
    if key not in getattr(eng, 'concats', {}):
        raise Unsupported('concatenation of unknown streams')
    _, it, st = eng.concats[key]
    out = []
    for fam in it.fams:
        bs = C.binders(eng, fam)
        s2 = C.under(st, bs)
        g = fam.guard(eng, s2, bs)
        s2.assume(g)
        v = eng.to_u(C.elem(eng, s2, fam, bs), s2)
        out.append((bs, g, s2, read(v), fam))
    return out
