"""Theory of text: strings as concatenations (a free monoid, kept in normal form), identifiers with their text.
Assumed contracts of core::fmt, alloc::string and proc_macro2::Ident, listed in the evidence when used."""
import re, ast
import z3
from mir import *
from engine import *
import coll as C

R = re.compile
STRING = Ty('path', 'String')
STR = Ty('path', 'str')
CAT = uf('str.cat', U, U, U)
TEXT = uf('text', U, U)            # text of an identifier
IDENT_OF = uf('ident', U, U)       # the identifier with this text (spans are left out)
EMPTY = z3.Const('str:""', U)


def lit(s):
    return z3.Const('str:"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"', U)


def lit_of(t):
    """the text of a literal term"""
    if z3.is_const(t) and t.decl().name().startswith('str:"'):
        s = t.decl().name()[4:]
        if '\\' not in s:
            return s[1:-1]
        s = re.sub(r'\\u\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), s)
        try:
            return ast.literal_eval(s)
        except (SyntaxError, ValueError):
            return None
    return None


def parts(t):
    if z3.is_app(t) and t.decl().name() == 'str.cat':
        return parts(t.arg(0)) + parts(t.arg(1))
    return [t]


def cat(*ts):
    """normal form of a concatenation"""
    xs = []
    for t in ts:
        for p in parts(t):
            l = lit_of(p)
            if l == '':
                continue
            if xs and l is not None and lit_of(xs[-1]) is not None:
                xs[-1] = lit(lit_of(xs[-1]) + l)
            else:
                xs.append(p)
    if not xs:
        return EMPTY
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = CAT(x, r)
    return r


class FmtArg(C.Lib):
    def __init__(self, t):
        self.t = t

    def to_u(self, eng, st):
        return uf('fmt.arg', U, U)(self.t)


class FmtArgs(C.Lib):
    def __init__(self, t):
        self.t = t

    def to_u(self, eng, st):
        return uf('fmt.args', U, U)(self.t)


def text_of(eng, st, v, ty=None, how='display'):
    """the text Display writes for v"""
    v = eng.deref_all(v, st)
    t = v.ty if isinstance(v, (Opq, Agg)) else None
    while t is not None and t.kind == 'ref':
        t = t.args[0]
    while t is not None and t.kind == 'path' and t.last in ('Cow', 'Box', 'Rc', 'Arc') and t.args:
        t = [a for a in t.args if a.kind != 'life'][0]
    if t is not None and t.kind == 'path' and t.last in ('str', 'String') and how == 'display':
        return eng.to_u(v, st)
    if t is not None and t.kind == 'path' and t.last == 'Ident' and how == 'display':
        return TEXT(eng.to_u(v, st))
    if isinstance(v, FmtArgs):
        return v.t
    h = getattr(eng, 'shows', None)
    if h:
        r = h(eng, st, v, how)
        if r is not None:
            return r
    u = eng.to_u(v, st)
    n = t.last if t is not None and t.kind == 'path' else (str(v.sort()) if z3.is_expr(v) else '?')
    return uf(f'{how}.{n}', U, U)(u)


def m_argument(eng, st, args, dty, m, callee):
    return FmtArg(text_of(eng, st, args[0], None, m.group('how')))


def arr(eng, st, v):
    v = eng.deref_all(v, st)
    if isinstance(v, Agg) and v.base is None:
        return [v.f[i] for i in sorted(v.f)]
    if isinstance(v, Opq) and v.t.decl().name().startswith('Argument') and v.t.decl().name().endswith('none') or isinstance(v, Opq) and re.search(r'; ?0\]$', str(v.ty)):
        return []
    raise Unsupported(f'array {v!r}')


def m_arguments(eng, st, args, dty, m, callee):
    pieces = [eng.to_u(eng.deref_all(p, st), st) for p in arr(eng, st, args[0])]
    if m.group('how') in ('new_const', 'from_str'):
        return FmtArgs(cat(*pieces))
    if m.group('how') != 'new_v1':
        raise Unsupported('formatting with options')
    xs = [eng.deref_all(a, st) for a in arr(eng, st, args[1])]
    if not all(isinstance(x, FmtArg) for x in xs) or len(pieces) not in (len(xs), len(xs) + 1):
        raise Unsupported('formatting arguments')
    out = []
    for i, p in enumerate(pieces):
        out.append(p)
        if i < len(xs):
            out.append(xs[i].t)
    return FmtArgs(cat(*out))


def string(t):
    return Opq(t, STRING)


def m_format(eng, st, args, dty, m, callee):
    a = eng.deref_all(args[0], st)
    if not isinstance(a, FmtArgs):
        raise Unsupported('format')
    return string(a.t)


def m_first(eng, st, args, dty, m, callee):
    return args[0]


def m_to_string(eng, st, args, dty, m, callee):
    return string(text_of(eng, st, args[0]))


def m_string_new(eng, st, args, dty, m, callee):
    return string(EMPTY)


def m_push_str(eng, st, args, dty, m, callee):
    c, p, x = C.place_of(eng, st, args[0])
    eng.store(st, c, p, string(cat(eng.to_u(x, st), text_of(eng, st, args[1]))))
    return Agg('()', None, [])


def m_plus(eng, st, args, dty, m, callee):
    return string(cat(text_of(eng, st, args[0]), text_of(eng, st, args[1])))


def ident_of(eng, st, t):
    i = IDENT_OF(t)
    eng.fact(st, TEXT(i) == t)
    return Opq(i, Ty('path', 'Ident'))


def m_ident_new(eng, st, args, dty, m, callee):
    return ident_of(eng, st, eng.to_u(eng.deref_all(args[0], st), st))


def m_span(eng, st, args, dty, m, callee):
    return Opq(uf('span', U, U)(eng.to_u(args[0], st)), Ty('path', 'Span'))


FMT = r'(?:\w+::)*'
TEXTS = [
    (R(rf'{FMT}Argument(?:<.*>)?::new_(?P<how>display|debug|lower_exp)<.*>'), m_argument),
    (R(rf'{FMT}Arguments(?:<.*>)?::(?P<how>new_v1|new_const|new_v1_formatted|from_str)(?:<.*>)?'), m_arguments),
    (R(rf'{FMT}format|{FMT}format_inner'), m_format),
    (R(rf'{FMT}must_use<.*>'), m_first),
    (R(r'<(?:str|String|&str|Ident|proc_macro2::Ident|&.*Ident) as ToString>::to_string|<str as ToOwned>::to_owned|<(?:String|Ident) as ToString>::to_string|str::to_string|<String as From<&?str>>::from|<&?str as Into<String>>::into'), m_to_string),
    (R(r'String::new'), m_string_new),
    (R(r'String::(?:push_str|push)'), m_push_str),
    (R(r'<String as Add<&str>>::add'), m_plus),
    (R(r'<String as Deref>::deref|String::as_str|<str as AsRef<str>>::as_ref'), m_first),
    (R(r'(?:proc_macro2::)?Ident::new'), m_ident_new),
    (R(r'(?:proc_macro2::)?(?:Ident::span|Span::call_site|<.* as Spanned>::span)'), m_span),
]


def text_vocab(n):
    return n.startswith(('str.', 'text', 'ident', 'display.', 'span'))
