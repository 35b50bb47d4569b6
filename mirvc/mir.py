"""Parser for rustc's textual MIR (-Zunpretty=mir) of the pinned toolchain.

The parser is total over what it understands and raises Unsupported otherwise;
an Unsupported never turns into a verdict about the code.
"""
import re
from dataclasses import dataclass, field


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<implat><impl\ at\ [^>]*>)
 | (?P<closure>\{(?:closure|coroutine)@[^}]*\})
 | (?P<hash>\{(?:closure|constant|impl|use)\#\d+\})
 | (?P<str>b?"(?:[^"\\]|\\.)*")
 | (?P<chr>b?'(?:\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])')
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 | (?P<num>-?\d[\w.+]*(?:(?<=[eE])[-+]\d\w*)?)
 | (?P<id>(?:r\#)?[^\W\d]\w*)
 | (?P<op>::|->|=>|\.\.=|\.\.\.|\.\.|&&|\|\||[-+*/%=<>!&|^,;:.(){}\[\]@\#?$~])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported(f'lex: {s[i:i+40]!r}')
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k == 'num':
            # ranges such as 0..3 are not numbers with dots
            j = t.find('..')
            if j >= 0:
                i = m.start() + j
                t = t[:j]
        out.append((k, t))
    return out


# ------------------------------------------------------------------ types
@dataclass(frozen=True)
class Ty:
    """kind: path (name,args,qself), ref, refmut, ptr, tuple, slice, array, fn,
    closure, never, const (a const-generic argument, raw text), dyn, impl, life"""
    kind: str
    name: str = ''
    args: tuple = ()

    def __str__(self):
        k = self.kind
        if k == 'path':
            a = [x for x in self.args]
            return self.name + ('<' + ', '.join(map(str, a)) + '>' if a else '')
        if k == 'proj':      # <A as B>::name   (args[0]=A, args[1]=B or None, rest generic args)
            a, b = self.args[0], self.args[1]
            rest = self.args[2:]
            return f'<{a}' + (f' as {b}' if b is not None else '') + f'>::{self.name}' + \
                ('<' + ', '.join(map(str, rest)) + '>' if rest else '')
        if k == 'ref':
            return '&' + str(self.args[0])
        if k == 'refmut':
            return '&mut ' + str(self.args[0])
        if k == 'ptr':
            return '*' + self.name + ' ' + str(self.args[0])
        if k == 'tuple':
            return '(' + ', '.join(map(str, self.args)) + (',' if len(self.args) == 1 else '') + ')'
        if k == 'slice':
            return '[' + str(self.args[0]) + ']'
        if k == 'array':
            return '[' + str(self.args[0]) + '; ' + self.name + ']'
        if k == 'const':
            return self.name
        if k == 'life':
            return self.name
        if k == 'closure':
            return self.name
        if k == 'never':
            return '!'
        if k == 'bind':
            return f'{self.name} = {self.args[0]}'
        return f'{k} {self.name}' + (('<' + ', '.join(map(str, self.args)) + '>') if self.args else '')

    @property
    def last(self):
        return self.name.split('::')[-1]


class TP:
    """Type / path / operand parser over a token list."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Unsupported('unexpected end of ' + ' '.join(x[1] for x in self.t))
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s and self.kind() == 'op' or (self.peek() == s and self.kind() == 'id'):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported(f'expected {s!r} got {self.peek()!r} in ' + ' '.join(x[1] for x in self.t))

    def raw_braced(self):
        """consume a balanced {...} and return its raw text"""
        assert self.peek() == '{'
        d = 0
        out = []
        while True:
            v = self.next()
            if v in ('{',):
                d += 1
            elif v == '}':
                d -= 1
            out.append(v)
            if d == 0:
                break
        return '{ ' + join_tokens(out[1:-1]) + ' }'

    def ty(self):
        p = self.peek()
        k = self.kind()
        if p == '&' or p == '&&':
            self.next()
            if p == '&&':
                inner = self._ref()
                return Ty('ref', '', (inner,))
            return self._ref()
        if p == '*':
            self.next()
            m = self.next()
            return Ty('ptr', m, (self.ty(),))
        if p == '(':
            self.next()
            xs = []
            while not self.eat(')'):
                xs.append(self.ty())
                self.eat(',')
            return Ty('tuple', '', tuple(xs))
        if p == '[':
            self.next()
            t = self.ty()
            if self.eat(';'):
                n = []
                d = 0
                while not (self.peek() == ']' and d == 0):
                    v = self.next()
                    if v in '([{':
                        d += 1
                    if v in ')]}':
                        d -= 1
                    n.append(v)
                self.expect(']')
                return Ty('array', join_tokens(n), (t,))
            self.expect(']')
            return Ty('slice', '', (t,))
        if p == '!':
            self.next()
            return Ty('never')
        if k == 'closure':
            return Ty('closure', self.next())
        if k == 'life':
            return Ty('life', self.next())
        if p == '{':
            return Ty('const', self.raw_braced())
        if k == 'num' or k == 'str' or k == 'chr':
            return Ty('const', self.next())
        if p in ('dyn', 'impl') and k == 'id':
            self.next()
            parts = [self.bound()]
            while self.eat('+'):
                parts.append(self.bound())
            return Ty(p, ' + '.join(map(str, parts)), ())
        if p == 'for' and k == 'id':
            self.next()
            self.expect('<')
            while not self.eat('>'):
                self.next()
            return self.ty()
        if p in ('fn', 'unsafe', 'extern') and k == 'id':
            while self.peek() != 'fn':
                self.next()
            self.next()
            self.expect('(')
            xs = []
            while not self.eat(')'):
                # optional name
                if self.kind() == 'id' and self.peek(1) == ':' :
                    self.next(); self.next()
                xs.append(self.ty())
                self.eat(',')
            r = Ty('tuple')
            if self.eat('->'):
                r = self.ty()
            # fn items printed as  fn(A) -> B {path}
            if self.peek() == '{':
                nm = self.raw_braced()
                return Ty('fnitem', nm, tuple(xs) + (r,))
            return Ty('fn', '', tuple(xs) + (r,))
        return self.path()

    def bound(self):
        if self.kind() == 'life':
            return Ty('life', self.next())
        if self.eat('?'):
            return self.ty()
        if self.peek() == '(':
            self.next()
            b = self.bound()
            self.expect(')')
            return b
        return self.ty()

    def _ref(self):
        if self.kind() == 'life':
            self.next()
        if self.eat('mut'):
            return Ty('refmut', '', (self.ty(),))
        return Ty('ref', '', (self.ty(),))

    def gargs(self):
        """after '<'"""
        xs = []
        while not self.eat('>'):
            if self.kind() == 'life':
                self.next()
            elif self.kind() == 'id' and self.peek(1) == '=' :
                n = self.next(); self.next()
                xs.append(Ty('bind', n, (self.ty(),)))
            elif self.kind() == 'id' and self.peek() == 'const' :
                self.next()
                xs.append(self.ty())
            else:
                t = self.ty()
                if self.peek() == ':' :   # assoc bound
                    self.next()
                    self.bound()
                    while self.eat('+'):
                        self.bound()
                    continue
                xs.append(t)
            self.eat(',')
        return tuple(xs)

    def path(self):
        """path in type or value position -> Ty path / proj.
        Generic args are kept on the last segment that has them; earlier ones are
        kept by nesting: Quantity::<S,D>::value -> proj(name=value,args=(Quantity<S,D>,None))"""
        if self.peek() == '<' :
            self.next()
            a = self.ty()
            b = None
            if self.eat('as'):
                b = self.ty()
            self.expect('>')
            cur = None
            while self.eat('::'):
                if self.peek() == '<':
                    self.next()
                    ga = self.gargs()
                    cur = Ty(cur.kind, cur.name, cur.args + ga)
                    continue
                nm = self.seg()
                if cur is None:
                    cur = Ty('proj', nm, (a, b))
                else:
                    cur = Ty('proj', nm, (cur, None))
                if self.peek() == '<' and not self._is_cmp():
                    self.next()
                    cur = Ty(cur.kind, cur.name, cur.args + self.gargs())
            if cur is None:
                return a
            return cur
        cur = None
        self.eat('::')
        names = [self.seg()]
        args = ()
        while True:
            if self.peek() == '<' :
                self.next()
                args = args + self.gargs()
                continue
            if self.peek() == '::' :
                self.next()
                if self.peek() == '<':
                    self.next()
                    args = args + self.gargs()
                    continue
                if args or cur is not None:
                    base = Ty('path', '::'.join(names), args) if cur is None else Ty('proj', cur.name, cur.args + args)
                    nm = self.seg()
                    cur = Ty('proj', nm, (base, None))
                    args = ()
                else:
                    names.append(self.seg())
                continue
            break
        # Fn(A) -> B sugar
        if cur is None and names[-1] in ('Fn', 'FnMut', 'FnOnce') and self.peek() == '(':
            self.next()
            xs = []
            while not self.eat(')'):
                xs.append(self.ty())
                self.eat(',')
            r = Ty('tuple')
            if self.eat('->'):
                r = self.ty()
            return Ty('path', '::'.join(names), (Ty('tuple', '', tuple(xs)), r))
        if cur is None:
            return Ty('path', '::'.join(names), args)
        return Ty('proj', cur.name, cur.args + args)

    def _is_cmp(self):
        return False

    def seg(self):
        k = self.kind()
        if k in ('id', 'hash', 'closure', 'implat', 'num'):
            return self.next()
        if self.peek() == '$':
            self.next()
            return '$' + self.next()
        raise Unsupported(f'path segment {self.peek()!r} in ' + ' '.join(x[1] for x in self.t))


def join_tokens(ts):
    s = ''
    for a in ts:
        if s and (re.match(r'\w', a) and re.match(r'\w', s[-1])):
            s += ' '
        if a in (',', ):
            s += ', '
            continue
        s += a
    return s.strip()


def parse_ty(s):
    p = TP(lex(s))
    t = p.ty()
    if p.i != len(p.t):
        raise Unsupported('trailing tokens in type ' + s)
    return t


# ------------------------------------------------------------------ MIR structures
@dataclass
class Place:
    local: str
    proj: tuple   # ('deref',) ('field',i,Ty) ('downcast',name) ('index',local) ('cindex',i,fromend) ('subslice',a,b)


@dataclass
class Op:
    kind: str     # copy/move/const
    place: Place = None
    text: str = ''


@dataclass
class Stmt:
    kind: str
    place: Place = None
    rv: tuple = None
    text: str = ''


@dataclass
class Term:
    kind: str
    d: dict
    text: str = ''


@dataclass
class Block:
    name: str
    stmts: list
    term: Term
    cleanup: bool = False


@dataclass
class Fn:
    name: str            # printed name, with <impl at ..>
    args: list           # [(local, Ty)]
    ret: Ty
    const: bool
    locals: dict
    debug: dict
    blocks: dict
    is_const_item: bool = False
    header: str = ''


class PP(TP):
    """place / operand / rvalue parser"""

    def place(self):
        return self._place()

    def _place(self):
        p = self.peek()
        if p == '(':
            self.next()
            if self.eat('*'):
                b = self._place()
                self.expect(')')
                b = Place(b.local, b.proj + (('deref',),))
            else:
                b = self._place()
                if self.eat('as'):
                    if self.eat('variant'):
                        self.expect('#')
                        nm = '#' + self.next()
                    else:
                        nm = self.next()
                        if nm in ('subtype',):
                            t = self.ty()
                            self.expect(')')
                            return self._postfix(b)
                    self.expect(')')
                    b = Place(b.local, b.proj + (('downcast', nm),))
                elif self.eat('.'):
                    f = self.next()
                    self.expect(':')
                    t = self.ty()
                    self.expect(')')
                    b = Place(b.local, b.proj + (('field', int(f), t),))
                else:
                    self.expect(')')
            return self._postfix(b)
        k = self.next()
        if not re.fullmatch(r'_\d+', k):
            raise Unsupported('place ' + k)
        return self._postfix(Place(k, ()))

    def _postfix(self, b):
        while self.peek() == '[':
            self.next()
            if self.kind() == 'id':
                l = self.next()
                self.expect(']')
                b = Place(b.local, b.proj + (('index', l),))
            else:
                a = self.next()
                if self.eat('of'):
                    n = self.next()
                    self.expect(']')
                    b = Place(b.local, b.proj + (('cindex', int(a), int(n)),))
                elif self.eat(':'):
                    e = None
                    if self.peek() != ']':
                        e = self.next()
                    self.expect(']')
                    b = Place(b.local, b.proj + (('subslice', int(a), e),))
                else:
                    raise Unsupported('index projection')
        return b

    def rest_raw(self):
        """raw text of an operand up to a top level , or ) (already tokenized)"""
        d = 0
        out = []
        ang = 0
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if d == 0 and v in (',', ')', ']', '}', ';') and k == 'op' and ang <= 0:
                break
            if d == 0 and v == '->' and ang <= 0:
                break
            if k == 'op':
                if v in '([{':
                    d += 1
                elif v in ')]}':
                    d -= 1
                elif v == '<':
                    ang += 1
                elif v == '>':
                    ang -= 1
            out.append(v)
            self.i += 1
        return out

    def operand(self):
        p = self.peek()
        if p in ('copy', 'move') and self.kind() == 'id':
            self.next()
            return Op(p, self.place())
        if p == 'const' and self.kind() == 'id':
            self.next()
            return Op('const', None, self.const_text())
        if p == 'no_retag':
            self.next()
            return self.operand()
        # function item / closure operand printed bare
        return Op('const', None, self.const_text())

    def const_text(self):
        start = self.i
        toks = self.rest_raw()
        # keep exact tokens
        return ConstTok(self.t[start:self.i])


class ConstTok:
    def __init__(self, toks):
        self.toks = toks

    def __str__(self):
        return join_tokens([v for _, v in self.toks])

    def __repr__(self):
        return 'const ' + str(self)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt',
          'Ge', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
          'ShlUnchecked', 'ShrUnchecked', 'Offset', 'Cmp'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    toks = lex(s)
    p = PP(toks)
    k0 = p.kind()
    t0 = p.peek()
    if t0 == '&' and k0 == 'op':
        p.next()
        if p.kind() == 'life':
            p.next()
        m = 'ref'
        if p.eat('mut'):
            m = 'refmut'
        elif p.eat('raw'):
            m = 'raw'
            p.next()
        elif p.peek() == 'fake':
            raise Unsupported('fake borrow')
        pl = p.place()
        return (m, pl)
    if t0 in ('copy', 'move', 'const') and k0 == 'id':
        op = p.operand()
        if p.i < len(p.t) and p.peek() == 'as':
            p.next()
            t = p.ty()
            kind = join_tokens([v for _, v in p.t[p.i:]])
            return ('cast', op, t, kind)
        if p.i != len(p.t):
            # constants may contain ` as ` inside const_text
            raise Unsupported('rvalue ' + s)
        if op.kind == 'const':
            # "const X as T (kind)" swallowed by const_text
            ts = op.text.toks
            for j in range(len(ts) - 1, 0, -1):
                if ts[j] == ('id', 'as') and ts[-1][1] == ')':
                    depth = sum((1 if v in '<([{' else -1 if v in '>)]}' else 0) for k, v in ts[:j] if k == 'op' and len(v) == 1)
                    if depth == 0:
                        q = TP(ts[j + 1:])
                        ty = q.ty()
                        return ('cast', Op('const', None, ConstTok(ts[:j])), ty, join_tokens([v for _, v in q.t[q.i:]]))
        return ('use', op)
    if t0 == 'deref_copy':
        p.next()
        return ('use', Op('copy', p.place()))
    if t0 == 'discriminant' and p.peek(1) == '(':
        p.next(); p.next()
        pl = p.place()
        return ('discr', pl)
    if t0 == 'Len' and p.peek(1) == '(':
        p.next(); p.next()
        return ('len', p.place())
    if t0 in BINOPS and p.peek(1) == '(':
        p.next(); p.next()
        a = p.operand(); p.expect(','); b = p.operand(); p.expect(')')
        if p.i == len(p.t):
            return ('bin', t0, a, b)
    p.i = 0
    if t0 in UNOPS and p.peek(1) == '(':
        p.next(); p.next()
        a = p.operand()
        p.expect(')')
        if p.i == len(p.t):
            return ('un', t0, a)
    p.i = 0
    if t0 == '(' and k0 == 'op':
        p.next()
        xs = []
        while not p.eat(')'):
            xs.append(p.operand())
            p.eat(',')
        return ('agg', Ty('tuple'), None, xs, None)
    if t0 == '[' and k0 == 'op':
        p.next()
        xs = []
        while not p.eat(']'):
            xs.append(p.operand())
            if p.eat(';'):
                n = join_tokens([v for _, v in p.t[p.i:-1]])
                return ('repeat', xs[0], n)
            p.eat(',')
        return ('agg', Ty('array'), None, xs, None)
    if t0 in ('SizeOf', 'AlignOf', 'UbChecks', 'ShallowInitBox'):
        return ('nullary', t0, s)
    # aggregate  Path(ops)  or Path { f: op, .. } or Path
    t = p.ty()
    if p.i == len(p.t):
        return ('agg', t, None, [], None)
    if p.peek() == 'as' and p.kind() == 'id':
        p.next()
        ty = p.ty()
        return ('cast', Op('const', None, ConstTok(p.t[:p.i])), ty, join_tokens([v for _, v in p.t[p.i:]]))
    if p.eat('('):
        xs = []
        while not p.eat(')'):
            xs.append(p.operand())
            p.eat(',')
        if p.i != len(p.t):
            raise Unsupported('rvalue ' + s)
        return ('agg', t, None, xs, None)
    if p.eat('{'):
        xs = []
        names = []
        while not p.eat('}'):
            names.append(p.next())
            p.expect(':')
            xs.append(p.operand())
            p.eat(',')
        if p.i != len(p.t):
            raise Unsupported('rvalue ' + s)
        return ('agg', t, None, xs, names)
    raise Unsupported('rvalue ' + s)


def split_assign(s):
    """split 'place = rvalue' at the top-level ' = ' (place comes first)"""
    p = PP(lex_prefix(s))
    raise NotImplementedError


RE_TARGETS = re.compile(r' -> \[(.*)\]$')
RE_UNW = re.compile(r' -> (unwind .*|bb\d+)$')


def find_assign(s):
    # place syntax contains no ' = '
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif s.startswith(' = ', i) and d == 0:
            return i
        i += 1
    return -1


def parse_targets(t):
    d = {}
    for part in split_top(t):
        part = part.strip()
        if part.startswith('unwind'):
            d['unwind'] = part
        else:
            k, v = part.split(':')
            d[k.strip()] = v.strip()
    return d


def split_top(s):
    out = []
    d = 0
    cur = ''
    for c in s:
        if c in '([{':
            d += 1
        if c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def parse_call(s):
    """callee(args)"""
    p = PP(lex(s))
    if p.peek() in ('move', 'copy') and p.kind() == 'id':
        callee = p.operand()
    else:
        callee = p.ty()
    p.expect('(')
    xs = []
    while not p.eat(')'):
        xs.append(p.operand())
        p.eat(',')
    if p.i != len(p.t):
        raise Unsupported('call ' + s)
    return callee, xs


def parse_term(s):
    if s.startswith('goto -> '):
        return Term('goto', {'t': s[8:]}, s)
    if s in ('return', 'unreachable', 'resume') or s.startswith('terminate') or s.startswith('abort'):
        return Term(s.split('(')[0], {}, s)
    m = RE_TARGETS.search(s)
    if s.startswith('switchInt('):
        head = s[len('switchInt('):m.start()]
        assert head.endswith(')')
        p = PP(lex(head[:-1]))
        op = p.operand()
        return Term('switch', {'op': op, 'targets': parse_targets(m.group(1))}, s)
    if s.startswith('drop('):
        return Term('drop', {'targets': parse_targets(m.group(1)), 'place': s[5:m.start() - 1]}, s)
    if s.startswith('assert('):
        head = s[len('assert('):m.start()]
        # assert(!move (_x.1: bool), "msg", args)
        p = PP(lex(head[:-1]))
        neg = p.eat('!')
        op = p.operand()
        msg = ''
        if p.eat(','):
            msg = p.peek()
        return Term('assert', {'op': op, 'neg': neg, 'msg': msg, 'targets': parse_targets(m.group(1))}, s)
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        t = parse_targets(m.group(1))
        return Term('goto', {'t': t.get('real')}, s)
    # calls
    unw = None
    tg = {}
    body = s
    if m:
        tg = parse_targets(m.group(1))
        body = s[:m.start()]
    else:
        m2 = RE_UNW.search(s)
        if m2:
            body = s[:m2.start()]
            tg = {'unwind': m2.group(1)}
        else:
            return None
    i = find_assign(body)
    if i < 0:
        return None
    dst = PP(lex(body[:i])).place()
    callee, args = parse_call(body[i + 3:])
    return Term('call', {'dst': dst, 'callee': callee, 'args': args, 'targets': tg}, s)


IGN = re.compile(r'^(StorageLive|StorageDead|ConstEvalCounter|FakeRead|nop|PlaceMention|Retag|Coverage|AscribeUserType|BackwardIncompatibleDropHint)\b')


def parse_stmt(s):
    if IGN.match(s):
        return None
    if s.startswith('discriminant('):
        m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
        return Stmt('setdiscr', PP(lex(m.group(1))).place(), ('n', int(m.group(2))), s)
    if s.startswith('assume('):
        p = PP(lex(s[7:-1]))
        return Stmt('assume', None, ('use', p.operand()), s)
    i = find_assign(s)
    if i < 0:
        raise Unsupported('stmt ' + s)
    return Stmt('assign', PP(lex(s[:i])).place(), parse_rvalue(s[i + 3:]), s)


class Lazy:
    """function text, parsed on demand"""

    def __init__(self, header, body, const, is_const_item):
        self.header = header
        self.body = body
        self.const = const
        self.is_const_item = is_const_item
        self._fn = None
        m = re.match(r'(?:const )?(?:unsafe )?(?:extern "[^"]*" )?(?:fn |static |const )?(?:mut )?(.*)$', header, re.S)
        self.rest = m.group(1)
        self._sig()

    def _sig(self):
        s = self.rest
        if self.is_const_item:
            # name: Ty = {
            d = 0
            i = 0
            # find ': ' at top level not part of '::' or impl at
            j = 0
            while j < len(s):
                if s.startswith('<impl at', j):
                    j = s.index('>', j) + 1
                    continue
                if s[j] in '<([{':
                    d += 1
                elif s[j] in '>)]}':
                    d -= 1
                elif s[j] == ':' and d == 0 and s[j + 1] == ' ' and s[j - 1] != ':':
                    break
                j += 1
            self.name = s[:j]
            self.args_txt = ''
            self.ret_txt = s[j + 2:].rsplit(' = {', 1)[0]
            return
        # name(args) -> ret {
        j = 0
        d = 0
        while j < len(s):
            if s.startswith('<impl at', j):
                j = s.index('>', j) + 1
                continue
            if s.startswith('{closure', j) or s.startswith('{constant', j):
                j = s.index('}', j) + 1
                continue
            if s[j] == '<':
                d += 1
            elif s[j] == '>':
                d -= 1
            elif s[j] == '(' and d == 0:
                break
            j += 1
        self.name = s[:j]
        # matching paren
        k = j
        d = 0
        while True:
            if s[k] in '([{':
                d += 1
            elif s[k] in ')]}':
                d -= 1
                if d == 0:
                    break
            k += 1
        self.args_txt = s[j + 1:k]
        r = s[k + 1:].strip()
        r = r[:-1].strip() if r.endswith('{') else r
        self.ret_txt = r[2:].strip() if r.startswith('->') else '()'

    def args(self):
        out = []
        p = TP(lex(self.args_txt))
        while p.i < len(p.t):
            n = p.next()
            p.expect(':')
            out.append((n, p.ty()))
            p.eat(',')
        return out

    def ret(self):
        return parse_ty(self.ret_txt)

    def fn(self):
        if self._fn is not None:
            return self._fn
        locals_ = {}
        debug = {}
        blocks = {}
        cur = None
        stm = []
        term = None
        for line in self.body:
            l = line.strip()
            if not l or l == '}' or l.startswith('//'):
                if l == '}' and cur is not None:
                    blocks[cur[0]] = Block(cur[0], stm, term, cur[1])
                    cur = None
                continue
            m = re.match(r'(bb\d+)( \(cleanup\))?: \{$', l)
            if m:
                cur = (m.group(1), bool(m.group(2)))
                stm = []
                term = None
                continue
            if cur is None:
                m = re.match(r'let (?:mut )?(_\d+): (.*);$', l)
                if m:
                    locals_[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'debug (\S+) => (.*);$', l)
                if m:
                    debug.setdefault(m.group(1), []).append(m.group(2))
                continue
            if not l.endswith(';'):
                raise Unsupported('line ' + l)
            l = l[:-1]
            if cur[1]:
                # cleanup blocks are never executed by us
                term = Term('resume', {}, l)
                continue
            t = None
            if l.startswith(('goto', 'return', 'unreachable', 'resume', 'switchInt', 'drop(', 'assert(', 'terminate',
                             'falseEdge', 'falseUnwind', 'abort')) or ' -> [' in l or ' -> unwind' in l or re.search(r' -> bb\d+$', l):
                t = parse_term(l)
            if t is not None:
                term = t
            else:
                st = parse_stmt(l)
                if st is not None:
                    stm.append(st)
        args = self.args()
        self._fn = Fn(self.name, args, self.ret(), self.const, locals_, debug, blocks, self.is_const_item, self.header)
        for n, t in args:
            self._fn.locals[n] = str(t)
        return self._fn


def parse_file(text):
    """-> list of Lazy items in file order (functions and const items)"""
    items = []
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if not l or l.startswith('//') or l[0] in ' }':
            i += 1
            continue
        if l.endswith('{'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            body = lines[i + 1:j]
            isfn = re.match(r'(const )?(unsafe )?(extern "[^"]*" )?fn ', l) is not None
            if isfn:
                items.append(Lazy(l, body, l.startswith('const '), False))
            elif l.startswith('alloc'):
                pass
            elif l.endswith('= {'):
                items.append(Lazy(l, body, True, True))
            i = j + 1
        else:
            i += 1
    return items
