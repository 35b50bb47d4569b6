"""Symbolic execution of MIR with z3 terms: the obligation generator of mirvc.

Values
  z3 expressions      integers (Int or BV by mode), booleans, FP floats
  Opq(term, ty)       a value of a type we do not look into, or look into lazily (term of sort U)
  Agg(ty,var,f,base)  struct / tuple / enum variant / closure, functional update
  Ref(cell,path)      reference to a place
Calls  contract -> library model -> inlined body of the same crate -> uninterpreted function
"""
import re, itertools
import z3
from mir import *

U = z3.DeclareSort('U')
INTS = {'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1),
        'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0)}
FLOATS = {'f32', 'f64'}
F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


class Opq:
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f'{self.t}:{self.ty}'


class Agg:
    __slots__ = ('ty', 'var', 'f', 'base')

    def __init__(self, ty, var, f, base=None):
        self.ty = ty
        self.var = var
        self.f = dict(f) if isinstance(f, dict) else dict(enumerate(f))
        self.base = base

    def __repr__(self):
        return f'{self.ty}' + (f'::{self.var}' if self.var else '') + '{' + ', '.join(f'{k}:{v!r}' for k, v in self.f.items()) + '}'

    def with_(self, i, v):
        a = Agg(self.ty, self.var, self.f, self.base)
        a.f[i] = v
        return a


class Ref:
    __slots__ = ('cell', 'path', 'mut')

    def __init__(self, cell, path=(), mut=False):
        self.cell = cell
        self.path = path
        self.mut = mut

    def __repr__(self):
        return f'&{self.cell}{self.path}'


class FnV:
    """function item or closure without captures, as a value"""
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return f'fn {self.callee}'


class Lib:
    """base class of library-model values (iterators, collections)"""
    def to_u(self, eng, st):
        raise Unsupported(f'library value {self!r} as a term')


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'eng')

    def __init__(self, eng):
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.eng = eng

    def copy(self):
        s = State(self.eng)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)

    def cell(self, v):
        c = self.eng.new_cell()
        self.mem[c] = v
        return c


ENUMS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
         'Ordering': ['Less', 'Equal', 'Greater'], 'Cow': ['Borrowed', 'Owned']}

_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


def strip_life(t):
    if not isinstance(t, Ty):
        return t
    return Ty(t.kind, t.name, tuple(strip_life(a) for a in t.args if not (a is not None and a.kind == 'life')))


def trim(t):
    """canonical form: last path segments only, lifetimes dropped, <impl T> blocks replaced by T"""
    if t is None:
        return None
    if t.kind == 'path':
        if len(t.args) == 1 and t.args[0].kind == 'impl':
            return trim(parse_ty(t.args[0].name))
        return Ty('path', t.last, tuple(trim(a) for a in t.args if a.kind != 'life'))
    return Ty(t.kind, t.name, tuple(trim(a) if a is None or a.kind != 'life' else a for a in t.args if a is None or a.kind != 'life'))


def canon(t):
    """canonical callee string"""
    if t.kind == 'path':
        # keep Type::method for two-segment paths
        segs = t.name.split('::')
        nm = '::'.join(segs[-2:]) if len(segs) > 1 else segs[0]
        a = [trim(x) for x in t.args if x.kind != 'life']
        return nm + ('<' + ', '.join(map(str, a)) + '>' if a else '')
    if t.kind == 'proj' and t.args[1] is None:
        base = trim(t.args[0])
        a = [trim(x) for x in t.args[2:] if x.kind != 'life']
        return f'{base}::{t.name}' + ('<' + ', '.join(map(str, a)) + '>' if a else '')
    return str(trim(t))


# ------------------------------------------------------------------ program index
class Impl:
    def __init__(self, span, gens, trait, ty, header, derive=False, where=''):
        self.span, self.gens, self.trait, self.ty, self.header, self.derive, self.where = span, gens, trait, ty, header, derive, where


def clean_src(s):
    s = re.sub(r'//[^\n]*', ' ', s)
    return s


RE_IMPLAT = re.compile(r'<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>')


class Program:
    def __init__(self, name, mir_text, src_of):
        """src_of(path) -> source text"""
        self.name = name
        self.items = parse_file(mir_text)
        self.allocs = dict(re.findall(r'^(alloc\d+) \((.*)\)', mir_text, re.M))
        self.src_of = src_of
        self.impls = {}
        self.fns = [x for x in self.items if not x.is_const_item]
        self.consts = [x for x in self.items if x.is_const_item]
        self.by_last = {}
        for x in self.fns:
            self.by_last.setdefault(self.lastname(x.name), []).append(x)
        self.closures = {}
        for x in self.fns:
            m = re.search(r'\{closure#\d+\}$', x.name)
            if m:
                c = re.search(r'\{closure@[^}]*\}', x.args_txt)
                if c:
                    self.closures[c.group()] = x
        self._enums = None
        self._structs = None

    @staticmethod
    def lastname(n):
        m = RE_IMPLAT.search(n)
        if m:
            n = n[m.end():].lstrip(':') or n
        return re.split(r'::(?![^<]*>)', n)[-1]

    def src_span(self, m):
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        lines = self.src_of(f).split('\n')
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        return '\n'.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])

    def impl_of(self, name):
        m = RE_IMPLAT.search(name)
        if not m:
            return None
        if m.group() in self.impls:
            return self.impls[m.group()]
        txt = self.src_span(m)
        imp = None
        try:
            imp = self._parse_header(m, txt)
        except Unsupported as e:
            imp = Impl(m.group(), [], None, None, txt)
        self.impls[m.group()] = imp
        return imp

    def _parse_header(self, m, txt):
        t = clean_src(txt).strip()
        if not re.match(r'(unsafe\s+)?impl\b', t):
            # derive
            f, l1 = m.group(1), int(m.group(2))
            src = self.src_of(f).split('\n')
            rest = '\n'.join(src[l1 - 1:])
            mm = re.search(r'\b(?:struct|enum|union)\s+([A-Za-z_$]\w*)', rest)
            return Impl(m.group(), [], Ty('path', t.split('::')[-1]), Ty('path', mm.group(1)) if mm else None, txt, True)
        t = t.replace('$crate', 'crate')
        p = TP(lex(t))
        p.eat('unsafe')
        p.expect('impl')
        gens = []
        if p.eat('<'):
            gens = parse_generics(p)
        neg = p.eat('!')
        a = p.ty()
        trait = None
        ty = a
        if p.eat('for'):
            trait = a
            ty = p.ty()
        where = ''
        if p.eat('where'):
            where = join_tokens([v for _, v in p.t[p.i:]])
        imp = Impl(m.group(), gens, trait, ty, txt, False, where)
        imp.where_toks = p.t[p.i:] if where else []
        return imp

    # enum variants from the source files seen in the MIR
    def files(self):
        fs = set()
        for x in self.items:
            for m in RE_IMPLAT.finditer(x.name):
                fs.add(m.group(1))
        return fs

    def enum_variants(self, ty):
        if self._enums is None:
            self._enums = {}
            for f in self.files():
                src = clean_src(self.src_of(f))
                for m in re.finditer(r'\benum\s+(\w+)\s*(?:<[^{]*>)?\s*(?:where[^{]*)?\{', src):
                    i = m.end()
                    d = 1
                    j = i
                    while d:
                        if src[j] in '{([':
                            d += 1
                        elif src[j] in '})]':
                            d -= 1
                        j += 1
                    body = src[i:j - 1]
                    vs = []
                    for part in split_top(re.sub(r'#\[[^\]]*\]', '', body)):
                        mm = re.match(r'\s*(\w+)', part)
                        if mm:
                            vs.append(mm.group(1))
                    self._enums.setdefault(m.group(1), []).append(vs)
                    mod = [x for x in re.sub(r'(/mod)?\.rs$', '', f).split('/') if x]
                    if mod:
                        self._enums.setdefault(f'{mod[-1]}::{m.group(1)}', []).append(vs)
        return self._enums.get(ty)

    def add_source(self, src):
        """enums written by macros, from the expanded text of the crate"""
        self.enum_variants('')
        for m in re.finditer(r'\benum\s+(\w+)\s*(?:<[^{]*>)?\s*(?:where[^{]*)?\{([^{}]*)\}', clean_src(src)):
            vs = [mm.group(1) for mm in (re.match(r'\s*(\w+)\s*$', x) for x in re.sub(r'#\[[^\]]*\]', '', m.group(2)).split(',')) if mm]
            if vs and m.group(1) not in self._enums:
                self._enums[m.group(1)] = [vs]

    def struct_fields(self, name):
        """[(field, type text)] of a struct, read from the source the MIR was produced from"""
        unit = False
        for f in sorted(self.files()):
            src = clean_src(self.src_of(f))
            m = re.search(r'\bstruct\s+' + name + r'\s*(?:<[^{;(]*>)?\s*(?:where[^{;]*)?([{(;])', src)
            if not m:
                continue
            if m.group(1) == ';':
                unit = True          # may be inside a quotation: look on
                continue
            i, d, j = m.end(), 1, m.end()
            while d:
                d += (src[j] in '{([') - (src[j] in '})]')
                j += 1
            out = []
            for k, part in enumerate(split_angle(re.sub(r'#\[[^\]]*\]', '', src[i:j - 1]))):
                if not part.strip():
                    continue
                mm = re.match(r'\s*(?:pub(?:\([^)]*\))?\s+)?(?:(\w+)\s*:\s*)?(.*)', part, re.S)
                out.append((mm.group(1) or str(k), mm.group(2).strip()))
            return out
        if unit:
            return []
        raise Unsupported(f'struct {name} not found')

    def find(self, pred):
        return [x for x in self.fns if pred(x)]


def parse_generics(p):
    gens = []
    while not p.eat('>'):
        if p.kind() == 'life':
            p.next()
            if p.eat(':'):
                while p.kind() == 'life':
                    p.next()
                    p.eat('+')
        elif p.peek() == 'const':
            p.next()
            n = p.next()
            p.expect(':')
            gens.append(('const', n, p.ty()))
        else:
            n = p.next()
            b = []
            if p.eat(':'):
                b.append(p.bound())
                while p.eat('+'):
                    b.append(p.bound())
            if p.eat('='):
                p.ty()
            gens.append(('type', n, b))
        p.eat(',')
    return gens


def unify(pat, t, gens, sub):
    """match header type pat (with generic names) against t"""
    if pat is None or t is None:
        return pat is None and t is None
    if pat.kind == 'path' and not pat.args and pat.name in gens:
        if pat.name in sub:
            return str(trim(sub[pat.name])) == str(trim(t)) or t.kind == 'const'
        sub[pat.name] = t
        return True
    if pat.kind == 'const' or t.kind == 'const':
        return True
    if pat.kind == 'path' and t.kind == 'path':
        if pat.last != t.last and pat.last != 'Self':
            return False
        if pat.last.startswith('$'):
            return True
        if len(pat.args) != len(t.args):
            pa = [a for a in pat.args if a.kind not in ('life', 'bind')]
            ta = [a for a in t.args if a.kind not in ('life', 'bind')]
            if len(pa) != len(ta):
                return not pa or not ta    # defaulted / elided arguments
            return all(unify(a, b, gens, sub) for a, b in zip(pa, ta))
        return all(unify(a, b, gens, sub) for a, b in zip(pat.args, t.args))
    if pat.kind != t.kind:
        return False
    if pat.kind == 'proj':
        return pat.name == t.name and len(pat.args) == len(t.args) and all(
            (a is None) == (b is None) and (a is None or unify(a, b, gens, sub)) for a, b in zip(pat.args, t.args))
    if len(pat.args) != len(t.args):
        return False
    return all(unify(a, b, gens, sub) for a, b in zip(pat.args, t.args))


def subst_ty(t, sub):
    if t is None:
        return None
    if t.kind == 'path' and not t.args and t.name in sub:
        return sub[t.name]
    if t.kind == 'const' and t.name in sub:
        return sub[t.name]
    if not t.args:
        return t
    return Ty(t.kind, t.name, tuple(subst_ty(a, sub) for a in t.args))


class Outcome:
    def __init__(self, kind, st, val=None, msg=''):
        self.kind, self.st, self.val, self.msg = kind, st, val, msg


class Engine:
    def __init__(self, prog, mode='int', fp=False, contracts=None, models=None, consts=None, loops=None,
                 max_unroll=40, max_paths=4000, max_depth=25):
        self.prog = prog
        self.mode = mode
        self.fp = fp
        self.contracts = contracts or []
        self.models = models or []
        self.consts = consts or {}
        self.loops = loops or {}
        self.max_unroll = max_unroll
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.ncell = 0
        self.nfresh = 0
        self.trace_uf = set()
        self.used_contracts = set()
        self.used_models = set()
        self.inlined = set()
        self.side = []        # side obligations: (label, [assumptions], goal)
        self.facts = {}       # term -> axioms emitted at construction, global
        self.typed = set()
        self.skolems = set()  # names of functions that take the binders in scope as arguments
        self.factset = {}     # id -> path-independent facts
        self.binders = {}     # id -> binder constants
        self.theory = []      # quantified axioms of the library theories in use
        self.depth = 0
        self.paths = 0
        self._fcache = {}
        self._qcache = {}
        self._solver = z3.Solver()
        self._solver.set('timeout', 1500)
        self.generic_params = set()
        self.witness, self.panics, self.collectors = {}, set(), {}

    # -------------------------------------------------- values
    def new_cell(self):
        self.ncell += 1
        return f'c{self.ncell}'

    def fresh_name(self, base='v'):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def int_sort(self, ty):
        if self.mode == 'bv':
            return z3.BitVecSort(INTS[ty.name][0])
        return z3.IntSort()

    def rng(self, ty, x):
        w, s = INTS[ty]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return z3.And(x >= lo, x <= hi)

    def fact(self, st, c):
        """a truth about a term, independent of the path"""
        st.assume(c)
        self.factset[c.get_id()] = c

    def range_fact(self, st, c):
        """a truth about a term that holds because of its type (range of an integer view or of a discriminant)"""
        self.fact(st, c)
        self.typed.add(c.get_id())

    def binder(self, sort, base='b'):
        """a constant standing for an arbitrary element: facts about it hold for all its values"""
        b = z3.Const(self.fresh_name(base), sort)
        self.binders[b.get_id()] = b
        return b

    def val_of_term(self, ty, t, st):
        """typed view of the U-term t"""
        if ty.kind == 'path':
            n = ty.name
            if n in INTS:
                w, s = INTS[n]
                if self.mode == 'bv':
                    return uf(f'bv{w}', U, z3.BitVecSort(w))(t)
                x = uf('int', U, z3.IntSort())(t)
                self.range_fact(st, self.rng(n, x))
                return x
            if n == 'bool':
                return uf('bool', U, z3.BoolSort())(t)
            if n in FLOATS and self.fp:
                return uf(n, U, F64 if n == 'f64' else F32)(t)
            if n in ('Box', 'std::boxed::Box', 'alloc::boxed::Box') or ty.last == 'Box':
                return Opq(t, ty)
        if ty.kind in ('ref', 'refmut'):
            inner = self.val_of_term(ty.args[0], t, st)
            return Ref(st.cell(inner), (), ty.kind == 'refmut')
        if ty.kind == 'tuple' and not ty.args:
            return Agg('()', None, [])
        return Opq(t, ty)

    def fresh(self, ty, st, base='v'):
        nm = self.fresh_name(base)
        if ty.kind == 'path':
            n = ty.name
            if n in INTS:
                if self.mode == 'bv':
                    return z3.BitVec(nm, INTS[n][0])
                x = z3.Int(nm)
                self.range_fact(st, self.rng(n, x))
                return x
            if n == 'bool':
                return z3.Bool(nm)
            if n in FLOATS and self.fp:
                return z3.FP(nm, F64 if n == 'f64' else F32)
        if ty.kind in ('ref', 'refmut'):
            return Ref(st.cell(self.fresh(ty.args[0], st, base)), (), ty.kind == 'refmut')
        if ty.kind == 'tuple' and not ty.args:
            return Agg('()', None, [])
        return Opq(z3.Const(nm, U), ty)

    def to_u(self, v, st):
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, Ref):
            return self.to_u(self.load(st, v.cell, v.path), st)
        if isinstance(v, Agg):
            if v.base is not None and not v.f:
                return v.base.t
            if v.base is not None:
                v = self.complete(v, st)
            fs = [self.to_u(v.f[k], st) for k in sorted(v.f)]
            ty = v.ty.last if isinstance(v.ty, Ty) and v.ty.kind == 'path' else (v.ty.kind if isinstance(v.ty, Ty) else str(v.ty))
            name = f'mk:{ty}' + (f':{v.var}' if v.var else '')
            f = uf(name + f'/{len(fs)}', *([U] * len(fs)), U)
            t = f(*fs) if fs else z3.Const(name, U)
            if t.get_id() not in self.facts:
                ax = []
                for i, x in enumerate(fs):
                    ax.append(self.proj(t, v.var, sorted(v.f)[i]) == x)
                if v.var is not None:
                    ax.append(uf('discr', U, z3.IntSort())(t) == self.variant_index(v.ty, v.var))
                self.facts[t.get_id()] = (t, ax)
            return t
        if isinstance(v, FnV):
            return z3.Const('fn:' + canon(v.callee) if isinstance(v.callee, Ty) else f'fn:{v.callee}', U)
        if isinstance(v, Lib):
            return v.to_u(self, st)
        if z3.is_expr(v):
            s = v.sort()
            if s == U:
                return v
            nm = 'u<' + str(s).replace(' ', '') + '>'
            t = uf(nm, s, U)(v)
            if t.get_id() not in self.facts:
                inv = {z3.Z3_INT_SORT: 'int', z3.Z3_BOOL_SORT: 'bool'}.get(s.kind())
                if inv is None and s.kind() == z3.Z3_BV_SORT:
                    inv = f'bv{s.size()}'
                if inv is None and s == F64:
                    inv = 'f64'
                if inv is None and s == F32:
                    inv = 'f32'
                if inv is None:
                    raise Unsupported(f'sort {s} as a term')
                self.facts[t.get_id()] = (t, [uf(inv, U, s)(t) == v])
            return t
        raise Unsupported(f'to_u {v!r}')

    def complete(self, v, st):
        n = self.nfields(v.ty)
        if n is None:
            raise Unsupported(f'partial update of {v.ty}')
        a = Agg(v.ty, v.var, v.f)
        for i, fty in enumerate(n):
            if i not in a.f:
                a.f[i] = self.val_of_term(fty, self.proj(v.base.t, v.var, i), st)
        return a

    def nfields(self, ty):
        """field types of a struct type, if registered"""
        key = ty.last if isinstance(ty, Ty) and ty.kind == 'path' else None
        if isinstance(ty, Ty) and ty.kind == 'tuple':
            return list(ty.args)
        r = self.consts.get('fields:' + str(key)) if key else None
        if r is None and key:
            try:
                r = [strip_life(parse_ty(t)) for _, t in self.prog.struct_fields(key)]
            except Unsupported:
                return None
        return r

    def proj(self, t, var, i):
        return uf(f'{var + "." if var else ""}{i}', U, U)(t)

    def variant_index(self, ty, var):
        key = ty.last if isinstance(ty, Ty) and ty.kind in ('path', 'proj') else str(ty)
        if key in ENUMS:
            i = ENUMS[key].index(var)
            return i - 1 if key == 'Ordering' else i
        for vs in (self.prog.enum_variants(key) or []):
            if var in vs:
                return vs.index(var)
        raise Unsupported(f'variant {key}::{var}')

    def is_enum_ty(self, ty):
        key = ty.last if isinstance(ty, Ty) and ty.kind == 'path' else str(ty)
        return key in ENUMS or bool(self.prog.enum_variants(key))

    def discr(self, v, st):
        if isinstance(v, Agg):
            if v.var is not None:
                return z3.IntVal(self.variant_index(v.ty, v.var))
            if v.base is not None:
                v = v.base
        if isinstance(v, Opq):
            d = uf('discr', U, z3.IntSort())(v.t)
            n = None
            key = v.ty.last if isinstance(v.ty, Ty) and v.ty.kind == 'path' else None
            if key in ENUMS:
                n = len(ENUMS[key])
            elif key:
                vs = self.prog.enum_variants('::'.join(v.ty.name.split('::')[-2:])) or self.prog.enum_variants(key)
                if vs and len({len(x) for x in vs}) == 1:
                    n = len(vs[0])
            if n and key != 'Ordering':
                self.range_fact(st, z3.And(d >= 0, d < n))
            elif key == 'Ordering':
                self.range_fact(st, z3.And(d >= -1, d <= 1))
            return d
        if isinstance(v, Lib) and hasattr(v, 'discr'):
            return v.discr(self, st)
        raise Unsupported(f'discriminant of {v!r}')

    def field(self, v, var, i, ty, st):
        if isinstance(v, Agg):
            if i in v.f:
                return v.f[i]
            if v.base is not None:
                return self.val_of_term(ty, self.proj(v.base.t, var, i), st)
            raise Unsupported(f'field {i} of {v!r}')
        if isinstance(v, Opq):
            if i == 0 and var is None and isinstance(v.ty, Ty) and v.ty.kind == 'path' and v.ty.last in ('Box', 'Unique', 'NonNull') and \
                    isinstance(ty, Ty) and (ty.kind == 'ptr' or ty.kind == 'path' and ty.last in ('Unique', 'NonNull')):
                return Opq(v.t, ty)      # owning pointers are transparent
            return self.val_of_term(ty, self.proj(v.t, var, i), st)
        if isinstance(v, Lib) and hasattr(v, 'field'):
            return v.field(self, st, var, i, ty)
        if isinstance(v, Ref):
            # Box / Unique / NonNull wrappers around a pointer
            return v
        raise Unsupported(f'field {i} of {v!r}')

    def load(self, st, cell, path):
        v = st.mem[cell]
        var = None
        for e in path:
            v, var = self.step(v, var, e, st)
        return v

    def step(self, v, var, e, st):
        if e[0] == 'f':
            return self.field(v, var, e[1], e[2], st), None
        if e[0] == 'v':
            return v, e[1]
        if e[0] == 'i':
            return self.index(v, e[1], e[2], st), None
        if e[0] == 'k':      # value of a map entry
            return self.val_of_term(e[2], uf('map.get', U, U, U)(self.to_u(v, st), e[1]), st), None
        raise Unsupported(f'path step {e}')

    def index(self, v, idx, ty, st):
        if isinstance(v, Agg):
            k = z3.simplify(idx)
            if z3.is_int_value(k) or z3.is_bv_value(k):
                return v.f[k.as_long()]
        if isinstance(v, Lib) and hasattr(v, 'index'):
            return v.index(self, st, idx, ty)
        raise Unsupported(f'index of {v!r}')

    def store(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self._upd(st, st.mem.get(cell), None, path, val)

    def _upd(self, st, v, var, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'v':
            return self._upd(st, v, e[1], path[1:], val)
        if e[0] == 'f':
            if v is None:
                v = Agg('?', var, [])
            if isinstance(v, Opq):
                v = Agg(v.ty, var, [], v)
            if not isinstance(v, Agg):
                raise Unsupported(f'write to field of {v!r}')
            old = None
            if len(path) > 1:
                old = self.field(v, var, e[1], e[2], st)
            return v.with_(e[1], self._upd(st, old, None, path[1:], val))
        if e[0] == 'i' and isinstance(v, Agg):
            k = z3.simplify(e[1])
            if z3.is_int_value(k) or z3.is_bv_value(k):
                i = k.as_long()
                return v.with_(i, self._upd(st, v.f[i], None, path[1:], val))
        if e[0] == 'k':
            old = self.step(v, None, e, st)[0] if len(path) > 1 else None
            new = self._upd(st, old, None, path[1:], val)
            return Opq(uf('map.insert', U, U, U, U)(self.to_u(v, st), e[1], self.to_u(new, st)), v.ty)
        if e[0] == 'i' and isinstance(v, Lib) and hasattr(v, 'set_index') and len(path) == 1:
            return v.set_index(self, st, e[1], val)
        raise Unsupported(f'write to {e} of {v!r}')

    # -------------------------------------------------- places
    def resolve(self, fr, st, pl):
        """place -> (cell, path)"""
        cell = fr['cells'][pl.local]
        path = ()
        tyhint = None
        for e in pl.proj:
            if e[0] == 'deref':
                v = self.load(st, cell, path)
                v = self.unbox(v, st)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif isinstance(v, Opq):
                    # transparent reference / box: same term, pointee type
                    ity = v.ty.args[0] if v.ty.kind in ('ref', 'refmut', 'ptr') or v.ty.last in ('Box', 'Unique', 'NonNull') else v.ty
                    inner = self.val_of_term(ity, v.t, st)
                    c = st.cell(inner)
                    # remember so that writes are seen again
                    self.store(st, cell, path, Ref(c, (), True))
                    cell, path = c, ()
                else:
                    raise Unsupported(f'deref of {v!r}')
            elif e[0] == 'field':
                path = path + (('f', e[1], e[2]),)
            elif e[0] == 'downcast':
                path = path + (('v', e[1]),)
            elif e[0] == 'index':
                idx = self.load(st, fr['cells'][e[1]], ())
                path = path + (('i', idx, None),)
            elif e[0] == 'cindex':
                if e[2] and False:
                    pass
                path = path + (('i', self.intval(e[1], 'usize'), None),)
            else:
                raise Unsupported(f'projection {e[0]}')
        return cell, path

    def unbox(self, v, st):
        while isinstance(v, Agg) and not isinstance(v.ty, str) and v.ty.kind == 'path' and v.ty.last in ('Box', 'Unique', 'NonNull') and 0 in v.f:
            v = v.f[0]
        return v

    def intval(self, n, tyname):
        if self.mode == 'bv':
            return z3.BitVecVal(n, INTS[tyname][0])
        return z3.IntVal(n)

    # -------------------------------------------------- operands
    def operand(self, fr, st, op):
        if op.kind in ('copy', 'move'):
            c, p = self.resolve(fr, st, op.place)
            if c not in st.mem:
                raise Unsupported(f'read of uninitialised {op.place.local}')
            return self.load(st, c, p)
        return self.constant(fr, st, op.text)

    def op_ty(self, fr, op):
        """static type of an operand if cheaply known"""
        if op.kind in ('copy', 'move'):
            for e in reversed(op.place.proj):
                if e[0] == 'field':
                    return self.sub(fr, e[2])
                break
            if not op.place.proj:
                return self.local_ty(fr, op.place.local)
            if op.place.proj and op.place.proj[-1][0] == 'deref':
                p = Op('copy', Place(op.place.local, op.place.proj[:-1]))
                t = self.op_ty(fr, p)
                if t is not None and t.kind in ('ref', 'refmut', 'ptr'):
                    return t.args[0]
                if t is not None and t.kind == 'path' and t.last == 'Box':
                    return t.args[0]
        else:
            s = str(op.text)
            m = re.match(r'^-?[\d_.]+(?:[eE]-?\d+)?_?([iu]\d+|[iu]size|f32|f64)$', s)
            if m:
                return Ty('path', m.group(1))
            m = re.search(r'ZeroSized:\s*(.*)$', s)
            if m:
                return parse_ty(m.group(1))
        return None

    def local_ty(self, fr, l):
        c = fr['tycache']
        if l not in c:
            t = fr['fn'].locals.get(l)
            if l == '_0' and t is None:
                c[l] = fr['fn'].ret
            else:
                c[l] = strip_life(parse_ty(t)) if t else None
        return self.sub(fr, c[l])

    def sub(self, fr, t):
        return subst_ty(t, fr['sub']) if fr['sub'] and t is not None else t

    def float_const(self, txt, ty):
        x = float(txt.replace('_', ''))
        if self.fp:
            return z3.FPVal(x, F64 if ty == 'f64' else F32)
        return Opq(z3.Const(f'{ty}:{x!r}', U), Ty('path', ty))

    def constant(self, fr, st, ct):
        s = str(ct)
        m = re.match(r'^(-?[\d_]+)_([iu]\d+|[iu]size)$', s)
        if m:
            return self.intval(int(m.group(1).replace('_', '')), m.group(2))
        m = re.match(r'^([iu](?:8|16|32|64|128|size))::(MAX|MIN|BITS)$', s)
        if m:
            w, sg = INTS[m.group(1)]
            if m.group(2) == 'BITS':
                return self.intval(w, 'u32')
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return self.intval(hi if m.group(2) == 'MAX' else lo, m.group(1))
        if s in ('true', 'false'):
            return z3.BoolVal(s == 'true')
        m = re.match(r'^(-?[\d_.]+(?:[eE][-+]?\d+)?|-?inf|NaN)_?(f32|f64)$', s)
        if m:
            return self.float_const(m.group(1), m.group(2))
        if s == '()':
            return Agg('()', None, [])
        if s.startswith('"'):
            return Ref(st.cell(Opq(z3.Const('str:' + s, U), Ty('path', 'str'))))
        if s.startswith("'"):
            return Opq(z3.Const('char:' + s, U), Ty('path', 'char'))
        m = re.match(r'^\{(alloc\d+):\s*(.*)\}$', s)
        if m:
            what = re.match(r'(?:extern )?static: (.*?)(?:, size: .*)?$', self.prog.allocs.get(m.group(1), ''))
            if not what:
                raise Unsupported('constant ' + s)
            t = parse_ty(m.group(2))
            nm = what.group(1)
            return Ref(st.cell(Opq(z3.Const('static:' + nm, U), t.args[0] if t.args else None)))
        m = re.match(r'^ZeroSized:\s*(.*)$', s)
        if m:
            t = parse_ty(m.group(1))
            if t.kind == 'closure':
                return Agg(t, None, [])
            if t.kind == 'fnitem' or t.kind == 'fn':
                return FnV(t)
            return Opq(z3.Const('zst:' + str(trim(t)), U), t)
        m = re.search(r'::promoted\[(\d+)\]$', s)
        if m:
            return self.promoted(fr, st, m.group(1), s)
        p = TP(ct.toks)
        try:
            t = p.ty()
        except Unsupported:
            t = None
        if t is None or p.i != len(p.t):
            if t is not None and p.peek() in ('{', '('):
                # struct literal constants  Magnitude { mantissa: 1_u64, ... } / Wrapper(..)
                rv = parse_rvalue(join_tokens_exact(ct.toks))
                if rv[0] == 'agg':
                    return self.rvalue(fr, st, rv, None)
            raise Unsupported('constant ' + s)
        t = self.sub(fr, strip_life(t))
        if t.kind == 'const':
            if ct.toks != lex(t.name):
                return self.constant(fr, st, ConstTok(lex(t.name.strip('{} '))))
        h = self.consts.get('const')
        if h:
            r = h(self, fr, st, t, s)
            if r is not None:
                return r
        # unit enum variants / unit structs
        if t.kind in ('path', 'proj'):
            r = self.variant_const(t)
            if r is not None:
                return r
        # const items of this crate: evaluate body
        body = self.find_const(t)
        if body is not None:
            outs = [o for o in self.call_body(body, [], st, {}) if o.kind == 'ret']
            if len(outs) == 1:
                st.pc[:] = outs[0].st.pc
                st.mem.update(outs[0].st.mem)
                return outs[0].val
            raise Unsupported(f'const item {t}')
        if t.kind == 'path' and not t.args and t.name in self.generic_params:
            return self.generic_const(t, st)
        # function item
        if t.kind in ('path', 'proj'):
            nm = t.name.split('::')[-1]
            if nm[:1].islower() or nm[:1] == '{':
                return FnV(t)
            if nm.isupper() or re.fullmatch(r'[A-Z][A-Z0-9_]*', nm):
                return self.generic_const(t, st)
            # constructor function
            return FnV(t)
        raise Unsupported('constant ' + s)

    def promoted(self, fr, st, n, s):
        nm = f'{fr["item"].name}::promoted[{n}]'
        c = [x for x in self.prog.consts if x.name == nm]
        if not c:
            raise Unsupported('constant ' + s)
        outs = self.call_body(c[-1], [], st, fr['sub'])
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Unsupported('constant ' + s)
        st.pc[:] = outs[0].st.pc
        st.mem.update(outs[0].st.mem)
        return outs[0].val

    def generic_const(self, t, st):
        k = 'const:' + ('::'.join(t.name.split('::')[-2:]) if t.kind == 'path' and not t.args else str(trim(t)))
        ty = self.consts.get('type:' + t.name)
        if ty is not None:
            return self.val_of_term(ty, z3.Const(k, U), st)
        return Opq(z3.Const(k, U), Ty('path', '?'))

    def variant_const(self, t):
        segs = None
        if t.kind == 'path':
            segs = t.name.split('::')
            if len(segs) < 2:
                return None
            e, v = segs[-2], segs[-1]
            ty = Ty('path', '::'.join(segs[:-1]))
        else:
            e, v = (t.args[0].last, t.name) if t.args[0].kind == 'path' else (None, None)
            ty = t.args[0]
        if e is None:
            return None
        if e in ENUMS and v in ENUMS[e]:
            if v in ('Some', 'Ok', 'Err', 'Continue', 'Break'):
                return None
            return Agg(ty, v, [])
        for vs in (self.prog.enum_variants(e) or []):
            if v in vs:
                return Agg(ty, v, [])
        return None

    def find_const(self, t):
        if t.kind == 'path':
            suffix = t.name
            c = [x for x in self.prog.consts if x.name == suffix or x.name.endswith('::' + suffix)]
            if len(c) == 1 and '{constant' not in c[0].name:
                return c[0]
            segs = suffix.split('::')
            if len(segs) >= 2:
                c = [x for x in self.prog.consts if Program.lastname(x.name) == segs[-1] and RE_IMPLAT.search(x.name)
                     and '{constant' not in x.name and (lambda i: i and i.ty and i.ty.last == segs[-2])(self.prog.impl_of(x.name))]
                if len(c) == 1:
                    return c[0]
        if t.kind == 'proj':
            c = [x for x in self.prog.consts if Program.lastname(x.name) == t.name and RE_IMPLAT.search(x.name)]
            c = [x for x in c if (lambda i: i and i.ty and unify(i.ty, t.args[0], {g[1] for g in i.gens}, {}))(self.prog.impl_of(x.name))]
            if len(c) == 1:
                return c[0]
        return None

    # -------------------------------------------------- arithmetic
    def is_int_ty(self, t):
        return t is not None and t.kind == 'path' and t.name in INTS

    def is_float_ty(self, t):
        return t is not None and t.kind == 'path' and t.name in FLOATS

    def tdiv(self, a, b):
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
            x, y = a.as_long(), b.as_long()
            q = abs(x) // abs(y)
            return z3.IntVal(q if (x >= 0) == (y >= 0) else -q)
        return z3.If(a >= 0, a / b, -((-a) / b))

    def binop(self, op, a, b, ty, st):
        if self.is_float_ty(ty):
            if self.fp:
                if z3.is_expr(a):
                    m = {'Add': lambda: z3.fpAdd(RNE, a, b), 'Sub': lambda: z3.fpSub(RNE, a, b),
                         'Mul': lambda: z3.fpMul(RNE, a, b), 'Div': lambda: z3.fpDiv(RNE, a, b),
                         'Eq': lambda: z3.fpEQ(a, b), 'Ne': lambda: z3.Not(z3.fpEQ(a, b)),
                         'Lt': lambda: z3.fpLT(a, b), 'Le': lambda: z3.fpLEQ(a, b),
                         'Gt': lambda: z3.fpGT(a, b), 'Ge': lambda: z3.fpGEQ(a, b)}
                    if op in m:
                        return m[op]()
            return self.float_uf(op, ty, [a, b], st)
        if z3.is_bool(a):
            r = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'BitAnd': lambda: z3.And(a, b), 'BitOr': lambda: z3.Or(a, b),
                 'BitXor': lambda: z3.Xor(a, b)}
            if op in r:
                return r[op]()
            raise Unsupported('bool ' + op)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            if op in ('Eq', 'Ne'):
                e = self.eqv(a, b, st)
                return e if op == 'Eq' else z3.Not(e)
            raise Unsupported(f'binop {op} on {a!r}, {b!r}')
        w, sg = INTS[ty.name] if self.is_int_ty(ty) else (64, 1)
        if z3.is_bv(a):
            if op.startswith('Sh') and b.size() != a.size():
                b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            base = op.replace('Unchecked', '')
            if base.endswith('WithOverflow'):
                base = base[:-len('WithOverflow')]
                e = a.size() if base == 'Mul' else 1
                ext = (lambda x: z3.SignExt(e, x)) if sg else (lambda x: z3.ZeroExt(e, x))
                wide = {'Add': lambda: ext(a) + ext(b), 'Sub': lambda: ext(a) - ext(b), 'Mul': lambda: ext(a) * ext(b)}[base]()
                r = z3.Extract(a.size() - 1, 0, wide)
                return Agg(Ty('tuple'), None, [r, ext(r) != wide])
            m = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b,
                 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b,
                 'Shr': lambda: (a >> b) if sg else z3.LShR(a, b),
                 'Div': lambda: (a / b) if sg else z3.UDiv(a, b), 'Rem': lambda: z3.SRem(a, b) if sg else z3.URem(a, b),
                 'Eq': lambda: a == b, 'Ne': lambda: a != b,
                 'Lt': lambda: (a < b) if sg else z3.ULT(a, b), 'Le': lambda: (a <= b) if sg else z3.ULE(a, b),
                 'Gt': lambda: (a > b) if sg else z3.UGT(a, b), 'Ge': lambda: (a >= b) if sg else z3.UGE(a, b)}
            if base in m:
                return m[base]()
            raise Unsupported('bv ' + op)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if op.endswith('WithOverflow'):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op[:-len('WithOverflow')]]()
            return Agg(Ty('tuple'), None, [r, z3.Or(r < lo, r > hi)])
        m = {'Div': lambda: self.tdiv(a, b), 'Rem': lambda: a - b * self.tdiv(a, b), 'Eq': lambda: a == b, 'Ne': lambda: a != b,
             'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b,
             'AddUnchecked': lambda: a + b, 'SubUnchecked': lambda: a - b, 'MulUnchecked': lambda: a * b,
             'Add': lambda: self.wrap(a + b, w, sg), 'Sub': lambda: self.wrap(a - b, w, sg), 'Mul': lambda: self.wrap(a * b, w, sg)}
        if op in m:
            return m[op]()
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            # uninterpreted (deterministic) in mathematical-integer mode
            return uf(f'bits.{op}.{ty.name if self.is_int_ty(ty) else "int"}', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        raise Unsupported('int ' + op)

    def wrap(self, x, w, sg):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % (1 << w) + lo)

    def float_uf(self, op, ty, args, st):
        """floating point operation as an uninterpreted function (one per operation and type)"""
        key = f'{ty.name}.{op}'
        us = [self.to_u(a, st) for a in args]
        if op in ('Add', 'Mul', 'Eq', 'Ne'):
            us.sort(key=lambda x: str(x))
        if op in ('Gt', 'Ge'):
            key = f'{ty.name}.' + {'Gt': 'Lt', 'Ge': 'Le'}[op]
            us = us[::-1]
        if op == 'Ne':
            return z3.Not(uf(f'{ty.name}.Eq', U, U, z3.BoolSort())(*us))
        if op in ('Eq', 'Lt', 'Le', 'Gt', 'Ge'):
            return uf(key, U, U, z3.BoolSort())(*us)
        return Opq(uf(key, *([U] * len(us)), U)(*us), ty)

    def cast(self, v, sty, tty, kind, st):
        if kind.startswith('(') and kind.endswith(')'):
            kind = kind[1:-1]
        if kind == 'IntToInt':
            if z3.is_bool(v):
                return z3.If(v, self.intval(1, tty.name), self.intval(0, tty.name))
            if isinstance(v, Opq) and v.ty.name == 'char':
                raise Unsupported('char cast')
            w, s = INTS[tty.name]
            if z3.is_bv(v):
                w0 = v.size()
                s0 = INTS[sty.name][1] if self.is_int_ty(sty) else 1
                if w <= w0:
                    return z3.Extract(w - 1, 0, v)
                return z3.SignExt(w - w0, v) if s0 else z3.ZeroExt(w - w0, v)
            if self.is_int_ty(sty):
                w0, s0 = INTS[sty.name]
                if (s0 == s and w >= w0) or (s and not s0 and w > w0):
                    return v
            return self.wrap(v, w, s)
        if kind == 'IntToFloat':
            if self.fp and z3.is_bv(v):
                s0 = INTS[sty.name][1]
                srt = F64 if tty.name == 'f64' else F32
                return z3.fpSignedToFP(RNE, v, srt) if s0 else z3.fpUnsignedToFP(RNE, v, srt)
            return Opq(uf(f'{sty}->{tty}', U, U)(self.to_u(v, st)), tty)
        if kind == 'FloatToFloat':
            if sty is not None and str(sty) == str(tty):
                return v
            if self.fp and z3.is_fp(v):
                return z3.fpFPToFP(RNE, v, F64 if tty.name == 'f64' else F32)
            return Opq(uf(f'{sty}->{tty}', U, U)(self.to_u(v, st)), tty)
        if kind == 'FloatToInt':
            if self.fp:
                raise Unsupported('FloatToInt')
            return self.val_of_term(tty, uf(f'{sty}->{tty}', U, U)(self.to_u(v, st)), st)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute'):
            if kind == 'Transmute':
                # NonNull<T> -> *const T and the like
                if isinstance(v, (Ref, Agg)) and tty.kind == 'ptr':
                    return self.unbox(v, st)
                if isinstance(v, Opq) and tty.kind == 'ptr':
                    return v
                if isinstance(v, (Ref, Opq)) and tty.kind == 'path' and tty.name == 'usize':
                    return self.fresh(tty, st, 'addr')
                if z3.is_bv(v) and self.fp and tty.name == 'f64':
                    return z3.fpBVToFP(v, F64)
                raise Unsupported('transmute')
            return v
        raise Unsupported('cast ' + kind)

    # -------------------------------------------------- equality
    def eqv(self, a, b, st, depth=0):
        if isinstance(a, Ref):
            return self.eqv(self.load(st, a.cell, a.path), b, st, depth)
        if isinstance(b, Ref):
            return self.eqv(a, self.load(st, b.cell, b.path), st, depth)
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                raise Unsupported(f'equality {a.sort()} / {b.sort()}')
            return a == b
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var and a.base is None and b.base is None:
                return z3.BoolVal(False)
            if a.base is None and b.base is None:
                ks = set(a.f) | set(b.f)
                if set(a.f) != set(b.f):
                    raise Unsupported('arity in equality')
                return z3.And([self.eqv(a.f[k], b.f[k], st) for k in sorted(ks)] or [z3.BoolVal(True)])
        if isinstance(a, Opq) and isinstance(b, Agg):
            a, b = b, a
        if isinstance(a, Agg) and isinstance(b, Opq) and a.base is None:
            cs = []
            if a.var is not None:
                cs.append(self.discr(b, st) == self.variant_index(a.ty, a.var))
            for k, x in a.f.items():
                cs.append(self.to_u(x, st) == self.proj(b.t, a.var, k))
            return z3.And(cs or [z3.BoolVal(True)])
        if isinstance(a, Lib) and hasattr(a, 'eqv'):
            return a.eqv(self, st, b)
        if isinstance(b, Lib) and hasattr(b, 'eqv'):
            return b.eqv(self, st, a)
        return self.to_u(a, st) == self.to_u(b, st)

    # -------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k in ('ref', 'refmut', 'raw'):
            c, p = self.resolve(fr, st, rv[1])
            if c not in st.mem and p == ():
                t = self.local_ty(fr, rv[1].local)
                if t is not None and t.kind == 'closure':
                    st.mem[c] = Agg(t, None, [])    # captures nothing: never assigned
            return Ref(c, p, k != 'ref')
        if k == 'bin':
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ty = self.op_ty(fr, rv[2]) or self.op_ty(fr, rv[3])
            return self.binop(rv[1], a, b, ty, st)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            ty = self.op_ty(fr, rv[2])
            if rv[1] == 'Not':
                if z3.is_bool(a):
                    return z3.Not(a)
                if z3.is_bv(a):
                    return ~a
                raise Unsupported('Not')
            if rv[1] == 'Neg':
                if self.is_float_ty(ty):
                    return z3.fpNeg(a) if self.fp else self.float_uf('Neg', ty, [a], st)
                if z3.is_bv(a):
                    return -a
                if z3.is_int(a):
                    w, s = INTS[ty.name]
                    return self.wrap(-a, w, s)
            if rv[1] == 'PtrMetadata':
                return self.lib_len(a, st)
            raise Unsupported('unop ' + rv[1])
        if k == 'cast':
            v = self.operand(fr, st, rv[1])
            return self.cast(v, self.op_ty(fr, rv[1]), self.sub(fr, strip_life(rv[2])), rv[3], st)
        if k == 'discr':
            c, p = self.resolve(fr, st, rv[1])
            d = self.discr(self.load(st, c, p), st)
            return d
        if k == 'len':
            c, p = self.resolve(fr, st, rv[1])
            return self.lib_len(self.load(st, c, p), st)
        if k == 'agg':
            ty = strip_life(rv[1])
            fs = [self.operand(fr, st, o) for o in rv[3]]
            ty = self.sub(fr, ty)
            if ty.kind == 'path' and ty.args == () or ty.kind in ('path', 'proj'):
                # enum variant?
                if ty.kind == 'path':
                    segs = ty.name.split('::')
                    e = segs[-2] if len(segs) > 1 else None
                    v = segs[-1]
                    base = Ty('path', '::'.join(segs[:-1])) if e else None
                else:
                    base = ty.args[0]
                    e = base.last if base.kind == 'path' else None
                    v = ty.name
                if e and (e in ENUMS and v in ENUMS[e] or any(v in vs for vs in (self.prog.enum_variants(e) or []))):
                    return Agg(base, v, fs)
            return Agg(ty, None, fs)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            m = re.match(r'(?:const )?(\d+)', rv[2])
            if m and int(m.group(1)) <= 64:
                return Agg(Ty('array'), None, [v] * int(m.group(1)))
            raise Unsupported('repeat')
        if k == 'nullary' and rv[1] == 'ShallowInitBox':
            # a box about to be written: its contents live in a cell of their own
            return Ref(st.cell(None), (), True)
        if k == 'nullary':
            return self.intval(8, 'usize')
        raise Unsupported('rvalue ' + k)

    def lib_len(self, v, st):
        if isinstance(v, Ref):
            v = self.load(st, v.cell, v.path)
        if isinstance(v, Lib) and hasattr(v, 'len'):
            return v.len(self, st)
        if isinstance(v, Agg) and isinstance(v.ty, Ty) and v.ty.kind == 'array':
            return self.intval(len(v.f), 'usize')
        if isinstance(v, Opq) and v.ty.kind == 'array' and v.ty.name.isdigit():
            return self.intval(int(v.ty.name), 'usize')
        raise Unsupported(f'len of {v!r}')

    # -------------------------------------------------- feasibility
    def axioms(self, extra=()):
        out = list(self.theory)
        bs = self.binders
        cache = self._fcache
        for t, ax in list(self.facts.values()) + ([(None, list(self.factset.values()))] if bs else []):
            if not bs:
                out += ax
                continue
            for a in ax:
                k = (a.get_id(), len(bs))
                if k not in cache:
                    used = mentions(a, bs)
                    # a constant chosen after a binder may depend on it: the fact then stays about that one element
                    # and a truth by type is not one about all terms
                    if used and (self.late(a, used) or a.get_id() in self.typed and any(b.sort() == U for b in used)):
                        used = []
                    cache[k] = (a, z3.ForAll(used, a) if used else a)
                out.append(cache[k][1])
        return out

    def late(self, e, bs, chosen=()):
        """the symbols of e made after one of the binders bs (other than binders and functions of their scope)"""
        nb = min(serial(b.decl().name()) for b in bs)
        seen, todo, out = set(), [e], []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.get_id() not in self.binders or x.get_id() in chosen):
                    n = x.decl().name()
                    if serial(n) > nb and n not in self.skolems:
                        out.append(n)
                todo += x.children()
        return out

    def ground_axioms(self):
        out = []
        for t, ax in self.facts.values():
            out += ax
        return out

    def has_quant(self, x):
        k = x.get_id()
        r = self._qcache.get(k)
        if r is None:
            todo, seen, q = [x], set(), False
            while todo and not q:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_quantifier(e):
                    q = True
                else:
                    todo += e.children()
            r = self._qcache[k] = (x, q)
        return r[1]

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = self._solver
        s.push()
        try:
            for x in st.pc:
                if not self.has_quant(x):
                    s.add(x)
            for x in self.ground_axioms():
                s.add(x)
            s.add(c)
            return s.check() != z3.unsat
        finally:
            s.pop()

    # -------------------------------------------------- execution
    def call_body(self, item, args, st, sub):
        """symbolically execute a body; list of Outcome"""
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported(f'inlining depth at {item.name}')
        try:
            fn = item.fn()
            return self._run(fn, args, st, sub, item)
        finally:
            self.depth -= 1

    def _run(self, fn, args, st, sub, item):
        st = st.copy()
        fr = {'fn': fn, 'cells': {}, 'tycache': {}, 'sub': sub or {}, 'item': item}
        if len(args) != len(fn.args):
            # closures called with a tuple of arguments, or spread
            raise Unsupported(f'arity of {fn.name}')
        for (n, t), v in zip(fn.args, args):
            fr['cells'][n] = st.cell(v)
        for l in fn.locals:
            if l not in fr['cells']:
                fr['cells'][l] = self.new_cell()
        if '_0' not in fr['cells']:
            fr['cells']['_0'] = self.new_cell()
        if str(fn.ret) == '()':
            st.mem[fr['cells']['_0']] = Agg('()', None, [])
        heads = self.loop_heads(fn)
        fr['heads'] = heads
        fr['spec'] = self.loops.get(id(item)) or self.loop_spec(item)
        outs = []
        self.exec(fr, [(st, 'bb0', {})], outs)
        return outs

    def exec(self, fr, work, outs, head=None, body=None):
        """run (state, block, loops entered) triples to completion; with a loop given, stop at its head (back edge) and
        at blocks outside of it: returns [('back'|'exit', state, block, seen)]"""
        fn, heads, spec = fr['fn'], fr['heads'], fr['spec']
        leaves = []
        first = body is not None
        merge = self.merge if body is None and not heads else None
        joins, order = self.joins(fn) if merge else ((), None)
        while work:
            if merge:
                # states that meet again are joined: always continue at the block that comes first
                bb = min((w[1] for w in work), key=lambda b: order[b])
                here = [w for w in work if w[1] == bb]
                work[:] = [w for w in work if w[1] != bb]
                if len(here) > 1:
                    j = merge(self, fr, bb, [w[0] for w in here])
                    if j is not None:
                        here = [(j, bb, here[0][2])]
                work += here[1:]
                st, bb, seen = here[0]
            else:
                st, bb, seen = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported(f'too many paths in {fn.name}')
            fresh = True
            while True:
                if merge and bb in joins and not fresh:
                    work.append((st, bb, seen))
                    break
                fresh = False
                if body is not None and not first:
                    if bb == head:
                        leaves.append(('back', st, bb, seen))
                        break
                    if bb not in body:
                        leaves.append(('exit', st, bb, seen))
                        break
                if bb in heads and not (first and bb == head):
                    if spec is not None:
                        r = spec(self, fr, st, bb, heads[bb], seen, outs) if getattr(spec, 'wants_outs', False) else spec(self, fr, st, bb, heads[bb], seen)
                        if r == 'cut':
                            break
                        if isinstance(r, tuple):     # (state, seen)
                            st, seen = r
                        elif isinstance(r, list):    # continuations after a summarised loop
                            work += r
                            first = False
                            break
                    else:
                        seen = dict(seen)
                        seen[bb] = seen.get(bb, 0) + 1
                        if seen[bb] > self.max_unroll:
                            raise Unsupported(f'loop without invariant in {fn.name}')
                first = False
                b = fn.blocks[bb]
                for s in b.stmts:
                    self.stmt(fr, st, s)
                t = b.term
                if t is None:
                    raise Unsupported('missing terminator')
                k = t.kind
                if k == 'goto':
                    bb = t.d['t']
                    continue
                if k == 'return':
                    c = fr['cells']['_0']
                    if c not in st.mem:
                        # only a value of size zero may be left out: a struct without data
                        ty = self.local_ty(fr, '_0')
                        if not self.zst(ty):
                            raise Unsupported('return value not set')
                        st.mem[c] = Opq(z3.Const('zst:' + str(ty), U), ty)
                    outs.append(Outcome('ret', st, st.mem[c]))
                    break
                if k == 'unreachable':
                    outs.append(Outcome('unreachable', st))
                    break
                if k in ('resume', 'terminate', 'abort'):
                    outs.append(Outcome('panic', st, msg='resume'))
                    break
                if k == 'drop':
                    bb = t.d['targets']['return']
                    continue
                if k == 'assert' and t.d['msg'].lstrip('"').startswith('misaligned pointer'):
                    # debug-assertion instrumentation of raw pointer reads, not part of the function
                    bb = t.d['targets']['success']
                    continue
                if k == 'assert':
                    v = self.operand(fr, st, t.d['op'])
                    c = z3.Not(v) if t.d['neg'] else v
                    if self.feasible(st, z3.Not(c)):
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        outs.append(Outcome('panic', s2, msg='assert ' + t.d['msg']))
                    if not self.feasible(st, c):
                        break
                    st.assume(c)
                    bb = t.d['targets']['success']
                    continue
                if k == 'switch':
                    v = self.operand(fr, st, t.d['op'])
                    nexts = []
                    others = []
                    for key, tgt in t.d['targets'].items():
                        if key == 'otherwise':
                            continue
                        c = self.switch_cond(v, int(key), fr, t.d['op'])
                        others.append(z3.Not(c))
                        nexts.append((c, tgt))
                    if 'otherwise' in t.d['targets']:
                        nexts.append((z3.And(others), t.d['targets']['otherwise']))
                    live = [(c, tg) for c, tg in nexts if self.feasible(st, c)]
                    live = [(c, tg) for c, tg in live if not (fn.blocks[tg].term and fn.blocks[tg].term.kind == 'unreachable' and not fn.blocks[tg].stmts)] or live
                    if not live:
                        break
                    for c, tg in live[1:]:
                        s2 = st.copy()
                        s2.assume(z3.simplify(c))
                        work.append((s2, tg, seen))
                    st.assume(z3.simplify(live[0][0]))
                    bb = live[0][1]
                    continue
                if k == 'call':
                    res = self.call(fr, st, t)
                    tgt = t.d['targets'].get('return')
                    rets = []
                    for o in res:
                        if o.kind != 'ret':
                            outs.append(o)
                        elif tgt is not None:
                            rets.append(o)
                        else:
                            outs.append(Outcome('panic', o.st, msg='diverge'))
                    if not rets:
                        break
                    nxt = []
                    for o in rets:
                        c, p = self.resolve(fr, o.st, t.d['dst'])
                        self.store(o.st, c, p, o.val)
                        nxt.append(o.st)
                    for s2 in nxt[1:]:
                        work.append((s2, tgt, seen))
                    st = nxt[0]
                    bb = tgt
                    continue
                raise Unsupported('terminator ' + k)
        return leaves

    def zst(self, ty):
        if not isinstance(ty, Ty):
            return False
        if ty.kind == 'path' and ty.last in ('PhantomData', 'PhantomPinned'):
            return True
        if ty.kind == 'tuple':
            return all(self.zst(a) for a in ty.args)
        fs = self.prog.struct_fields(ty.last) if ty.kind == 'path' else None
        return bool(fs) and all(self.zst(strip_life(parse_ty(t)) if isinstance(t, str) else t) for _, t in fs)

    merge = None     # (eng, fr, bb, states) -> one state standing for all of them, or None

    def joins(self, fn):
        """(blocks with several predecessors, block -> position in reverse postorder) of a function without loops"""
        pred, post, seen = {}, [], set()
        stack = [('bb0', iter(self.succs(fn, 'bb0')))]
        seen.add('bb0')
        while stack:
            b, it = stack[-1]
            n = next(it, None)
            if n is None:
                post.append(b)
                stack.pop()
                continue
            pred[n] = pred.get(n, 0) + 1
            if n not in seen:
                seen.add(n)
                stack.append((n, iter(self.succs(fn, n))))
        order = {b: i for i, b in enumerate(reversed(post))}
        return {b for b, k in pred.items() if k > 1}, order

    def loop_spec(self, item):
        return None

    def switch_cond(self, v, key, fr, op):
        if z3.is_bool(v):
            return z3.Not(v) if key == 0 else v
        if z3.is_bv(v):
            return v == z3.BitVecVal(key, v.size())
        if z3.is_int(v):
            if key >= (1 << 63):
                key -= 1 << 64
            elif z3.is_expr(v) and key in (255,) and 'discr' in str(v):
                key = -1
            return v == key
        if isinstance(v, Opq) and v.ty.kind == 'path' and v.ty.name == 'char':
            return v.t == z3.Const("char:'" + chr(key) + "'", U)
        raise Unsupported(f'switch on {v!r}')

    def stmt(self, fr, st, s):
        if s.kind == 'assign':
            dty = self.local_ty(fr, s.place.local) if not s.place.proj else None
            v = self.rvalue(fr, st, s.rv, dty)
            c, p = self.resolve(fr, st, s.place)
            self.store(st, c, p, v)
            return
        if s.kind == 'assume':
            return
        if s.kind == 'setdiscr':
            raise Unsupported('set discriminant')
        raise Unsupported(s.text)

    def loop_heads(self, fn):
        """header -> set of blocks in the natural loop"""
        succ = {b: self.succs(fn, b) for b in fn.blocks}
        # iterative DFS, back edges
        color = {}
        back = []
        stack = [('bb0', iter(succ['bb0']))]
        color['bb0'] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) == 1:
                    back.append((b, n))
                elif n not in color:
                    color[n] = 1
                    stack.append((n, iter(succ[n])))
                    break
            else:
                color[b] = 2
                stack.pop()
        heads = {}
        pred = {}
        for b, ns in succ.items():
            for n in ns:
                pred.setdefault(n, set()).add(b)
        for b, h in back:
            body = heads.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += [p for p in pred.get(x, ()) if color.get(p)]
        return heads

    def succs(self, fn, b):
        t = fn.blocks[b].term
        if t is None:
            return []
        if t.kind == 'goto':
            return [t.d['t']]
        if 'targets' in t.d:
            return [v for k, v in t.d['targets'].items() if k != 'unwind']
        return []

    # -------------------------------------------------- calls
    def call(self, fr, st, term):
        callee = term.d['callee']
        args = [self.operand(fr, st, a) for a in term.d['args']]
        atys = [self.op_ty(fr, a) for a in term.d['args']]
        dst = term.d['dst']
        dty = None
        if not dst.proj:
            dty = self.local_ty(fr, dst.local)
        else:
            dty = self.op_ty(fr, Op('copy', dst))
        if isinstance(callee, Op):
            f = self.operand(fr, st, callee)
            return self.call_value(f, args, st, dty)
        callee = self.sub(fr, strip_life(callee))
        return self.call_path(callee, args, atys, dty, st, fr)

    def call_path(self, callee, args, atys, dty, st, fr=None):
        key = canon(callee)
        for c in self.contracts:
            if c.matches(self, callee, key, args):
                self.used_contracts.add(c.name)
                return c.apply(self, callee, key, args, dty, st)
        for pat, f in self.models:
            m = pat.fullmatch(key)
            if m:
                r = f(self, st, args, dty, m, callee)
                if r is not None:
                    self.used_models.add(pat.pattern)
                    return self._outs(r, st)
        body, sub = self.find_body(callee, args, atys)
        if body is not None:
            self.inlined.add(body.name)
            return self.call_body(body, args, st, sub)
        return self._outs(self.uninterpreted(key, args, atys, dty, st), st)

    def _outs(self, r, st):
        if isinstance(r, list) and (not r or isinstance(r[0], Outcome)):
            return r
        return [Outcome('ret', st, r)]

    def call_value(self, f, args, st, dty):
        """call a closure / fn value with positional args"""
        while isinstance(f, Ref):
            f = self.load(st, f.cell, f.path)
        if isinstance(f, FnV):
            if isinstance(f.callee, Ty) and f.callee.kind in ('path', 'proj'):
                seg = f.callee.name.split('::')[-1]
                v = self.ctor(f.callee, args)
                if v is not None:
                    return [Outcome('ret', st, v)]
                return self.call_path(f.callee, args, [None] * len(args), dty, st)
            if isinstance(f.callee, Ty) and f.callee.kind == 'fnitem':
                t = parse_ty(f.callee.name.strip('{} '))
                v = self.ctor(t, args)
                if v is not None:
                    return [Outcome('ret', st, v)]
                return self.call_path(t, args, [None] * len(args), dty, st)
        if isinstance(f, Agg) and isinstance(f.ty, Ty) and f.ty.kind == 'closure':
            body = self.prog.closures.get(f.ty.name)
            if body is None:
                raise Unsupported(f'closure body {f.ty.name}')
            fn = body.fn()
            selfty = fn.args[0][1]
            a0 = f
            if selfty.kind in ('ref', 'refmut'):
                a0 = Ref(st.cell(f), (), selfty.kind == 'refmut')
            self.inlined.add(body.name)
            return self.call_body(body, [a0] + list(args), st, getattr(self, 'cl_sub', {}).get(f.ty.name, {}))
        if isinstance(f, Opq):
            us = [self.to_u(f, st)] + [self.to_u(a, st) for a in args]
            t = uf(f'call/{len(us)}', *([U] * len(us)), U)(*us)
            if dty is None:
                raise Unsupported('call of opaque function value with unknown type')
            return [Outcome('ret', st, self.val_of_term(dty, t, st))]
        raise Unsupported(f'call of {type(f)} {f!r} {getattr(f,"ty",None)}')

    def ctor(self, t, args):
        if t.kind == 'path':
            segs = t.name.split('::')
            e, v = (segs[-2] if len(segs) > 1 else None), segs[-1]
            base = Ty('path', '::'.join(segs[:-1])) if e else None
        else:
            base = t.args[0]
            e, v = (base.last if base and base.kind == 'path' else None), t.name
        if v in ('Some', 'None') and e in (None, 'Option'):
            return Agg(Ty('path', 'Option'), v, args)
        if v in ('Ok', 'Err') and e in (None, 'Result'):
            return Agg(Ty('path', 'Result'), v, args)
        if e and any(v in vs for vs in (self.prog.enum_variants(e) or [])):
            return Agg(base, v, args)
        if v[:1].isupper() and e is None or (e and e[:1].islower() and v[:1].isupper()):
            return Agg(Ty('path', v), None, args)
        return None

    def find_body(self, callee, args, atys):
        """-> (item, substitution) or (None, None)"""
        P = self.prog
        if callee.kind == 'path':
            segs = callee.name.split('::')
            cands = [x for x in P.by_last.get(segs[-1], []) if '{closure' not in x.name]
            full = [x for x in cands if not RE_IMPLAT.search(x.name) and (x.name == callee.name or x.name.endswith('::' + callee.name) or callee.name.endswith('::' + x.name))]
            full = self.prefer(full)
            if len(full) == 1:
                return full[0], {}
            if len(segs) >= 2:
                out = []
                for x in cands:
                    i = P.impl_of(x.name)
                    if i and i.trait is None and i.ty is not None and i.ty.kind == 'path' and (i.ty.last == segs[-2] or i.ty.last.startswith('$')):
                        if i.ty.last.startswith('$') and not self.selfmatch(x, segs[-2]):
                            continue
                        out.append(x)
                out = self.prefer(out)
                if len(out) == 1:
                    return out[0], {}
            return None, None
        if callee.kind == 'proj':
            sty, tr = callee.args[0], callee.args[1]
            if sty.kind == 'path' and len(sty.args) == 1 and sty.args[0].kind == 'impl':
                sty = parse_ty(sty.args[0].name)
            out = []
            for x in P.by_last.get(callee.name, []):
                if '{closure' in x.name:
                    continue
                i = P.impl_of(x.name)
                if not i or i.ty is None:
                    continue
                if (i.trait is None) != (tr is None):
                    continue
                gens = {g[1] for g in i.gens}
                if i.ty.kind == 'path' and not i.ty.args and i.ty.name in gens:
                    if tr is None:
                        continue
                sub = {}
                if i.derive:
                    if sty.kind != 'path' or sty.last != i.ty.last or i.trait.last != tr.last:
                        continue
                    if not self.selfmatch(x, None, sty):
                        continue
                else:
                    if sty.kind == 'path' and not sty.args and sty.name in self.generic_params and not (i.ty.kind == 'path' and i.ty.name in gens):
                        continue
                    st_ = Ty('path', sty.name, tuple(a for a in sty.args)) if sty.kind == 'path' else sty
                    if not unify(i.ty, st_, gens, sub):
                        continue
                    if i.ty.kind == 'path' and i.ty.last.startswith('$') and not self.selfmatch(x, sty.last):
                        continue
                    if tr is not None and not unify(i.trait, self.norm_trait(tr, sty), gens, sub):
                        continue
                out.append((x, sub))
            if len(out) > 1:
                ps = self.prefer([x for x, _ in out])
                out = [(x, s) for x, s in out if x in ps]
            if len(out) > 1:
                # prefer non-blanket impls
                nb = [(x, s) for x, s in out if not (P.impl_of(x.name).ty.kind == 'path' and P.impl_of(x.name).ty.name in {g[1] for g in P.impl_of(x.name).gens})]
                if len(nb) == 1:
                    out = nb
            if len(out) == 1:
                return out[0]
            if len(out) > 1:
                raise Unsupported(f'ambiguous callee {canon(callee)}: ' + '; '.join(x.name for x, _ in out[:3]))
            return None, None
        return None, None

    def norm_trait(self, tr, sty):
        if tr.kind == 'path' and not tr.args and tr.last in ('Add', 'Sub', 'Mul', 'Div', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign', 'PartialEq', 'PartialOrd'):
            return Ty('path', tr.name, (sty,))
        return tr

    def prefer(self, xs):
        """const fns are printed twice (CTFE and runtime)"""
        if len(xs) > 1 and len({x.name for x in xs}) == 1:
            return xs[-1:]
        return xs

    def selfmatch(self, x, name, ty=None):
        a = x.args()
        if not a:
            r = x.ret()
            return r.kind == 'path' and r.last == name
        t = a[0][1]
        while t.kind in ('ref', 'refmut'):
            t = t.args[0]
        if ty is not None:
            return t.kind == 'path' and t.last == ty.last and (t.name == ty.name or t.name.endswith('::' + ty.name) or ty.name.endswith('::' + t.name))
        return t.kind == 'path' and t.last == name

    def uninterpreted(self, key, args, atys, dty, st):
        if dty is None:
            raise Unsupported(f'type of result of {key}')
        us = [self.to_u(a, st) for a in args]
        self.trace_uf.add(key)
        n = len(us)
        for i, (a, t) in enumerate(zip(args, atys)):
            if isinstance(a, Ref) and (a.mut or (t is not None and t.kind == 'refmut')):
                pt = t.args[0] if t is not None and t.kind == 'refmut' else None
                if pt is None:
                    raise Unsupported(f'mutable argument of {key}')
                c, p = a.cell, a.path
                while pt.kind == 'refmut':
                    v = self.load(st, c, p)
                    c, p = v.cell, v.path
                    pt = pt.args[0]
                new = self.val_of_term(pt, uf(f'{key}#mut{i}/{n}', *([U] * n), U)(*us), st)
                self.store(st, c, p, new)
        t = uf(f'{key}/{n}', *([U] * n), U)(*us) if n else z3.Const(key, U)
        if dty.kind == 'never':
            return [Outcome('panic', st, msg='diverging call ' + key)]
        return self.val_of_term(dty, t, st)


def serial(name):
    """serial number of a made-up name, -1 for the others"""
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1


def mentions(e, consts):
    """the constants (dict id -> const) that occur in e"""
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in consts:
            out.append(consts[i])
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return out


def join_tokens_exact(toks):
    return ' '.join(v for _, v in toks)


# ------------------------------------------------------------------ obligations
class Obligation:
    def __init__(self, name, hyps, goal, exact=False, where=''):
        self.name, self.hyps, self.goal, self.exact, self.where = name, hyps, goal, exact, where
        self.status = None
        self.time = 0.0
        self.backend = ''
        self.model = None


def split_angle(s):
    """split at commas outside of all brackets, angle brackets included"""
    out, d, cur, prev = [], 0, '', ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}' or c == '>' and prev != '-':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
        prev = c
    return out + [cur]


def has_quantifier(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


_syms = {}


def symbols(e):
    k = e.get_id()
    if k in _syms:
        return _syms[k][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    _syms[k] = (e, out)
    return out


def relevant(axioms, others):
    """the quantified axioms that share a symbol with the rest (the others cannot matter: disjoint signatures)"""
    qs = [a for a in axioms if z3.is_quantifier(a)]
    keep = [a for a in axioms if not z3.is_quantifier(a)]
    have = set()
    for a in keep + list(others):
        have |= symbols(a)
    while True:
        more = [a for a in qs if symbols(a) & have]
        if not more:
            return keep
        keep += more
        ids = {a.get_id() for a in more}
        qs = [a for a in qs if a.get_id() not in ids]
        for a in more:
            have |= symbols(a)


def discharge(ob, axioms=(), timeout=20000):
    import time
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        ob.status, ob.backend = 'proved', 'z3-simplify'
        ob.time = time.time() - t0
        return ob
    if z3.is_eq(ob.goal) and z3.is_bool(ob.goal.arg(0)) and any(z3.is_quantifier(x) or has_quantifier(x) for x in ob.goal.children()):
        a, b = ob.goal.children()
        parts = [discharge(Obligation(ob.name, ob.hyps, z3.Implies(x, y)), axioms, timeout) for x, y in ((a, b), (b, a))]
        bad = [p for p in parts if p.status != 'proved']
        p = (bad or parts)[0]
        ob.status, ob.backend, ob.model, ob.time = p.status, p.backend, p.model, time.time() - t0
        ob.reason = getattr(p, 'reason', '')
        return ob
    s = z3.Solver()
    for h in ob.hyps:
        s.add(h)
    for a in relevant(axioms, list(ob.hyps) + [ob.goal]):
        s.add(a)
    s.add(z3.Not(ob.goal))
    ob.backend = 'z3'
    r = z3.unknown
    for n, t in enumerate((min(timeout, 4000), timeout)):
        if n and t <= 4000:
            break
        s.set('timeout', t)
        r = s.check()
        if r != z3.unknown:
            break
        if n == 0 and refute(ob, axioms, min(timeout, 3000)):
            ob.time = time.time() - t0
            return ob
    if r == z3.unsat:
        ob.status = 'proved'
    elif r == z3.sat:
        ob.status = 'refuted'
        ob.model = s.model()
    else:
        ob.status = 'undecided'
        ob.reason = s.reason_unknown()
        if cvc5_try(s, timeout) == 'unsat':
            ob.status, ob.backend = 'proved', 'cvc5'
    ob.time = time.time() - t0
    return ob


def pattern_symbols(q):
    """for every trigger of a quantified axiom: the functions in it"""
    return [symbols(q.pattern(i)) for i in range(q.num_patterns())]


def triggered(axioms, others):
    """the axioms that can be instantiated at all: some trigger consists of functions the rest talks about.  The others
    describe functions that do not occur (a conservative extension) and cannot take part in a counterexample."""
    qs = [a for a in axioms if z3.is_quantifier(a)]
    keep = [a for a in axioms if not z3.is_quantifier(a)]
    have = set()
    for a in keep + list(others):
        have |= symbols(a)
    while True:
        more = [a for a in qs if (any(p <= have for p in pattern_symbols(a)) if a.num_patterns() else symbols(a) & have)]
        if not more:
            return keep
        keep += more
        ids = {a.get_id() for a in more}
        qs = [a for a in qs if a.get_id() not in ids]
        for a in more:
            have |= symbols(a)


def refute(ob, axioms, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    others = list(ob.hyps) + [ob.goal]
    s.add(*ob.hyps, *triggered(relevant(axioms, others), others), z3.Not(ob.goal))
    if s.check() == z3.sat:
        ob.status, ob.backend, ob.model = 'refuted', 'z3', s.model()
        return True
    return False


def cvc5_try(solver, timeout):
    try:
        import subprocess, tempfile
        txt = '(set-logic ALL)\n' + re.sub(r'(?<![\w.])(seq|set|str|int|bag|rel|table|sep|tuple)\.', r'\1_.', solver.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        p = subprocess.run(['cvc5', f'--tlimit={timeout}', f.name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        import os
        os.unlink(f.name)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'
