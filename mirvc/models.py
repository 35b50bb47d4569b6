"""Library models: assumed contracts on std / core / alloc / num_traits functions.
Each entry is an assumption and is listed in the evidence when used."""
import re, struct
import z3
from mir import *
from engine import *

R = re.compile


def powi_exact(b, n):
    """exact value of b^n when b is +-2^k and every intermediate power is representable, else None"""
    import math
    if n == 0:
        return 1.0
    m, e = math.frexp(b)
    if abs(m) != 0.5 or not math.isfinite(b):
        return None
    k = e - 1
    if abs(k * n) > 1022:
        return None
    r = math.ldexp(1.0, k * n)
    return -r if b < 0 and n % 2 else r


def m_powi(eng, st, args, dty, m, callee):
    if not eng.fp:
        return eng.float_uf('powi', Ty('path', 'f64' if 'f64' in m.group() else 'f32'), args, st)
    b, n = z3.simplify(args[0]), z3.simplify(args[1])
    if z3.is_fprm(b) or not z3.is_fp_value(b) or not z3.is_bv_value(n):
        raise Unsupported('powi of symbolic arguments in fp mode')
    bits = z3.simplify(z3.fpToIEEEBV(b)).as_long()
    if b.sort() != F64:
        raise Unsupported('powi f32')
    bv = struct.unpack('<d', struct.pack('<Q', bits))[0]
    r = powi_exact(bv, n.as_signed_long())
    if r is None:
        raise Unsupported(f'powi({bv},{n}) not an exact power of two')
    return z3.FPVal(r, F64)


def m_to_bits(eng, st, args, dty, m, callee):
    if eng.fp:
        if isinstance(args[0], FpBits):
            return args[0].bits
        return z3.fpToIEEEBV(args[0])
    return None


def m_from_bits(eng, st, args, dty, m, callee):
    if eng.fp:
        return z3.fpBVToFP(args[0], F64 if 'f64' in m.group() else F32)
    return None


class FpBits(Lib):
    """an f64 given by its bit pattern"""
    def __init__(self, bits):
        self.bits = bits


def m_abs_i(eng, st, args, dty, m, callee):
    x = args[0]
    ty = m.group(1)
    w, _ = INTS[ty]
    if z3.is_bv(x):
        return z3.If(x < 0, -x, x)
    lo = -(1 << (w - 1))
    outs = []
    if eng.feasible(st, x == lo):
        s2 = st.copy()
        s2.assume(x == lo)
        outs.append(Outcome('panic', s2, msg='assert overflow in abs'))
        st.assume(x != lo)
    outs.append(Outcome('ret', st, z3.If(x >= 0, x, -x)))
    return outs


def m_int1(fn):
    def f(eng, st, args, dty, m, callee):
        if z3.is_bv(args[0]):
            return None
        return fn(eng, args, m.group(1))
    return f


def m_signum(eng, args, ty):
    x = args[0]
    return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))


def m_minmax(eng, st, args, dty, m, callee):
    a, b = [eng.deref_all(x, st) for x in args]
    if not (z3.is_expr(a) and a.sort() == z3.IntSort()):
        return None
    return z3.If(a >= b, a, b) if m.group('n') == 'max' else z3.If(a <= b, a, b)


def m_int_divrem(eng, st, args, dty, m, callee):
    a, b = [eng.deref_all(x, st) for x in args]
    if not (z3.is_expr(a) and a.sort() == z3.IntSort() and z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() > 0):
        return None
    return eng.binop(m.group('op').capitalize(), a, b, Ty('path', m.group('t')), st)


def m_float_method(eng, st, args, dty, m, callee):
    """std / num_traits float methods -> one uninterpreted function per (type, method)"""
    if eng.fp:
        n, ty = m.group('n'), m.group('t')
        if n == 'abs':
            return z3.fpAbs(args[0])
        if n == 'recip':
            return z3.fpDiv(RNE, z3.FPVal(1.0, args[0].sort()), args[0])
        if n == 'is_nan':
            return z3.fpIsNaN(args[0])
        if n == 'is_sign_negative':
            return z3.fpIsNegative(args[0])
        if n == 'is_sign_positive':
            return z3.fpIsPositive(args[0])
        if n == 'sqrt':
            return z3.fpSqrt(RNE, args[0])
        raise Unsupported('float method ' + n + ' in fp mode')
    us = [eng.to_u(a, st) for a in args]
    if dty is not None and dty.kind == 'path' and dty.name == 'bool':
        return uf(f"{m.group('t')}.{m.group('n')}", *([U] * len(us)), z3.BoolSort())(*us)
    if dty is None:
        raise Unsupported('float method result type')
    return eng.val_of_term(dty, uf(f"{m.group('t')}.{m.group('n')}", *([U] * len(us)), U)(*us), st)


def m_float_op(eng, st, args, dty, m, callee):
    """<f32 as Mul<&f32>>::mul and the like = the primitive operation"""
    ty = Ty('path', m.group('t'))
    a = [eng.deref_all(x, st) for x in args]
    return eng.binop(m.group('op').capitalize(), a[0], a[1], ty, st)


def m_float_opassign(eng, st, args, dty, m, callee):
    ty = Ty('path', m.group('t'))
    r = args[0]
    v = eng.load(st, r.cell, r.path)
    while isinstance(v, Ref):
        r = v
        v = eng.load(st, r.cell, r.path)
    b = eng.deref_all(args[1], st)
    eng.store(st, r.cell, r.path, eng.binop(m.group('op').capitalize(), v, b, ty, st))
    return Agg('()', None, [])


def m_float_neg(eng, st, args, dty, m, callee):
    ty = Ty('path', m.group('t'))
    a = eng.deref_all(args[0], st)
    return z3.fpNeg(a) if eng.fp else eng.float_uf('Neg', ty, [a], st)


def m_identity(eng, st, args, dty, m, callee):
    return args[0]


def m_clone(eng, st, args, dty, m, callee):
    v = args[0]
    if isinstance(v, Ref):
        v = eng.load(st, v.cell, v.path)
    return v


def m_deref(eng, st, args, dty, m, callee):
    return args[0]


def m_eq(eng, st, args, dty, m, callee):
    a = eng.deref_all(args[0], st)
    b = eng.deref_all(args[1], st)
    r = eng.eqv(a, b, st)
    return z3.Not(r) if m.group('op') == 'ne' else r


def m_panic(eng, st, args, dty, m, callee):
    return [Outcome('panic', st, msg='panic ' + m.group())]


def m_from_same(eng, st, args, dty, m, callee):
    return args[0]


def deref_all(self, v, st):
    while isinstance(v, Ref):
        v = self.load(st, v.cell, v.path)
    return v


Engine.deref_all = deref_all

FL = r'(?:f64|f32)'
BASIC = [
    (R(rf'(?:f64|<f64 as (?:FloatCore|Float)>|f32|<f32 as (?:FloatCore|Float)>)::powi'), m_powi),
    (R(r'f64::to_bits'), m_to_bits),
    (R(rf'{FL}::from_bits'), m_from_bits),
    (R(r'([iu]\d+|isize)::abs'), m_abs_i),
    (R(r'([iu]\d+|isize)::signum'), m_int1(m_signum)),
    (R(r'<(?:[iu]\d+|[iu]size) as (?:\w+::)*Ord>::(?P<n>max|min)'), m_minmax),
    (R(r'<&?(?P<t>[iu]\d+|[iu]size) as (?:\w+::)*(?:Div|Rem)(?:<.*>)?>::(?P<op>div|rem)'), m_int_divrem),
    (R(rf'<&?(?P<t>{FL}) as (?:Add|Sub|Mul|Div)(?:<&?{FL}>)?>::(?P<op>add|sub|mul|div)'), m_float_op),
    (R(rf'<(?P<t>{FL}) as (?:Add|Sub|Mul|Div)Assign(?:<&?{FL}>)?>::(?P<op>add|sub|mul|div)_assign'), m_float_opassign),
    (R(rf'<&?(?P<t>{FL}) as Neg>::neg'), m_float_neg),
    (R(rf'(?:<)?(?P<t>{FL})(?: as (?:FloatCore|Float)>)?::(?P<n>\w+)'), m_float_method),
    (R(r'panic|core::panicking::panic.*|panicking::\w+|panic_fmt|begin_panic.*|unwrap_failed|expect_failed|rt::panic_fmt|option::unwrap_failed'), m_panic),
]
