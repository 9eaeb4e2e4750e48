"""The non-linear end of an output element: a function of one accumulator, decided for all its values."""
import z3
from sym import *
from vc import Fail


def leaf_of(t, lin, free=()):
    """the maximal linear integer subterm"""
    seen, leaves = set(), {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if lin(x):
            leaves[x.id] = x
            continue
        if x.op in ('const', 'fconst', 'poison') or x in free:
            continue
        if not x.a:
            raise Fail(f"the output depends on {show(x)}")
        st.extend(x.a)
    return list(leaves.values())


def tobv(t, env):
    r = env.get(t.id)
    if r is not None:
        return r
    w, op = t.w, t.op
    if op == 'const':
        r = z3.BitVecVal(t.x, w)
    else:
        a = [tobv(x, env) for x in t.a]
        if op in ('x86max', 'x86min', 'fmul', 'fadd', 'fcmp', 'maxnum', 'minnum', 'maximumnum', 'minimumnum'):
            a = [z3.FPVal(0.0, z3.Float32()) if (z3.is_bv(y) and x.op == 'const' and x.x == 0) else y for x, y in zip(t.a, a)]
        if t.op != 'fconst' and any(x.op == 'fspecial' for x in t.a):
            raise Fail("a special float constant")
        if op == 'add':
            r = a[0] + a[1]
        elif op == 'mul':
            r = a[0] * a[1]
        elif op == 'ashr':
            r = a[0] >> a[1]
        elif op == 'lshr':
            r = z3.LShR(a[0], a[1])
        elif op == 'shl':
            r = a[0] << a[1]
        elif op in ('and', 'or', 'xor'):
            r = a[0] & a[1] if op == 'and' else a[0] | a[1] if op == 'or' else a[0] ^ a[1]
        elif op == 'zext':
            r = z3.ZeroExt(w - t.a[0].w, a[0])
        elif op == 'sext':
            r = z3.SignExt(w - t.a[0].w, a[0])
        elif op == 'ext':
            r = z3.Extract(t.x + w - 1, t.x, a[0])
        elif op == 'cat':
            r = z3.Concat(*reversed(a))
        elif op == 'select':
            r = z3.If(a[0] == 1, a[1], a[2])
        elif op in ('smin', 'smax', 'umin', 'umax'):
            lt = a[0] < a[1] if op[0] == 's' else z3.ULT(a[0], a[1])
            r = z3.If(lt, a[0], a[1]) if op.endswith('min') else z3.If(lt, a[1], a[0])
        elif op in ('satu', 'sats'):
            sw = t.a[0].w
            lo, hi = (0, (1 << w) - 1) if op == 'satu' else (-(1 << w - 1), (1 << w - 1) - 1)
            L, H = z3.BitVecVal(lo, sw), z3.BitVecVal(hi, sw)
            r = z3.Extract(w - 1, 0, z3.If(a[0] < L, L, z3.If(a[0] > H, H, a[0])))
        elif op in ('cvtrn', 'fptosi', 'fptoui_sat', 'fptosi_sat', 'x86max', 'x86min', 'fcmp', 'roundeven', 'round', 'rint', 'nearbyint', 'x86round', 'maxnum', 'minnum',
                    'maximumnum', 'minimumnum', 'fmul', 'fadd', 'fconst', 'uitofp', 'sitofp', 'fptrunc', 'fneg', 'fabs'):
            r = fp(t, a)
        elif op == 'icmp':
            x, y = a
            c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                 'slt': lambda: x < y, 'sle': lambda: x <= y}[t.x]()
            r = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            raise Fail(f"narrowing through {op}")
    env[t.id] = r
    return r


RNE = z3.RNE()


def fp(t, a):
    """float operations by their IEEE meaning"""
    op, w = t.op, t.w
    srt = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}
    if op == 'fconst':
        return z3.FPVal(float(t.x), srt[w])
    x = a[0]
    if op == 'cvtrn':
        lo, hi = z3.FPVal(-2.0 ** 31, x.sort()), z3.FPVal(2.0 ** 31, x.sort())
        r = z3.fpRoundToIntegral(RNE, x)
        return z3.If(z3.And(z3.fpGEQ(r, lo), z3.fpLT(r, hi)), z3.fpToSBV(RNE, x, z3.BitVecSort(32)), z3.BitVecVal(1 << 31, 32))
    if op == 'fptosi':
        return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w))
    if op in ('fptoui_sat', 'fptosi_sat'):
        lo, hi = (0, (1 << w) - 1) if op == 'fptoui_sat' else (-(1 << w - 1), (1 << w - 1) - 1)
        r = z3.fpRoundToIntegral(z3.RTZ(), x)
        conv = z3.fpToUBV if op == 'fptoui_sat' else z3.fpToSBV
        return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w), z3.If(z3.fpLEQ(r, z3.FPVal(float(lo), x.sort())), z3.BitVecVal(lo, w),
                     z3.If(z3.fpGEQ(r, z3.FPVal(float(hi), x.sort())), z3.BitVecVal(hi, w), conv(z3.RTZ(), x, z3.BitVecSort(w)))))
    if op == 'x86max':
        return z3.If(z3.fpGT(x, a[1]), x, a[1])
    if op == 'x86min':
        return z3.If(z3.fpLT(x, a[1]), x, a[1])
    if op in ('maxnum', 'maximumnum'):
        return z3.fpMax(x, a[1])
    if op in ('minnum', 'minimumnum'):
        return z3.fpMin(x, a[1])
    if op in ('roundeven', 'rint', 'nearbyint') or (op == 'x86round' and t.x in (0, 4, 8, 12)):
        return z3.fpRoundToIntegral(RNE, x)
    if op == 'round':
        return z3.fpRoundToIntegral(z3.RNA(), x)
    if op == 'fmul':
        return z3.fpMul(RNE, x, a[1])
    if op == 'fadd':
        return z3.fpAdd(RNE, x, a[1])
    if op == 'fneg':
        return z3.fpNeg(x)
    if op == 'fabs':
        return z3.fpAbs(x)
    if op == 'uitofp':
        return z3.fpUnsignedToFP(RNE, x, srt[w])
    if op == 'sitofp':
        return z3.fpSignedToFP(RNE, x, srt[w])
    if op == 'fcmp':
        x, y = a
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        b = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y),
             'ne': z3.Not(z3.fpEQ(x, y)), 'rd': z3.Not(un), 'no': un}
        p = t.x
        if p in ('ord', 'uno'):
            c = b['rd'] if p == 'ord' else un
        elif p[0] == 'o':
            c = z3.And(z3.Not(un), b[p[1:]])
        else:
            c = z3.Or(un, b[p[1:]])
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    raise Fail(f"narrowing through {op}")


def narrow_real(k, t):
    """t = the float accumulator rounded to nearest and clamped; returns the accumulator"""
    ls = leaf_of(t, lambda x: x.op in ('phi', 'fadd', 'fma', 'fmul') and x.w == 32, [k.depth] if k.depth is not None else [])
    ls = [x for x in ls]
    if len(ls) != 1:
        raise Fail(f"the output is made of {len(ls)} accumulators")
    L = ls[0]
    v = z3.FP('L', z3.Float32())
    env = {L.id: v}
    if k.depth is not None:
        env[k.depth.id] = z3.BitVec('bit_depth', k.depth.w)
    n = tobv(t, env)
    try:
        decide(k, n, k.c['want'](k, v), v)
    except Fail:
        decide(k, n, k.c['want'](k, v, z3.RNA()), v)
    return L


def round_depth(w):
    """nearest integer (ties to even, or away from zero), clamped to 0 .. 2^depth - 1"""
    def f(k, v, RNE=z3.RNE()):
        d = z3.BitVec('bit_depth', k.depth.w)
        hi = (z3.BitVecVal(1, 32) << (z3.ZeroExt(32 - d.size(), d) if d.size() < 32 else d)) - 1
        r = z3.fpRoundToIntegral(RNE, v)
        i = z3.fpToSBV(RNE, v, z3.BitVecSort(32))
        s = z3.If(z3.fpLEQ(r, z3.FPVal(0.0, z3.Float32())), z3.BitVecVal(0, 32), z3.If(i > hi, hi, i))
        return z3.Extract(w - 1, 0, s)
    return f


PROVED = {}


def narrow(k, t):
    """t = clamp(leaf >> shift) into the element; returns the leaf"""
    c = k.c
    lw = c.get('lw', 32)

    def lin(x):
        return x.w == lw and x.op in ('phi', 'add', 'mul')
    free = [k.depth] if k.depth is not None else []
    ls = leaf_of(t, lin, free)
    if len(ls) != 1:
        raise Fail(f"the output is made of {len(ls)} accumulators")
    L = ls[0]
    v = z3.BitVec('L', lw)
    env = {L.id: v}
    for x in free:
        env[x.id] = z3.BitVec('bit_depth', x.w)
    key = None
    n = tobv(t, env)
    want = c['want'](k, v)
    if n.sort() != want.sort():
        raise Fail("width of the output")
    decide(k, n, want, v)
    return L


def decide(k, n, want, v):
    c = k.c
    key = (n.sexpr(), want.sexpr())
    if key not in PROVED:
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*c.get('wpre', lambda k, v: [])(k, v))
        if k.depth is not None:
            d = z3.BitVec('bit_depth', k.depth.w)
            s.add(d >= 1, d <= c.get('maxdepth', 16))
        s.add(n != want)
        r = s.check()
        PROVED[key] = str(r) if r != z3.sat else f"accumulator {s.model()[v]}"
    if PROVED[key] != 'unsat':
        raise Fail(f"narrowing differs: {PROVED[key]}")


def clamp_shift(shift, bits, w):
    """signed accumulator >> shift, clamped to 0 .. 2^bits - 1"""
    def f(k, v):
        s = v >> shift
        hi = z3.BitVecVal((1 << bits) - 1, v.size())
        r = z3.If(s < 0, z3.BitVecVal(0, v.size()), z3.If(s > hi, hi, s))
        return z3.Extract(w - 1, 0, r)
    return f


def clamp_depth(shift, w):
    """signed accumulator >> shift, clamped to 0 .. 2^depth - 1"""
    def f(k, v):
        n = v.size()
        d = z3.BitVec('bit_depth', k.depth.w)
        d = z3.ZeroExt(n - d.size(), d) if n > d.size() else z3.Extract(n - 1, 0, d)
        hi = (z3.BitVecVal(1, n) << d) - 1
        s = v >> shift
        r = z3.If(s < 0, z3.BitVecVal(0, n), z3.If(s > hi, hi, s))
        return z3.Extract(w - 1, 0, r)
    return f


def low_mask(w, n):
    """the mask is its low min(L, n) bits, for the one 64-bit value L >= 1 it is made of: -> min(L, n) as a term"""
    ls, st, seen = {}, [w], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('phi', 'ld', 'sym') and x.w == 64:
            ls[x.id] = x
        elif x.op in ('phi', 'ld', 'sym'):
            return None
        else:
            st.extend(x.a)
    if len(ls) != 1:
        return None
    (L,) = ls.values()
    v = z3.BitVec('L', 64)
    try:
        m = tobv(w, {L.id: v})
    except Fail:
        return None
    if m.size() < n:
        return None
    want = z3.If(z3.UGE(v, n), z3.BitVecVal((1 << n) - 1, n), (z3.BitVecVal(1, n) << (z3.Extract(n - 1, 0, v) if n <= 64 else v)) - 1)
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(z3.UGE(v, 1), z3.Extract(n - 1, 0, m) != want)
    if s.check() != z3.unsat:
        return None
    return gen('umin', 64, *sorted((L, C(64, n)), key=lambda t: t.id))


def holds(goal, pre, what):
    key = ('holds', goal.sexpr(), tuple(p.sexpr() for p in pre))
    if key not in PROVED:
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*pre)
        s.add(z3.Not(goal))
        PROVED[key] = str(s.check())
    if PROVED[key] != 'unsat':
        raise Fail(f"{what} ({PROVED[key]})")
