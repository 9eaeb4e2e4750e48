"""float terms of one value as formulas"""
import z3
from sym import *

SORT = {32: z3.Float32(), 64: z3.Float64()}
RM = {'round': z3.RNA(), 'roundeven': z3.RNE(), 'rint': z3.RNE(), 'nearbyint': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}


def num(t, env, memo):
    """a float term"""
    if t.id in env:
        return env[t.id]
    if t.id in memo:
        return memo[t.id]
    go = lambda x: num(x, env, memo)
    if t.op == 'fconst':
        r = z3.FPVal(float(t.x), SORT[t.w])
    elif t.op == 'const':
        r = z3.fpBVToFP(z3.BitVecVal(t.x, t.w), SORT[t.w])
    elif t.op in ('fmul', 'fadd', 'fsub', 'fdiv'):
        f = {'fmul': z3.fpMul, 'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fdiv': z3.fpDiv}[t.op]
        r = f(z3.RNE(), go(t.a[0]), go(t.a[1]))
    elif t.op == 'fma':
        r = z3.fpFMA(z3.RNE(), *[go(x) for x in t.a])
    elif t.op == 'fneg':
        r = z3.fpNeg(go(t.a[0]))
    elif t.op == 'fabs':
        r = z3.fpAbs(go(t.a[0]))
    elif t.op in RM:
        r = z3.fpRoundToIntegral(RM[t.op], go(t.a[0]))
    elif t.op in ('minimumnum', 'minnum'):
        r = z3.fpMin(go(t.a[0]), go(t.a[1]))
    elif t.op in ('maximumnum', 'maxnum'):
        r = z3.fpMax(go(t.a[0]), go(t.a[1]))
    elif t.op == 'select':
        r = z3.If(cond(t.a[0], env, memo), go(t.a[1]), go(t.a[2]))
    elif t.op == 'fpext':
        r = z3.fpToFP(z3.RNE(), go(t.a[0]), SORT[t.w])
    else:
        raise Unsupported(f"formula of {t.op}")
    memo[t.id] = r
    return r


def cond(t, env, memo):
    if t.op == 'fcmp':
        x, y = num(t.a[0], env, memo), num(t.a[1], env, memo)
        u = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        p = t.x
        if p in ('ord', 'uno'):
            return u if p == 'uno' else z3.Not(u)
        c = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}[p[1:]](x, y)
        return z3.Or(u, c) if p[0] == 'u' else z3.And(z3.Not(u), c)
    raise Unsupported(f"condition {t.op}")


def bits(t, env, memo):
    """an integer term"""
    if t.op == 'const':
        return z3.BitVecVal(t.x, t.w)
    if t.op in ('fptosi_sat', 'fptosi'):
        x = num(t.a[0], env, memo)
        s, w = x.sort(), t.w
        lo, hi = z3.FPVal(float(-(1 << (w - 1))), s), z3.FPVal(float(1 << (w - 1)), s)
        v = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w))
        if t.op == 'fptosi':
            return v
        return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w), z3.If(z3.fpLT(x, lo), z3.BitVecVal(1 << (w - 1), w), z3.If(z3.fpGEQ(x, hi), z3.BitVecVal((1 << (w - 1)) - 1, w), v)))
    if t.op == 'ext' and t.x == 0:
        return z3.Extract(t.w - 1, 0, bits(t.a[0], env, memo))
    if t.op == 'select':
        return z3.If(cond(t.a[0], env, memo), bits(t.a[1], env, memo), bits(t.a[2], env, memo))
    raise Unsupported(f"formula of {t.op}")
