"""Symbolic values: hash-consed terms over bit-vectors and reals, lanes as Python lists,
byte-exact re-slicing (bitcasts, shuffles, wide loads), polynomials over them."""
from fractions import Fraction
import ir

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class T:
    __slots__ = ('op', 'w', 'a', 'x', 'id', '_poly', '_fpoly')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, w, a=(), x=None):
    k = (op, w, tuple(t.id for t in a), x)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.x, t.id = op, w, tuple(a), x, len(_tab)
        t._poly = t._fpoly = None
        _tab[k] = t
    return t


def show(t, d=6):
    if t.op == 'const':
        return str(sgn(t.x, t.w))
    if t.op == 'fconst':
        return repr(float(t.x))
    if t.op == 'sym':
        return t.x
    if t.op == 'phi':
        return f"{t.x[1]}@{t.x[2]}" if t.x[2] else t.x[1]
    if t.op == 'iter':
        return f"k[{t.x}]"
    if d == 0:
        return '..'
    if t.op == 'ld':
        return f"{show(t.a[0], d - 1)}[{pshow(dict(t.x[0]))}]:{t.x[1]}"
    return f"{t.op}{'' if t.x is None else ':' + str(t.x)}({', '.join(show(a, d - 1) for a in t.a)})"


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def C(w, v):
    return mk('const', w, (), v & ((1 << w) - 1))


def FC(w, v):
    import math
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        return mk('fspecial', w, (), repr(v))
    return mk('fconst', w, (), Fraction(v))


POISON = {}


def poison(w):
    return mk('poison', w)


def isc(t):
    return t.op == 'const'


# ---------------------------------------------------------------- bits
def fbits(t):
    """a float constant as its bits"""
    import struct
    v = float(t.x)
    return int.from_bytes(struct.pack({16: '<e', 32: '<f', 64: '<d'}[t.w], v), 'little')


def ext(t, lo, w):
    if lo == 0 and w == t.w:
        return t
    if t.op == 'const':
        return C(w, t.x >> lo)
    if t.op == 'fconst':
        return C(w, fbits(t) >> lo)
    if t.op == 'poison':
        return poison(w)
    if t.op == 'ext':
        return ext(t.a[0], t.x + lo, w)
    if t.op == 'cat':
        out, p = [], 0
        for a in t.a:
            l, h = max(lo, p), min(lo + w, p + a.w)
            if l < h:
                out.append(ext(a, l - p, h - l))
            p += a.w
        return cat(out)
    if t.op == 'zext':
        a = t.a[0]
        if lo >= a.w:
            return C(w, 0)
        if lo + w <= a.w:
            return ext(a, lo, w)
        return zext(ext(a, lo, a.w - lo), w)
    if t.op == 'sext' and lo + w <= t.a[0].w:
        return ext(t.a[0], lo, w)
    if t.op == 'sext' and t.a[0].w == 1:
        return sext(t.a[0], w)
    if t.op == 'ld' and lo % 8 == 0 and w % 8 == 0:
        return load(t.a[0], padd(dict(t.x[0]), {(): lo // 8}), w // 8)
    if t.op == 'bits':       # bit pattern of a float term
        return mk('ext', w, (t,), lo)
    if t.op in ('lshr',) and isc(t.a[1]):
        k = t.a[1].x
        if lo + k + w <= t.w:
            return ext(t.a[0], lo + k, w)
        if lo + k >= t.w:
            return C(w, 0)
        return zext(ext(t.a[0], lo + k, t.w - lo - k), w)
    if t.op == 'bswap' and lo % 8 == 0 and w % 8 == 0:
        n = t.w // 8
        return cat([ext(t.a[0], (n - 1 - (lo // 8 + i)) * 8, 8) for i in range(w // 8)])
    if t.op == 'select':
        return select(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w))
    if t.op in ('and', 'or', 'xor'):
        return bitop(t.op, ext(t.a[0], lo, w), ext(t.a[1], lo, w))
    if t.op in ('add', 'mul') and lo == 0 and t.w != w:
        # low bits of a sum or product only depend on low bits
        return (add if t.op == 'add' else mul)(ext(t.a[0], 0, w), ext(t.a[1], 0, w))
    if t.op == 'shlc' and isc(t.a[1]):
        k = t.a[1].x
        if lo >= k:
            return ext(t.a[0], lo - k, w)
        if lo + w <= k:
            return C(w, 0)
    return mk('ext', w, (t,), lo)


def cat(ps):
    """low part first"""
    out = []
    for p in ps:
        if p.op == 'cat':
            out.extend(p.a)
        elif p.op == 'fconst':
            out.append(C(p.w, fbits(p)))
        else:
            out.append(p)
    # merge neighbours
    res = []
    for p in out:
        if res:
            q = res[-1]
            if isc(q) and isc(p):
                res[-1] = C(q.w + p.w, q.x | p.x << q.w)
                continue
            if q.op == 'ld' and p.op == 'ld' and q.a[0] is p.a[0] and psub(dict(p.x[0]), dict(q.x[0])) == {(): q.x[1]}:
                res[-1] = load(q.a[0], dict(q.x[0]), q.x[1] + p.x[1])
                continue
            qb, ql = (q.a[0], q.x) if q.op == 'ext' else (q, 0)
            pb, pl = (p.a[0], p.x) if p.op == 'ext' else (p, 0)
            if qb is pb and pl == ql + q.w and q.op == 'ext':
                res[-1] = ext(qb, ql, q.w + p.w)
                continue
            if q.op == 'poison' and p.op == 'poison':
                res[-1] = poison(q.w + p.w)
                continue
            if q.op == 'select' and p.op == 'select' and q.a[0] is p.a[0]:
                res[-1] = select(q.a[0], cat([q.a[1], p.a[1]]), cat([q.a[2], p.a[2]]))
                continue
        res.append(p)
    if len(res) == 1:
        return res[0]
    w = sum(p.w for p in res)
    if any(p.op == 'poison' for p in res):
        pass    # kept piecewise; a poison byte poisons a lane only when it is used whole
    if isc(res[-1]) and res[-1].x == 0:
        return zext(cat(res[:-1]) if len(res) > 2 else res[0], w)
    return mk('cat', w, res)


def zext(t, w):
    if w == t.w:
        return t
    if t.op == 'const':
        return C(w, t.x)
    if t.op == 'zext':
        return zext(t.a[0], w)
    if t.op == 'poison':
        return poison(w)
    return mk('zext', w, (t,))


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'const':
        return C(w, sgn(t.x, t.w))
    if t.op == 'zext':
        return zext(t.a[0], w)
    if t.op == 'sext':
        return sext(t.a[0], w)
    if t.op == 'poison':
        return poison(w)
    return mk('sext', w, (t,))


def load(base, off, n):
    return mk('ld', 8 * n, (base,), (pkey(off), n))


# ---------------------------------------------------------------- integer operations
def haspoison(*ts):
    return any(t.op == 'poison' or (t.op == 'cat' and any(a.op == 'poison' for a in t.a)) for t in ts)


def add(a, b):
    if haspoison(a, b):
        return poison(a.w)
    if isc(a) and isc(b):
        return C(a.w, a.x + b.x)
    if isc(a) and a.x == 0:
        return b
    if isc(b) and b.x == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('add', a.w, (a, b))


def mul(a, b):
    if haspoison(a, b):
        return poison(a.w)
    if isc(a) and isc(b):
        return C(a.w, a.x * b.x)
    for p, q in ((a, b), (b, a)):
        if isc(p) and p.x == 0:
            return p
        if isc(p) and p.x == 1:
            return q
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a.w, (a, b))


def sub(a, b):
    return add(a, mul(b, C(b.w, -1)))


def shl(a, b):
    if isc(b):
        if b.x >= a.w:
            return poison(a.w)
        if a.w <= 32 and a.op in ('zext', 'sext', 'ld', 'ext', 'cat') or a.op == 'shlc':
            # bits are kept apart so that a shifted pixel stays a shifted pixel
            return cat([C(b.x, 0), ext(a, 0, a.w - b.x)]) if b.x else a
        return mul(a, C(a.w, 1 << b.x))
    if haspoison(a, b):
        return poison(a.w)
    return mk('shl', a.w, (a, b))


def lshr(a, b):
    if isc(a) and isc(b):
        return C(a.w, a.x >> b.x)
    if isc(b):
        if b.x == 0:
            return a
        if a.w <= 32 or a.op in ('ld', 'cat', 'zext'):
            return zext(ext(a, b.x, a.w - b.x), a.w)
    if haspoison(a, b):
        return poison(a.w)
    return mk('lshr', a.w, (a, b))


def ashr(a, b):
    if isc(a) and isc(b):
        return C(a.w, sgn(a.x, a.w) >> min(b.x, a.w - 1))
    if isc(b) and b.x == 0:
        return a
    if haspoison(a, b):
        return poison(a.w)
    if isc(b) and a.op == 'zext' and a.a[0].w < a.w:
        return lshr(a, b)
    return mk('ashr', a.w, (a, b))


def bitop(op, a, b):
    f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
    if isc(a) and isc(b):
        return C(a.w, f(a.x, b.x))
    for p, q in ((a, b), (b, a)):
        if isc(p):
            full = (1 << a.w) - 1
            if op == 'and' and p.x == 0:
                return p
            if op == 'and' and p.x == full:
                return q
            if op in ('or', 'xor') and p.x == 0:
                return q
            if op == 'or' and p.x == full:
                return p
            if op == 'and' and q.w == 64 and q.op == 'mul' and (isc(q.a[0]) or isc(q.a[1])):
                k, y = (q.a[0].x, q.a[1]) if isc(q.a[0]) else (q.a[1].x, q.a[0])
                if k & (k - 1) == 0:
                    s = k.bit_length() - 1
                    return mul(bitop('and', y, C(q.w, p.x >> s)), C(q.w, k))
            if op == 'and':
                # contiguous mask
                lo = (p.x & -p.x).bit_length() - 1
                n = (p.x >> lo).bit_length()
                if p.x >> lo == (1 << n) - 1 and (q.w <= 32 or q.op in ('ld', 'cat', 'zext')):
                    return cat([C(lo, 0)] * (lo > 0) + [ext(q, lo, n)] + [C(a.w - lo - n, 0)] * (lo + n < a.w))
                if q.w <= 32:
                    # several runs of bits
                    out, i = [], 0
                    while i < a.w:
                        j, bit = i, p.x >> i & 1
                        while j < a.w and (p.x >> j & 1) == bit:
                            j += 1
                        out.append(ext(q, i, j - i) if bit else C(j - i, 0))
                        i = j
                    return cat(out)
    if haspoison(a, b):
        return poison(a.w)
    if op == 'or':
        # disjoint pieces
        pa, pb = pieces(a), pieces(b)
        cuts = sorted({x for x, _, _ in pa} | {x for x, _, _ in pb} | {a.w})
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            x, y = ext(a, lo, hi - lo), ext(b, lo, hi - lo)
            if isc(x) and x.x == 0:
                out.append(y)
            elif isc(y) and y.x == 0:
                out.append(x)
            else:
                out = None
                break
        if out and len(out) > 1:
            return cat(out)
    if a is b and op in ('and', 'or'):
        return a
    if a is b and op == 'xor':
        return C(a.w, 0)
    if a.id > b.id:
        a, b = b, a
    return mk(op, a.w, (a, b))


def pieces(t):
    if t.op == 'cat':
        out, p = [], 0
        for a in t.a:
            out.append((p, a.w, a))
            p += a.w
        return out
    if t.op == 'zext':
        return pieces(t.a[0]) + [(t.a[0].w, t.w - t.a[0].w, C(t.w - t.a[0].w, 0))]
    return [(0, t.w, t)]


def select(c, a, b):
    if isc(c):
        return a if c.x else b
    if a is b:
        return a
    if b.op == 'select' and b.a[0] is c:
        b = b.a[2]
    if a.op == 'select' and a.a[0] is c:
        a = a.a[1]
    if a is b:
        return a
    return mk('select', a.w, (c, a, b))


def icmp(p, a, b):
    if isc(a) and isc(b):
        x, y = (a.x, b.x) if p[0] == 'u' or p in ('eq', 'ne') else (sgn(a.x, a.w), sgn(b.x, b.w))
        return C(1, int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p if p in ('eq', 'ne') else p[1:]]))
    if a.op == 'sext' and a.a[0].w == 1 and isc(b) and b.x == 0 and p in ('slt', 'ne', 'sge', 'eq'):
        return a.a[0] if p in ('slt', 'ne') else neg(a.a[0])
    return mk('icmp', 1, (a, b), p)


def neg(c):
    if isc(c):
        return C(1, 1 - c.x)
    if c.op == 'icmp':
        inv = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}
        return mk('icmp', 1, c.a, inv[c.x])
    if c.op == 'xor' and isc(c.a[0]) and c.a[0].x == 1:
        return c.a[1]
    return bitop('xor', C(1, 1), c)


def sat(kind, t, w):
    """signed source saturated to w bits, signed ('s') or unsigned ('u')"""
    if t.op == 'poison' or haspoison(t):
        return poison(w)
    if isc(t):
        v = sgn(t.x, t.w)
        lo, hi = (0, (1 << w) - 1) if kind == 'u' else (-(1 << w - 1), (1 << w - 1) - 1)
        return C(w, max(lo, min(hi, v)))
    if t.op == 'zext' and t.a[0].w <= (w if kind == 'u' else w - 1):
        return zext(t.a[0], w)
    return mk('sat' + kind, w, (t,))


def gen(op, w, *a, x=None):
    if op == 'mulhrs':
        if any(isc(t) and t.x == 0 for t in a):
            return C(w, 0)
        if all(isc(t) for t in a):
            return C(w, (sgn(a[0].x, w) * sgn(a[1].x, w) + (1 << 14)) >> 15)
    if haspoison(*[t for t in a if isinstance(t, T)]):
        return poison(w)
    return mk(op, w, a, x)


# ---------------------------------------------------------------- polynomials
def pkey(p):
    return tuple(sorted(p.items()))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def psub(p, q):
    return padd(p, q, -1)


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


BYID = {}


def atom(t):
    BYID[t.id] = t
    return {(t.id,): 1}


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        n = '*'.join(show(BYID[i], 4) for i in m)
        out.append((f"{c}*" if c != 1 and m else '') + (n if m else str(c)))
    return ' + '.join(out)


def norm(p, w):
    r = {}
    for m, c in p.items():
        c = sgn(c & ((1 << w) - 1), w)
        if c:
            r[m] = c
    return r


IV = {}      # id of an int phi -> polynomial over init and iteration count


def poly(t):
    """bit-vector term as a polynomial mod 2^w over atoms"""
    if t._poly is not None:
        return t._poly
    if t.op == 'const':
        p = {(): sgn(t.x, t.w)} if t.x else {}
    elif t.op == 'add':
        p = norm(padd(poly(t.a[0]), poly(t.a[1])), t.w)
    elif t.op == 'mul':
        a, b = poly(t.a[0]), poly(t.a[1])
        if len(a) * len(b) > 4000:
            p = atom(t)
        else:
            p = norm(pmul(a, b), t.w)
    elif t.op == 'phi' and t.id in IV:
        return IV[t.id]
    elif t.op == 'shlc':
        p = norm(pscale(poly(t.a[0]), 1 << t.a[1].x), t.w)
    else:
        p = atom(t)
    t._poly = p
    return p


def fpoly(t):
    """real term as a polynomial over atoms (machine arithmetic treated as real arithmetic)"""
    if t._fpoly is not None:
        return t._fpoly
    if t.op == 'fconst':
        p = {(): t.x} if t.x else {}
    elif t.op == 'fadd':
        p = padd(fpoly(t.a[0]), fpoly(t.a[1]))
    elif t.op == 'fsub':
        p = psub(fpoly(t.a[0]), fpoly(t.a[1]))
    elif t.op == 'fneg':
        p = pscale(fpoly(t.a[0]), -1)
    elif t.op == 'fmul':
        a, b = fpoly(t.a[0]), fpoly(t.a[1])
        p = atom(t) if len(a) * len(b) > 4000 else pmul(a, b)
    elif t.op == 'fma':
        a, b = fpoly(t.a[0]), fpoly(t.a[1])
        p = padd(pmul(a, b), fpoly(t.a[2]))
    elif t.op == 'const' and t.x == 0:
        p = {}
    elif t.op == 'const':
        import struct
        p = {(): Fraction(struct.unpack({16: '<e', 32: '<f', 64: '<d'}[t.w], t.x.to_bytes(t.w // 8, 'little'))[0])}
    else:
        p = atom(t)
    t._fpoly = p
    return p


def clear():
    _tab.clear()
    BYID.clear()
    IV.clear()


# ---------------------------------------------------------------- substitution
REB = {
    'add': lambda t, a: add(*a), 'mul': lambda t, a: mul(*a), 'ext': lambda t, a: ext(a[0], t.x, t.w), 'cat': lambda t, a: cat(a),
    'zext': lambda t, a: zext(a[0], t.w), 'sext': lambda t, a: sext(a[0], t.w), 'shl': lambda t, a: shl(*a), 'lshr': lambda t, a: lshr(*a),
    'ashr': lambda t, a: ashr(*a), 'and': lambda t, a: bitop('and', *a), 'or': lambda t, a: bitop('or', *a), 'xor': lambda t, a: bitop('xor', *a),
    'select': lambda t, a: select(*a), 'icmp': lambda t, a: icmp(t.x, *a), 'satu': lambda t, a: sat('u', a[0], t.w), 'sats': lambda t, a: sat('s', a[0], t.w),
}


def subst(t, m, memo):
    """replace atoms by terms (m: id -> T); load offsets are rewritten too"""
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'ld':
        off = psubst(dict(t.x[0]), m, memo)
        r = load(subst(t.a[0], m, memo), off, t.x[1])
    elif not t.a:
        r = t
    else:
        a = [subst(x, m, memo) for x in t.a]
        r = t if all(x is y for x, y in zip(a, t.a)) else (REB[t.op](t, a) if t.op in REB else gen(t.op, t.w, *a, x=t.x))
    memo[t.id] = r
    return r


def psubst(p, m, memo, f=None):
    """polynomial with its atoms substituted"""
    f = f or poly
    r = {}
    for mono, c in p.items():
        q = {(): c}
        for i in mono:
            t = BYID[i]
            s = subst(t, m, memo)
            q = pmul(q, f(s) if s is not t else {(i,): 1})
        r = padd(r, q)
    return r


def atoms_of(t, out=None, seen=None):
    """ids of the phi/iter/sym/ld atoms a term is made of (through load offsets)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('phi', 'iter', 'sym', 'ld'):
            out.add(t.id)
            BYID[t.id] = t
        if t.op == 'phi' and t.id in IV:
            for m in IV[t.id]:
                st.extend(BYID[i] for i in m)
        if t.op == 'ld':
            for m, _ in t.x[0]:
                st.extend(BYID[i] for i in m)
        st.extend(t.a)
    return out


def patoms(p):
    out, seen = set(), set()
    for m in p:
        for i in m:
            atoms_of(BYID[i], out, seen)
    return out
