"""Contract of Scaler::generate_weights: the FilterWeights it makes are what every row kernel takes for granted."""
import re
from fractions import Fraction
import z3
import ir, sym, ev, fp
from sym import *
from vc import VC, Fail, Refuted
from spec import Kernel, Ob, K, divp

ALLOC = re.compile(r'___rust_alloc(_zeroed)?$')


def lower(text):
    """invoke -> call and br: what unwinding does is left out"""
    dead = set(re.findall(r'^"?([^\s:"]+)"?:[^\n]*\n\s+unreachable', text, re.M))

    def f(m):
        n = m.group(2).strip('"')
        return m.group(1) + '\n  ' + ('unreachable' if n in dead else f'br label %{m.group(2)}')
    text = re.sub(r'\binvoke\b', 'call', text)
    return re.sub(r'([^\n]*)\n\s+to label %("[^"]+"|\S+) unwind label %("[^"]+"|\S+)', f, text)


class GFn(ev.Fn):
    """a function that allocates: objects are the results of the allocator; a pointer that is one of several
    objects, or a dangling constant, carries its size along in a second phi"""

    def __init__(self, text, globs=None):
        self.hphi = {}
        text = lower(text)
        self.casts = set(re.findall(r'inttoptr i64 %(\S+) to ptr', text))
        super().__init__(text, globs)

    def run(self):
        self.hterm, self.hblock, self.freed = {}, {}, []
        return super().run()

    def const(self, v, ty):
        if v[0] == 'szof':
            p = poly(self.const(v[1], v[2]))
            if set(p) <= {()}:
                return C(64, 0)
            (m, c), = p.items()
            return self.hterm[m[0]]
        return super().const(v, ty)

    def step(self, b, i):
        super().step(b, i)
        if i.op == 'phi':
            if i.ty == ('i', 64) and i.res in self.casts and self.env[i.res].id not in IV:
                self.ptrs.add(self.env[i.res].id)
            o = self.hphi.get((b, i.res))
            if o is not None:
                s = self.env[o.res] = mk('phi', 64, (), (b, o.res, 0))
                BYID[s.id] = s
                self.phis[b].append(o)
                t = self.env[i.res]
                self.ptrs.add(t.id)
                self.hterm[t.id] = s
                self.hblock[t.id] = b

    def call(self, b, i):
        f, args = i.x
        if re.search(r'\bcall [^@(]*%', i.line.split('(')[0]):
            if i.ty is None or i.ty[0] != 'f' or any(t[0] != 'f' for t, _ in args):
                raise Unsupported("indirect call")
            self.env[i.res] = gen('icall', tw_(i.ty), self.env[f], *[self.const(v, t) for t, v in args])
            return
        if ALLOC.search(f):
            t = mk('sym', 64, (), f"#alloc {i.res}")
            BYID[t.id] = t
            self.ptrs.add(t.id)
            self.hterm[t.id] = self.const(args[0][1], args[0][0])
            self.hblock[t.id] = b
            self.env[i.res] = t
            return
        if f.endswith('___rust_no_alloc_shim_is_unstable_v2'):
            return
        if f.endswith('___rust_dealloc'):
            base, off = self.address(self.const(args[0][1], args[0][0]))
            if off:
                raise Unsupported("part of an object is freed")
            self.freed.append((b, base))
            return
        if f.startswith('llvm.memset'):
            base, off = self.address(self.const(args[0][1], args[0][0]))
            if base.op != 'alloca':
                n = self.const(args[2][1], args[2][0])
                self.acc.append((b, 'init', base, off, poly(n), None))
                return
        return super().call(b, i)

    def pointer_joins(self):
        self.joins(True)
        return self.joins(False)

    def joins(self, sizes):
        new = {}
        for b in self.rpo:
            for i in self.phis[b]:
                if i.ty not in (('ptr',), ('i', 64)) or '#' in i.res:
                    continue
                t = self.env[i.res]
                if t.id in IV or (b, i.res) in self.offs or (b, i.res) in self.hphi:
                    continue
                bases, consts, moved = set(), 0, False
                for v, bl in i.a:
                    q = poly(self.const(v, i.ty))
                    if set(q) <= {()}:
                        consts += 1
                        continue
                    c = [m for m in q if len(m) == 1 and m[0] in self.ptrs]
                    if c == [(t.id,)] and q[c[0]] == 1:
                        continue
                    if len(c) != 1 or q[c[0]] != 1 or (i.ty != ('ptr',) and c[0][0] not in self.hterm):
                        bases = None
                        break
                    bases.add(c[0][0])
                    moved |= len(q) > 1
                if not bases:
                    continue
                if all(x in self.hterm for x in bases) and not moved and (consts or len(bases) > 1):
                    if sizes:
                        o = ir.Ins('phi', i.res + '#size', ('i', 64), [(('szof', v, i.ty), bl) for v, bl in i.a])
                        self.hphi[(b, i.res)] = o
                        self.run()
                        return self.joins(True)
                    continue
                if sizes or consts or len(bases) != 1:
                    continue
                base = BYID[bases.pop()]
                if base.op == 'phi' and base.id not in self.hterm:
                    continue
                o = ir.Ins('phi', i.res + '#off', ('i', 64), [(('off', v, base), bl) for v, bl in i.a])
                self.offs[(b, i.res)] = o
                x = mk('phi', 64, (), (b, o.res, 0))
                BYID[x.id] = x
                new[t.id] = {(base.id,): 1, (x.id,): 1}
                self.ptrs.discard(t.id)
        return new


def tw_(ty):
    return ty[1]


class HVC(VC):
    """objects do not wrap around the address space; known where they exist"""

    def facts(self, b):
        if b in self._facts:
            return self._facts[b]
        out = super().facts(b)
        f = self.f
        ds = set(f.doms(b))
        more = [self.z.var(i) + self.z.valT(s) < 1 << 63 for i, s in f.hterm.items() if f.hblock[i] in ds]
        self._facts[b] = out + more
        return self._facts[b]


    def houdini(self):
        super().houdini()
        f, z = self.f, self.z
        for q in f.rpo:
            if q not in f.cut or q == f.entry:
                continue
            for i in f.phis[q]:
                if i.ty != ('i', 1):
                    continue
                t = f.env[i.res]
                live = {}
                for v, p in i.a:
                    if p not in f.pred[q]:
                        continue
                    x = f.const(v, i.ty)
                    if x is t or z.proves(self.efacts(p, q), z3.BoolVal(False)):
                        continue
                    live[x.id] = x
                if len(live) == 1 and all(isc(x) for x in live.values()):
                    (x,) = live.values()
                    c = z.cond(t)
                    self.inv[q].append(('bool', {}, c if x.x else z3.Not(c)))
                    self._facts = {}
        return self


# ---------------------------------------------------------------- ranges of float terms, in units of M = max(1, in / out)
class R:
    """lo <= t <= hi, or hi * M when m is set; never NaN"""

    def __init__(self, lo, hi, m):
        self.lo, self.hi, self.m = lo, hi, m


EPS = Fraction(1, 1 << 23)      # one rounding, with room to spare


def frange(t, f, w, h, seen=()):
    if t.id in seen:
        raise Unsupported("range of a loop value")
    go = lambda x: frange(x, f, w, h, seen + (t.id,))
    if t.op == 'fconst':
        x = Fraction(t.x)
        if x < 0:
            raise Unsupported("negative")
        return R(x, x, False)
    if t.op == 'phi':
        b, r, _ = t.x
        rs = [go(f.const(v, i.ty)) for i in f.phis[b] if i.res == r for v, _ in i.a]
        return R(min(x.lo for x in rs), max(x.hi for x in rs), any(x.m for x in rs))
    if t.op == 'select':
        rs = [go(t.a[1]), go(t.a[2])]
        return R(min(x.lo for x in rs), max(x.hi for x in rs), any(x.m for x in rs))
    if t.op == 'fdiv' and [x.op for x in t.a] == ['uitofp'] * 2 and t.a[0].a[0] is w and t.a[1].a[0] is h:
        return R(Fraction(0), (1 + EPS) ** 3, True)
    if t.op in ('maximumnum', 'maxnum', 'x86max'):
        x, y = go(t.a[0]), go(t.a[1])
        return R(max(x.lo, y.lo), max(x.hi, y.hi), x.m or y.m)
    if t.op == 'fmul':
        x, y = go(t.a[0]), go(t.a[1])
        if x.m and y.m:
            raise Unsupported("product of scales")
        return R(x.lo * y.lo * (1 - EPS), x.hi * y.hi * (1 + EPS), x.m or y.m)
    if t.op in ('round', 'ceil', 'roundeven', 'rint'):
        x = go(t.a[0])
        lo = x.lo.__floor__() if t.op != 'ceil' else x.lo.__ceil__()
        if t.op == 'round':
            lo = (x.lo + Fraction(1, 2)).__floor__()
        return R(Fraction(lo), x.hi + 1, x.m)
    if t.op in ('fptoui_sat', 'fptoui'):
        x = go(t.a[0])
        return R(Fraction(x.lo.__floor__()), x.hi, x.m)
    raise Unsupported(f"range of {show(t, 3)}")


LIMIT = 1 << 48


class Weights(Kernel):
    """generate_weights(self, in_size, out_size) -> FilterWeights { weights: Vec<f32>, bounds: Vec<(start, size)>, kernel_size,
    aligned_size, distinct_elements, .. } with weights.len() = aligned_size * out_size, bounds.len() = out_size and every bound
    1 <= size <= aligned_size, start + size <= in_size"""
    rows = 1
    dst_stride = None
    WORD, PAIR = 8, 16
    FN = GFn
    TIGHT = False

    def setup(self):
        f = self.f
        ts = [t for t, _ in f.args]
        if ts != [('ptr',), ('ptr',), ('i', 64), ('i', 64)]:
            raise Unsupported("arguments of generate_weights")
        self.ret, self.this, self.n, self.m = [self.args[n] for _, n in f.args]
        self.results()

    def results(self):
        f = self.f
        self.out_len, self.part, self.word = {(self.m.id,): 2}, 32, self.WORD
        self.fields = {}
        for b, kind, base, off, nb, vals in f.acc:
            if kind == 'store' and base is self.ret:
                if set(off) - {()} or len(vals) != 1:
                    raise Unsupported("field of the result")
                o = off.get((), 0)
                if o in self.fields.setdefault(b, {}):
                    raise Unsupported("a field of the result is written twice")
                self.fields[b][o] = vals[0]
        for b, fs in self.fields.items():
            if not {0, 8, 16, 24, 32, 40, 48, 56, 64} <= set(fs):
                raise Unsupported("result written in pieces")
        st, seen = [f.entry], {f.entry}
        while st:
            x = st.pop()
            if x in self.fields:
                continue
            for y in f.succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        if any(b in seen and b not in self.fields for b, _ in f.rets):
            raise Unsupported("a return without a result")
        self.dst = None

    def bases(self):
        return [atom(self.m), {(self.m.id,): 2}]

    def pre(self):
        z = self.z
        n, m = z.var(self.n.id), z.var(self.m.id)
        out = [n >= 1, m >= 1, n <= LIMIT, m <= LIMIT]
        self.ranges = []
        for b, fs in self.fields.items():
            k = fs[56]
            if isc(k):
                continue
            r = frange(k, self.f, self.n, self.m)
            c = r.hi.__ceil__()
            p = poly(k)
            v = z.lin(p)
            out += [v >= int(r.lo), z.lin(pmul(p, atom(self.m))) <= c * (n + m), v <= c * (n + m), v == z.valT(k)]
            self.ranges.append((int(r.lo), c))
        return out

    def prove(self, only=None):
        ob = Ob()
        self.vc = HVC(self.f, [], self.extra() + self.bases() + self.strides(), fits=self.fit())
        self.z = self.vc.z
        self.z.tight, self.z.alone = self.TIGHT, True
        self.z.hooks.append(self.hook)
        try:
            self.vc.base = self.pre()
        except (Fail, Unsupported) as e:
            ob.bad.append(("kernel size", str(e)[:300], False))
            return ob
        ob.add("invariants", lambda: (self.vc.houdini(), sum(map(len, self.vc.inv.values())))[1])
        if ob.bad:
            return ob
        for name, f in (("not vacuous", self.live), ("allocations", self.allocations), ("no panic", self.panics), ("memory", self.memory),
                        ("every bound written once", self.progress), ("windows", self.values)):
            ob.add(name, f)
        return ob

    def strides(self):
        return [poly(fs[56]) for fs in self.fields.values() if not isc(fs[56])] + [poly(fs[16]) for fs in self.fields.values() if not isc(fs[16])] \
            + [poly(s) for s in self.f.hterm.values() if s.op != 'phi']

    # ---------------------------------------------------------- what may be touched
    def allocations(self):
        """sizes given to the allocator are not wrapped"""
        n = 0
        for i, s in self.f.hterm.items():
            if s.op == 'phi':
                continue
            n += 1
            b = self.f.hblock[i]
            e = self.z.lin(poly(s))
            if not self.z.proves(self.plain(b), z3.And(e >= 0, e < 1 << 63)):
                raise Fail(f"size {pshow(poly(s))} allocated in {b} may wrap")
        return n

    def plain(self, b):
        """facts without those of objects allocated in b itself"""
        f = self.f
        ds = set(f.doms(b)) - {b}
        self.vc._facts.pop(b, None)
        out = VC.facts(self.vc, b)
        self.vc._facts.pop(b, None)
        return out + [self.z.var(i) + self.z.valT(s) < 1 << 63 for i, s in f.hterm.items() if f.hblock[i] in ds]

    def panics(self):
        n = 0
        f = self.f
        for b in f.rpo:
            if f.blocks[b][-1].op != 'unreachable':
                continue
            n += 1
            calls = [i.x[0] for i in f.blocks[b] if i.op == 'call' and not i.x[0].startswith('llvm.')]
            if len(calls) == 1 and calls[0].endswith('raw_vec12handle_error'):
                continue        # the memory asked for is not there
            if not calls and len(f.blocks[b]) == 1 and len(f.pred[b]) == 1 and self.enum(f.pred[b][0], b):
                continue
            if not self.z.proves(self.vc.facts(b), z3.BoolVal(False)):
                raise Fail(f"panic block {b} may be reached")
        return n

    def enum(self, p, b):
        """the default of a switch over a field of self: a value that is none of the enum's"""
        t = self.f.blocks[p][-1]
        if t.op != 'switch' or t.x[0] != b:
            return False
        v = self.f.const(t.a[0], t.ty)
        return v.op == 'ld' and v.a[0] is self.this

    def region(self, kind, base, off, n):
        o = self.z.lin(off)
        if base is self.ret and kind == 'store':
            return z3.And(o >= 0, o + n <= 80)
        if base is self.this and kind == 'load':
            return z3.And(o >= 0, o + n <= 24)
        if base.id in self.f.hterm:
            return z3.And(o >= 0, o + n <= self.z.lin(poly(self.f.hterm[base.id])))
        if base.op == 'sym' and base.x.startswith('@') and kind == 'load':
            return None if self.f.globs.get(base.x[1:]) else z3.BoolVal(False)
        if kind == 'load' and (base.op == 'phi' or base.op == 'ld'):
            raise Fail(f"load through {show(base)}")
        raise Fail(f"{kind} through {show(base)}")

    def memory(self):
        n = super().memory()
        f = self.f
        for b, base in f.freed:
            n += 1
            after, st = set(), [b]
            while st:
                for y in f.succ[st.pop()]:
                    if y not in after:
                        after.add(y)
                        st.append(y)
            kin = self.kin(base)
            for x, kind, bs, off, nb, vals in f.acc:
                if bs.id in kin and (x in after or x == b):
                    raise Fail(f"{kind} after its object is freed")
            for x, fs in self.fields.items():
                if kin & (self.kin(fs[8]) | self.kin(fs[32])):
                    raise Fail("an object of the result is freed")
        return n

    def kin(self, t):
        """objects a pointer may be"""
        out, st = set(), [t]
        while st:
            x = st.pop()
            if x.id in out:
                continue
            out.add(x.id)
            if x.op == 'phi':
                b, r, _ = x.x
                for i in self.f.phis[b]:
                    if i.res == r:
                        for v, _ in i.a:
                            q = poly(self.f.const(v, i.ty))
                            st += [BYID[m[0]] for m in q if len(m) == 1 and m[0] in self.f.ptrs]
        return out

    def live_of(self, t):
        """what a pointer chosen at a join is, when only one way into the join is possible"""
        while t.op == 'phi':
            q, r, _ = t.x
            live = {}
            for i in self.f.phis[q]:
                if i.res == r:
                    for v, p in i.a:
                        if p in self.f.pred[q] and not self.z.proves(self.vc.efacts(p, q), z3.BoolVal(False)):
                            x = self.f.const(v, i.ty)
                            live[x.id] = x
            if len(live) != 1 or t.id in live:
                return t
            (t,) = live.values()
        return t

    # ---------------------------------------------------------- the bounds
    def stores(self):
        """stores to the vector of the result looked at: its pointer is field `part`, its words are `word` bytes"""
        kin = set().union(*[self.kin(fs[self.part]) for fs in self.fields.values()])
        out = []
        for b, kind, base, off, nb, vals in self.f.acc:
            if kind != 'store' or base.id not in kin:
                continue
            if isinstance(nb, dict) or nb % self.word:
                raise Fail("store to part of a word")
            e = divp(off, self.word)
            if e is None:
                raise Fail("store to the result is not aligned")
            out.append((b, 0, e, ev.recut(vals, 8 * self.word, nb // self.word), None))
            for x, fs in self.fields.items():
                if self.reach(b, x) and fs[self.part] is not base and self.live_of(fs[self.part]) is not self.live_of(base):
                    raise Fail("written to what is not returned")
        if not out:
            raise Fail("nothing is stored")
        return out

    def reach(self, a, b):
        st, seen = [a], {a}
        while st:
            x = st.pop()
            if x == b:
                return True
            for y in self.f.succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False

    def shape(self, b, fs, kt, mt, vecs):
        z, n = self.z, 0
        g = self.vc.facts(b)
        k, out = poly(kt), atom(mt)

        def need(what, a, c):
            if not z.proves(g, z.lin(a) == z.lin(c)):
                raise Fail(f"{what}: {pshow(a)} is not {pshow(c)}")
        need("kernel size", poly(fs[48]), k)
        need("aligned size", poly(fs[56]), k)
        need("number of outputs", poly(fs[64]), out)
        need("length of the bounds", poly(fs[40]), out)
        need("length of the weights", poly(fs[16]), pmul(k, out))
        for ln, cap, ptr, es in vecs:
            base, off = self.f.address(fs[ptr])
            if off or base.id not in self.f.hterm:
                raise Fail("a vector of the result is no object")
            s = poly(self.f.hterm[base.id])
            need("size of a vector", s, pscale(poly(fs[ln]), es))
            need("capacity of a vector", s, pscale(poly(fs[cap]), es))
        return 9

    def values(self):
        z, n = self.z, 0
        for b, fs in self.fields.items():
            n += self.shape(b, fs, fs[56], self.m, ((16, 0, 8, 4), (40, 24, 32, self.PAIR)))
        by = {}
        for b, _, e, vals, _ in self.stores():
            c = e.get((), 0) % 2
            by.setdefault((b, pkey(padd(e, K(-c)))), {})[c] = vals[0]
        for (b, _), w in by.items():
            if set(w) != {0, 1}:
                raise Fail("start and size are not written together")
            s, l = z.valT(w[0]), z.valT(w[1])
            ks = {pkey(poly(fs[56])): fs[56] for x, fs in self.fields.items() if self.reach(b, x)}
            if len(ks) != 1:
                raise Fail("which kernel size")
            (k,) = ks.values()
            g = self.vc.facts(b)
            for what, goal in (("size of a window is at least 1", l >= 1), ("size of a window is at most the kernel size", l <= z.lin(poly(k))),
                               ("window is inside of the source", s + l <= z.var(self.n.id))):
                if not z.proves(g, goal):
                    raise Fail(f"{what}: start {show(w[0], 4)}, size {show(w[1], 4)}")
                n += 1
        return n


class Convert(Weights):
    """numerical_approximation::<i16, P>(self, 0): the same windows, and each weight is the nearest (within half a unit) of
    2^P times the given one, limited to what an i16 holds"""
    LO, HI = -(1 << 15), (1 << 15) - 1
    ES = 2

    TIGHT = True

    def setup(self):
        ts = [t for t, _ in self.f.args]
        if ts != [('ptr',), ('ptr',)]:
            raise Unsupported("arguments of the conversion of weights")
        self.ret, self.this = [self.args[n] for _, n in self.f.args]
        ld = lambda o: self.seen(load(self.this, K(o), 8))
        self.wp, self.wl, self.bp, self.bl, self.k0, self.a0, self.m = [ld(o) for o in (8, 16, 32, 40, 48, 56, 64)]
        self.n = None
        self.results()

    def seen(self, t):
        BYID[t.id] = t
        return t

    def bases(self):
        return [atom(self.m), {(self.m.id,): 2}, pmul(atom(self.k0), atom(self.m))]

    def pre(self):
        z = self.z
        m, k = z.var(self.m.id), z.var(self.k0.id)
        w = z.lin(pmul(atom(self.k0), atom(self.m)))
        return [m >= 1, k >= 1, z.var(self.wl.id) == w, z.var(self.bl.id) == m, z.var(self.a0.id) == k, 4 * w < 1 << 62, 16 * m < 1 << 62]

    def region(self, kind, base, off, n):
        o = self.z.lin(off)
        if base is self.this and kind == 'load':
            return z3.And(o >= 0, o + n <= 80)
        if kind == 'load' and base is self.wp:
            return z3.And(o >= 0, o + n <= 4 * self.z.var(self.wl.id))
        if kind == 'load' and base is self.bp:
            return z3.And(o >= 0, o + n <= 16 * self.z.var(self.bl.id))
        return super().region(kind, base, off, n)

    def parts(self):
        out = atom(self.m)
        return (("every bound written once", 32, self.WORD, pscale(out, 2)), ("every weight written once", 8, self.ES, pmul(atom(self.k0), out)))

    def prove(self, only=None):
        ob = Weights.prove(self, only)
        if not any(x[0] == "invariants" for x in ob.bad):
            ob.add("every weight written once", lambda: self.with_part(1, self.progress))
            ob.add("weights", lambda: self.with_part(1, self.weights))
        return ob

    def with_part(self, i, f):
        _, self.part, self.word, self.out_len = self.parts()[i]
        try:
            return f()
        finally:
            _, self.part, self.word, self.out_len = self.parts()[0]

    def values(self):
        z, n = self.z, 0
        for b, fs in self.fields.items():
            n += self.shape(b, fs, self.k0, self.m, ((16, 0, 8, self.ES), (40, 24, 32, self.PAIR)))
        for b, _, e, vals, _ in self.stores():
            if not self.vc.same(poly(vals[0]), poly(load(self.bp, pscale(e, 8), 8)), self.vc.facts(b)):
                raise Fail(f"window {pshow(e)} is {show(vals[0], 4)}")
            n += 1
        return n

    def weights(self):
        n = 0
        for b, _, e, vals, _ in self.stores():
            for j, t in enumerate(vals):
                w = load(self.wp, pscale(padd(e, K(j)), 4), 4)
                self.near(t, w)
                n += 1
        return n

    def near(self, t, w):
        s = z3.Solver()
        s.set(timeout=120000)
        x = z3.FP('w', z3.Float32())
        i = fp.bits(t, {w.id: x}, {})
        v = z3.fpToFP(z3.RNE(), i, z3.Float64())
        y = z3.fpMul(z3.RNE(), z3.fpToFP(z3.RNE(), x, z3.Float64()), z3.FPVal(float(1 << self.c['precision']), z3.Float64()))
        lo, hi, half = [z3.FPVal(c, z3.Float64()) for c in (self.LO, self.HI, 0.5)]
        ok = z3.If(z3.fpLEQ(y, lo), z3.fpEQ(v, lo), z3.If(z3.fpGEQ(y, hi), z3.fpEQ(v, hi), z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), y, v)), half)))
        s.add(z3.Not(z3.fpIsNaN(x)), z3.Not(ok))
        r = s.check()
        if r == z3.sat:
            raise Fail(f"weight {s.model()[x]} becomes {show(t, 6)}")
        if r != z3.unsat:
            raise Unsupported("no answer about the conversion of a weight")
