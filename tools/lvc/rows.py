"""Contracts of the row functions that work pixel by pixel (alpha weighting): out[4p+c] = F_c(in[4p+c], in[4p+3])."""
import z3
import ir
import sym, ev, pix
from sym import *
from vc import Fail, Refuted
from spec import Kernel, divp, K, S, coef, BYID_ANY


CALLEES = {}        # function handed a row -> what its contract says it does


class Rows(Kernel):
    """dst and src of the same whole number of pixels, or one row in place"""
    rows = 1
    dst_stride = None

    def setup(self):
        names = [n for t, n in self.f.args]
        a = [x for x in names if self.args[x] is not None and dict(zip(names, [t for t, _ in self.f.args]))[x] in (('ptr',), ('i', 64)) and x != 'self']
        ptr = dict(zip(names, [t for t, _ in self.f.args]))
        sl = [(x, y) for x, y in zip(a, a[1:]) if ptr[x] == ('ptr',) and ptr[y] == ('i', 64)]
        self.place(sl)
        self.ch = 4
        d = [n for n in names if n == 'bit_depth']
        self.depth = self.args[d[0]] if d else None
        self.dtype = self.depth
        if self.depth is not None and self.depth.w != 32:
            self.depth = None
        self.out_len = atom(self.dl)
        self.P = S('#P')

    def place(self, sl):
        if len(sl) != (1 if self.c['inplace'] else 2):
            raise Unsupported(f"arguments of a row function: {sl}")
        self.dst, self.dl = self.args[sl[0][0]], self.args[sl[0][1]]
        self.src, self.sl = self.args[sl[-1][0]], self.args[sl[-1][1]]

    def pre(self):
        z = self.z
        P, d = z.var(self.P.id), z.var(self.dl.id)
        out = [d == 4 * P, P * (4 * self.ed) < 1 << 62]
        if self.sl is not self.dl:
            out.append(z.var(self.sl.id) == d)
        if self.dtype is not None:
            v = z.var(self.dtype.id)
            out += [v >= 1, v <= 16]
        return out

    def region(self, kind, base, off, n):
        o = self.z.lin(off)
        if base is self.dst or base is self.src:
            if kind == 'store' and base is not self.dst:
                raise Fail(f"store to {show(base)}")
            if kind == 'load' and base is self.dst and base is not self.src:
                raise Fail("the destination is read")
            return z3.And(o >= 0, o + n <= z3.IntVal(self.ed) * self.z.var(self.dl.id))
        if kind == 'load' and base.op == 'sym' and 'std_detect' in str(base.x) or kind == 'load' and 'std_detect' in show(base):
            return z3.And(o >= 0, o + n <= 24)      # the cache of processor features, written by nobody here
        raise Fail(f"{kind} through {show(base)}")

    # ---------------------------------------------------------- handing the whole row on to another function of this contract
    def memory(self):
        return super().memory() + self.handed()

    def handed(self):
        f = self.f
        for b, name, av in f.calls:
            n = ir.short(name)
            want = [self.dst, self.dl] + ([] if self.src is self.dst else [self.src, self.sl]) + ([self.dtype] if self.dtype is not None else [])
            got = av[-len(want):]
            if len(got) < len(want) or not all(x is y for x, y in zip(got, want)):
                raise Fail(f"{ir.short(name)} is called with other arguments: {[show(x) for x in av]}")
            if self.c['kind'] != CALLEES[n]:
                raise Fail(f"{ir.short(name)} is called to {CALLEES[n]}")
            after, st = set(), [b]
            while st:
                x = st.pop()
                for q in f.rpo:
                    if x in f.pred[q] and q not in after:
                        after.add(q)
                        st.append(q)
            for x, kind, base, off, n, vs in f.acc:
                if base in (self.dst, self.src) and (x == b or x in after):
                    raise Fail(f"{kind} around the call of {ir.short(name)}")
        return len(f.calls)

    def pedge(self, p, q, st, row):
        f, b = self.f, p
        while True:
            if any(c[0] == b for c in f.calls):
                e = super().pedge(p, q, st, row)
                if e[3] is not None:
                    raise Fail("stores and a call on one way")
                return (*e[:3], ({}, self.out_len))
            if b in f.cut:
                break
            b = f.idom[b]
        return super().pedge(p, q, st, row)

    # ---------------------------------------------------------- one store per output; in place: read before it is written
    def progress(self):
        n = super().progress()
        return n + (self.ahead() if self.src is self.dst else 0)

    def ahead(self):
        """every load is of elements not yet written: at or after what the stores had reached on entry of its stretch of
        code, and no earlier store of the stretch touches it"""
        f, n = self.f, 0
        asg = self.vc.last
        for j, (b, kind, base, off, nb, vals) in enumerate(f.acc):
            if kind != 'load' or base is not self.dst:
                continue
            path, x = [], b
            while True:
                path.append(x)
                if x in f.cut:
                    break
                x = f.idom[x]
            lo = {} if x == f.entry else asg.get((x,))
            if lo is None:
                raise Fail(f"no progress known at {x}")
            n += 1
            fs = self.vc.facts(b)
            o = self.z.lin(off)
            if not self.z.proves(fs, o >= self.z.lin(pscale(lo, self.ed))):
                raise Fail(f"load {pshow(off)} in {b} may be of an element written before")
            for i, (b2, k2, base2, off2, nb2, _) in enumerate(f.acc):
                if k2 != 'store' or not (f.dom(x, b2)):
                    continue
                if b2 == b and i > j or b2 != b and not self.reaches(b2, b, x):
                    continue
                if not self.z.proves(fs, z3.Or(self.z.lin(off2) + self.length(nb2) <= o, o + self.length(nb) <= self.z.lin(off2))):
                    raise Fail(f"load {pshow(off)} in {b} comes after a store to it")
        return n

    def reaches(self, a, b, cut):
        """a way from a to b that does not pass a cut block"""
        st, seen = [a], set()
        succ = {}
        for q in self.f.rpo:
            for p in self.f.pred[q]:
                succ.setdefault(p, []).append(q)
        while st:
            x = st.pop()
            for y in succ.get(x, ()):
                if y == b and y not in self.f.cut:
                    return True
                if y in seen or y in self.f.cut:
                    continue
                seen.add(y)
                st.append(y)
        return False

    # ---------------------------------------------------------- values
    def context(self, row, pos):
        c = pos.get((), 0) % 4
        i = divp(padd(pos, K(-c)), 4)
        if i is None:
            raise Fail(f"output position {pshow(pos)}")
        self.rowc = (row, c)
        return (i,)

    def values(self):
        self.cases = {}
        n = 0
        for b, row, e, els, mask in self.stores():
            for j, t in enumerate(els):
                self.assume = {}
                pos = padd(e, K(j))
                if mask:
                    self.assume = self.active(b, mask, j, pos)
                    t = sym.subst(t, self.assume, {})
                self.blk = b
                t = self.canon(t, pos)
                c = pos.get((), 0) % 4
                self.cases.setdefault((c, t.id), (c, t, set()))[2].add(b)
                n += 1
        k = 0
        for c, t, bs in self.cases.values():
            k += self.judge(c, t, sorted(bs))
        return n

    def active(self, b, mask, j, pos):
        """what is known of the masks when lane j is written: the lanes of a whole pixel are written together"""
        m = mask[0][j]
        out = {m.id: C(1, 1)}
        n = self.z.lin(mask[1])
        facts = self.vc.facts(b) + [n >= j + 1]
        p0 = j - pos.get((), 0) % 4
        for k in range(max(p0, 0), min(p0 + 4, len(mask[0]))):
            x = mask[0][k]
            if x.id not in out and (k < j or self.z.proves(facts, n >= k + 1)):
                out[x.id] = C(1, 1)
        return out

    def canon(self, t, pos):
        """loads of the pixel by their channel; anything else is a failure"""
        c = pos.get((), 0) % 4
        pix = padd(pos, K(-c))
        m = {}
        for l in leaves(t):
            if l.op == 'ld' and l.a[0] is self.src:
                off = dict(l.x[0])
                n = l.x[1]
                parts = []
                if n % self.es and n > self.es:
                    raise Fail(f"load of part of a sample: {show(l)}")
                if n >= self.es:
                    for i in range(n // self.es):
                        parts.append(self.sample(padd(off, K(i * self.es)), pix))
                    m[l.id] = cat(parts) if len(parts) > 1 else parts[0]
                else:
                    base = padd(off, K(-(off.get((), 0) % self.es)))
                    m[l.id] = ext(self.sample(base, pix), 8 * (off.get((), 0) % self.es), 8 * n)
        return sym.subst(t, m, {})

    def sample(self, off, pix):
        d = psub(off, pscale(pix, self.es))
        if set(d) - {()}:
            for k in range(4):
                if self.equal(off, padd(pscale(pix, self.es), K(k * self.es))):
                    return S(f"#in{k}", 8 * self.es)
            raise Fail(f"takes {pshow(off)} for the pixel at {pshow(pix)}")
        k = d.get((), 0)
        if k % self.es or not 0 <= k // self.es < 4:
            raise Refuted(f"takes a sample {k} bytes from the start of the pixel") if False else Fail(f"takes a sample {k} bytes from the start of the pixel")
        return S(f"#in{k // self.es}", 8 * self.es)


def leaves(t):
    st, seen, out = [t], set(), []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('ld', 'sym', 'phi'):
            out.append(x)
        else:
            st.extend(x.a)
    return out


class AlphaRows(Rows):
    """colours weighted by alpha, or divided by it; alpha itself unchanged"""
    maxdepth = 16

    def depths(self, bs):
        if self.es == 1:
            return [8]
        if self.dtype is None:
            return [16]
        d = self.z.var(self.dtype.id)
        return [k for k in range(1, 17) if any(self.z.check(self.vc.facts(b), d == k)[0] != z3.unsat for b in bs)]

    def judge(self, c, t, bs):
        n = 0
        m = {S(f"#in{c}", 8 * self.es).id: S('#c', 8 * self.es)} if c < 3 else {S("#in3", 8 * self.es).id: S('#c', 8 * self.es)}
        t = sym.subst(t, m, {})
        if c == 3 and t is S('#c', 8 * self.es):
            return 1
        for k in self.depths(bs):
            u = t
            if self.dtype is not None:
                u = sym.subst(t, {self.dtype.id: C(self.dtype.w, k)}, {})
            pix.decide(u, self.c['kind'] if c < 3 else 'identity', (1 << k) - 1, self.c['tol'](k))
            n += 1
        return n
