"""Contracts of the row kernels, and the obligations each generates."""
import re, time
import z3
import ir, sym, ev
from sym import *
from vc import VC, Fail, Refuted, conj, lanes
import bv


def S(name, w=64):
    t = mk('sym', w, (), name)
    BYID[t.id] = t
    return t


def A1(t):
    return atom(t)


def K(c):
    return {(): c} if c else {}


def divp(p, k):
    """exact division of a polynomial by an integer"""
    if any(c % k for c in p.values()):
        return None
    return {m: c // k for m, c in p.items()}


def coef(p, i):
    """coefficient polynomial of atom i in p, and the rest"""
    q, r = {}, {}
    for m, c in p.items():
        if i in m:
            l = list(m)
            l.remove(i)
            q[tuple(l)] = q.get(tuple(l), 0) + c
        else:
            r[m] = c
    return q, r


class Ob:
    def __init__(self):
        self.ok, self.bad = [], []

    def add(self, name, fn):
        try:
            n = fn()
            self.ok.append((name, n or 1))
        except (Fail, Unsupported) as e:
            self.bad.append((name, str(e)[:600], isinstance(e, Refuted)))
        except RecursionError:
            self.bad.append((name, "recursion", False))


class Kernel:
    """what all row kernels share: regions, progress of stores, taps of accumulators"""
    real = False

    def __init__(self, fn, cfg):
        self.f, self.c = fn, cfg
        self.es, self.ed, self.ew, self.ch = cfg['es'], cfg['ed'], cfg['ew'], cfg['ch']
        fn.find_ivs()
        self.args = {n: fn.env[n] for _, n in fn.args}
        d = [n for t, n in fn.args if t == ('i', 32)]
        self.depth = fn.env[d[0]] if len(d) == 1 else None
        self.setup()

    def arg(self, *names):
        for n in names:
            if n in self.args:
                return self.args[n]
        return None

    # ------------------------------------------------ to be given by the subclass
    def setup(self):
        raise NotImplementedError

    # ------------------------------------------------ obligations
    def prove(self, only=None):
        ob = Ob()
        self.vc = VC(self.f, [], self.extra() + self.bases(), fits=self.fit())
        self.z = self.vc.z
        self.z.hooks.append(self.hook)
        self.vc.base = self.pre()
        if self.depth is not None:
            d = self.z.var(self.depth.id)
            self.vc.base += [d >= 1, d <= self.c.get('maxdepth', 16)]
        ob.add("invariants", lambda: (self.vc.houdini(), sum(map(len, self.vc.inv.values())))[1])
        if ob.bad:
            return ob
        for name, f in (("not vacuous", self.live), ("no panic", self.panics), ("memory", self.memory),
                        ("every output written once", self.progress), ("taps and weights", self.values)):
            if only is None or name in only:
                ob.add(name, f)
        return ob

    def live(self):
        """the preconditions and invariants let a return be reached"""
        if not any(self.z.check(self.vc.facts(b), z3.BoolVal(True))[0] == z3.sat for b, _ in self.f.rets):
            raise Fail("no return is shown reachable")
        return 1

    def extra(self):
        return []

    def fit(self):
        """lengths of copies through stack arrays, for the invariants"""
        return [padd(p, K(-cap)) for _, p, cap in self.f.fits]

    def pre(self):
        return []

    def hook(self, t, v):
        pass

    def length(self, nb):
        return self.z.lin(nb) if isinstance(nb, dict) else nb

    def bases(self):
        """where the stores of a loop start: the part of their positions that does not move"""
        out = {}
        for b, kind, base, off, nb, vals in self.f.acc:
            if kind == 'store' and base is self.dst:
                e = divp(off, self.ed)
                if e is None or (self.dst_stride is not None and any(self.dst_stride.id in m for m in e)):
                    continue
                p = {m: c for m, c in e.items() if m and not any(BYID[i].op in ('phi', 'iter') for j in m for i in atoms_of(BYID[j]))}
                if p:
                    out[pkey(p)] = p
        return list(out.values())

    def panics(self):
        n = 0
        for b in self.f.rpo:
            if self.f.blocks[b][-1].op == 'unreachable':
                n += 1
                if not self.never(b, 0):
                    raise Fail(f"panic block {b} may be reached")
        return n

    def never(self, b, deep):
        no = z3.BoolVal(False)
        if self.z.proves(self.vc.facts(b), no):
            return True
        return deep < 3 and b != self.f.entry and not self.f.latches[b] and \
            all(self.z.proves(self.vc.efacts(p, b), no) or self.never(p, deep + 1) for p in self.f.pred[b])

    def memory(self):
        n = 0
        for b, p, cap in self.f.fits:
            n += 1
            if not self.z.proves(self.vc.facts(b), self.z.lin(p) <= cap):
                raise Fail(f"{pshow(p)} bytes copied in {b} may not fit the {cap} of the stack array")
        for b, t in self.f.positive:
            if not self.z.proves(self.vc.facts(b), self.z.valT(t) >= 1):
                raise Fail(f"empty mask in {b}")
        for b, kind, base, off, nb, vals in self.f.acc:
            if kind == 'load' and base.op == 'sym' and 'std_detect' in str(base.x):
                continue                    # what the processor can do
            g = self.region(kind, base, off, self.length(nb))
            if g is None:
                continue
            n += 1
            if not self.z.proves(self.vc.facts(b), g) and not self.by_path(kind, base, off, nb, 0):
                raise Fail(f"{kind} {show(base)}[{pshow(off)}]:{nb} in {b} may leave its region")
        return n

    def by_path(self, kind, base, off, nb, deep):
        """an access whose address was chosen at a join: on each way into the join"""
        f, vc = self.f, self.vc
        js = {BYID[i].x[0] for i in patoms(off) if BYID[i].op == 'phi' and i not in IV}
        js = [j for j in js if not f.latches[j] and vc.avail(off, j)]
        if not js or deep > 3:
            return False
        q = max(js, key=lambda x: f.num[x])
        for p in f.pred[q]:
            o = vc.moved(off, p, q)
            try:
                nb = vc.moved(nb, p, q) if isinstance(nb, dict) else nb
                g = self.region(kind, base, o, self.length(nb))
            except Fail:
                g = z3.BoolVal(False)
            if not self.z.proves(vc.efacts(p, q), g) and not self.by_path(kind, base, o, nb, deep + 1):
                return False
        return True

    # ------------------------------------------------ stores
    def settled(self, off, b):
        """offsets carried by a loop, as the invariants give them in iterations"""
        for d in self.f.doms(b):
            for kind, e, _ in self.vc.inv.get(d, ()):
                if kind != 'eq':
                    continue
                ph = [m for m in e if len(m) == 1 and BYID[m[0]].op == 'phi' and m[0] in [i for k in off for i in k]]
                rest = [m for m in e if any(BYID[i].op == 'phi' for i in m)]
                if len(ph) == 1 and rest == ph and abs(e[ph[0]]) == 1:
                    q, r = coef(off, ph[0][0])
                    off = padd(r, pmul(q, pscale({m: c for m, c in e.items() if m != ph[0]}, -e[ph[0]])))
        return off

    def row_of(self, off, b=None):
        """dst offset in bytes -> (row, element polynomial)"""
        r = 0
        if b is not None and divp(off, self.ed) is None:
            off = self.settled(off, b)
        st = self.dst_stride
        if st is not None:
            q, off = coef(off, st.id)
            if set(q) - {()}:
                raise Fail(f"row of store {pshow(q)}")
            r = divp(q, self.ed)
            if r is None:
                raise Fail("row of store")
            r = r.get((), 0)
        e = divp(off, self.ed)
        if e is None:
            raise Fail(f"store offset {pshow(off)} is not element aligned")
        return r, e

    def stores(self):
        """-> list of (block, row, element poly, [element terms])"""
        out = []
        for j, (b, kind, base, off, nb, vals) in enumerate(self.f.acc):
            if kind != 'store':
                continue
            if base is not self.dst:
                raise Fail(f"store to {show(base)}")
            r, e = self.row_of(off, b)
            if isinstance(nb, dict):
                ms, cnt = self.f.masks[j]
                k = 8 * self.ed // vals[0].w        # lanes of the store per element
                cnt = divp(cnt, k) if k else None
                if cnt is None or 8 * self.ed % vals[0].w or len(vals) % k or any(ms[i] is not ms[i - i % k] for i in range(len(ms))):
                    raise Fail("masked store of part of an element")
                out.append((b, r, e, ev.recut(vals, 8 * self.ed, len(vals) // k), (ms[::k], cnt)))
                continue
            if nb % self.ed:
                raise Fail("store of part of an element")
            els = ev.recut(vals, 8 * self.ed, nb // self.ed)
            out.append((b, r, e, els, None))
        if not out:
            raise Fail("no stores")
        return out

    def progress(self):
        f = self.f
        st = self.stores()
        total = 0
        back, todo = set(), [b for b, _ in f.rets]
        while todo:         # blocks from which there is a return
            x = todo.pop()
            if x not in back:
                back.add(x)
                todo += f.pred[x]
        for row in range(self.rows):
            nodes = {('RET',): []}
            for b, _ in f.rets:
                nodes[('RET',)].append(self.pedge(b, 'RET', st, row))
            for q in f.cut:
                if q != f.entry and q in back:
                    nodes[(q,)] = [self.pedge(p, q, st, row) for p in f.pred[q]]
            # the entry is the base
            total += self.vc.chain(nodes, ('RET',), self.out_len, f"stores of row {row}")
        if any(not 0 <= s[1] < self.rows for s in st):
            raise Fail("store to a row that is not there")
        return total

    def pedge(self, p, q, st, row):
        f = self.f
        path, b = [], p
        while True:
            path.append(b)
            if b in f.cut:
                break
            b = f.idom[b]
        ps = []
        mine = [s for s in st if s[0] in path and s[1] == row]
        if any(s[4] for s in mine):
            if len(mine) > 1:
                raise Fail("several masked stores on one path")
            return (p, q, None if b == f.entry else (b,), (mine[0][2], mine[0][4][1]))
        for s in mine:
            if True:
                ps += [padd(s[2], K(i)) for i in range(len(s[3]))]
        run = None
        if ps:
            run = self.vc.run_of(ps)
            if run is None:
                raise Fail(f"stores on the way to {q} do not tile: {[pshow(x) for x in ps][:6]}")
        return (p, q, None if b == f.entry else (b,), run)

    # ------------------------------------------------ accumulators
    def values(self):
        n = 0
        self.memo_tree = {}
        for b, row, e, els, mask in self.stores():
            for j, t in enumerate(els):
                self.assume = {}
                if mask:
                    # only active lanes are written
                    m = mask[0][j]
                    self.assume = {m.id: C(1, 1)}
                    t = sym.subst(t, self.assume, {})
                n += self.element(b, row, padd(e, K(j)), t)
        return n

    def element(self, b, row, pos, t):
        return self.paths(b, None, t, self.context(row, pos), 0)

    def paths(self, b, via, t, ctx, deep):
        """the element, after splitting at joins whose incoming values are already narrowed"""
        q = self.narrowed_join(t)
        if q is None:
            return self.linear(b, self.final(b, t), ctx, via)
        if deep > 4:
            raise Fail("narrowing spread over too many joins")
        f, n = self.f, 0
        for p in f.pred[q]:
            if self.z.proves(self.vc.efacts(p, q), z3.BoolVal(False)):
                continue
            m, memo = self.vc.subst(p, q)
            if any(not self.vc.avail(c, q) for c in ctx):
                raise Fail(f"position not known at {q}")
            t2 = sym.subst(t, m, {})
            if self.assume:
                for i in self.assume:
                    if sym.subst(BYID_ANY(i), m, {}).id != i:
                        raise Fail("the mask changes while it is used")
                t2 = sym.subst(t2, self.assume, {})
            n += self.paths(p, (p, q), t2, tuple(self.vc.moved(c, p, q) for c in ctx), deep + 1)
        return n

    LIN = ('phi', 'add', 'mul', 'const', 'poison')

    def narrowed_join(self, t):
        """a join (no loop header) with a phi of t that holds something narrowed on one of its edges"""
        f = self.f
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'phi':
                b, i, k = self.vc.lane[x.id]
                if f.latches[b]:
                    continue
                for v, bl in i.a:
                    y = f.const(v, i.ty)
                    y = y[k] if isinstance(y, list) else y
                    if y.op not in self.LIN:
                        return b
            elif x.op not in ('ld',):
                st.extend(x.a)
        return None

    def settle(self, E, p=None, q=None):
        """with the lane of the masked store active"""
        if not self.assume:
            return E
        (i,) = self.assume
        if q is not None and q != 'RET':
            m, memo = self.vc.subst(p, q)
            if sym.subst(BYID_ANY(i), m, {}).id != i:
                raise Fail("the mask changes while it is used")
        return psubst(E, self.assume, {}, self.polyf())

    def equal(self, a, b):
        """the same place, at the end of the block the tap belongs to"""
        if a == b:
            return True
        d = psub(a, b)
        return self.z.proves(self.vc.facts(self.blk), self.z.lin(d) == 0)

    def wrong(self, a, b):
        d = psub(a, b)
        return Refuted if d and set(d) == {()} else Fail

    def polyf(self):
        return fpoly if self.real else poly

    def linear(self, b, leaf, ctx, via=None):
        """the linear leaf stored for this context is bias + all taps"""
        f, vc = self.f, self.vc
        P = self.polyf()
        self.root = ctx
        nodes = {}
        work = []

        def classify(E, blk, cx):
            """split into phi part and taps at the end of block blk"""
            rest, taps, const, last = {}, [], 0, None
            blocks = {BYID[i].x[0] for m in E for i in value_phis(m)}
            if any(value_phis(m) and not (len(m) == 1 and BYID[m[0]].op == 'phi') for m in E):
                # phis inside products: through the latest join as a whole
                last = max(blocks, key=lambda x: f.num[x])
                if not all(f.dom(x, last) for x in blocks):
                    raise Fail(f"an accumulator is spread over {sorted(blocks)}")
                if not vc.avail(E, last) or not all(vc.avail(c, last) for c in cx):
                    raise Fail(f"terms not known at {last}")
                k = (last, pkey(E), tuple(pkey(c) for c in cx))
                if k not in nodes and k not in [w[0] for w in work]:
                    work.append((k, E, cx))
                return k, None
            for m, c in E.items():
                if m == ():
                    const = c
                    continue
                if len(m) == 1 and BYID[m[0]].op == 'phi':
                    rest[m] = c
                    continue
                self.blk = blk
                try:
                    taps.append(self.tap(m, c, cx))
                except Fail:
                    # an address that depends on the path: back through the latest join
                    js = {BYID[i].x[0] for i in atoms_of_all(m) if BYID[i].op == 'phi' and i not in IV}
                    js = [j for j in js if not f.latches[j] and f.dom(j, blk) and all(vc.avail(c, j) for c in cx) and vc.avail(E, j)]
                    if not js:
                        raise
                    last = max(js, key=lambda x: f.num[x])
                    k = (last, pkey(E), tuple(pkey(c) for c in cx))
                    if k not in nodes and k not in [w[0] for w in work]:
                        work.append((k, E, cx))
                    return k, None
            doms = {BYID[m[0]].x[0] for m in rest}
            run = None
            if taps:
                run = vc.run_of(taps)
                if run is None:
                    raise Fail(f"taps do not follow each other: {[pshow(x) for x in taps][:9]}")
            D = max(doms, key=lambda x: f.num[x]) if doms else None
            if not all(f.dom(x, D) for x in doms):
                raise Fail(f"an accumulator is spread over {sorted(doms)}")
            if D is not None:
                # the constant stays with the accumulator
                F = padd(rest, K(const)) if const else rest
                if not all(vc.avail(c, D) for c in cx):
                    raise Fail(f"position not known at {D}")
                k = (D, pkey(F), tuple(pkey(c) for c in cx))
                if k not in nodes and k not in [w[0] for w in work]:
                    work.append((k, F, cx))
                return k, run
            self.bias(const)
            return None, run

        root = ('ROOT',)
        t, run = classify(self.settle(P(leaf)), b, ctx)
        nodes[root] = [(b, ('via',) + via if via else 'RET', t, run)]
        while work:
            k, F, cx = work.pop()
            if k in nodes:
                continue
            if len(nodes) > 200:
                raise Fail("too many accumulators")
            q = k[0]
            nodes[k] = es = []
            for p in f.pred[q]:
                E = self.settle(vc.moved(F, p, q, P), p, q)
                c2 = tuple(vc.moved(c, p, q) for c in cx)
                t, run = classify(E, p, c2)
                es.append((p, q, t, run))
        return vc.chain(nodes, root, self.taps_total(ctx), f"taps of element {'/'.join(pshow(c) for c in ctx)}")


def BYID_ANY(i):
    t = BYID.get(i)
    if t is None:
        t = next(x for x in sym._tab.values() if x.id == i)
        BYID[i] = t
    return t


def atoms_of_all(m):
    out, seen = set(), set()
    for i in m:
        atoms_of(BYID[i], out, seen)
    return out


def value_phis(m):
    """phis a monomial's value is made of (not those of its addresses)"""
    st, seen, out = [BYID[i] for i in m], set(), []
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'phi':
            out.append(t.id)
        elif t.op != 'ld':
            st.extend(t.a)
    return out


def strip(t):
    """through widening -> (signs, innermost)"""
    s = []
    while t.op in ('zext', 'sext', 'uitofp', 'sitofp', 'fpext'):
        s.append(t.op)
        t = t.a[0]
    return s, t


class Horizontal(Kernel):
    def setup(self):
        self.fw = self.arg('filter_weights', 'weights', 'approx_weights')
        self.src = self.arg('src.0', 'src')
        self.dst = self.arg('dst.0', 'dst')
        if None in (self.fw, self.src, self.dst):
            raise Unsupported("arguments of a horizontal kernel")
        self.wp = load(self.fw, K(8), 8)
        self.wl = load(self.fw, K(16), 8)
        self.bp = load(self.fw, K(32), 8)
        self.bl = load(self.fw, K(40), 8)
        self.A = load(self.fw, K(56), 8)
        self.W = S('#W')
        self.rows = self.c['rows']
        self.ss = self.arg('src_stride') if self.rows > 1 else None
        self.dst_stride = self.arg('dst_stride') if self.rows > 1 else None
        if self.rows > 1 and (self.ss is None or self.dst_stride is None):
            raise Unsupported("strides of a four row kernel")
        self.dl = self.arg('dst.1')
        self.sl = self.arg('src.1')
        self.bl_p = atom(self.bl)
        self.out_len = pscale(self.bl_p, self.ch)
        for t in (self.wp, self.wl, self.bp, self.bl, self.A):
            BYID[t.id] = t

    def extra(self):
        return [self.bl_p]

    def pre(self):
        z = self.z
        W, nb, A = z.var(self.W.id), z.var(self.bl.id), z.var(self.A.id)
        out = [W >= 1, A >= 1, W * (self.ch * self.es) < 1 << 62, nb * (self.ch * self.ed) < 1 << 62, nb * 16 < 1 << 62]
        wl = z.var(self.wl.id)
        out += [wl == z.lin(pmul(atom(self.A), self.bl_p)), wl * self.ew < 1 << 62]
        # chunks of the weights: one per bound
        d = gen('udiv', 64, self.wl, self.A)
        out += [z.var(atomid(d)) == nb]
        for t, n, bytes_, cnt in ((self.dl, 'dst', self.ed, nb), (self.sl, 'src', self.es, W)):
            if t is not None:
                v = z.var(t.id)
                if self.rows == 1:
                    out += [v >= self.ch * cnt, v * bytes_ < 1 << 62]       # the row and what pads it
                else:
                    s = z.var((self.dst_stride if n == 'dst' else self.ss).id)
                    out += [v >= (self.rows - 1) * s + self.ch * cnt, v * bytes_ < 1 << 62]
        if self.rows > 1:
            out += [z.var(self.ss.id) >= self.ch * W, z.var(self.dst_stride.id) >= self.ch * nb,
                    z.var(self.ss.id) * self.es * self.rows < 1 << 62, z.var(self.dst_stride.id) * self.ed * self.rows < 1 << 62]
        for n in ('dst_width', '_1'):
            if n in self.args and self.args[n].w == 64 and self.c.get('dst_width', True):
                out.append(z.var(self.args[n].id) == nb)
        return out + self.pre2()

    def pre2(self):
        return []

    def hook(self, t, v):
        """facts about the window of output i, for every i that is looked at"""
        if t.op == 'ld' and t.a[0] is self.bp and t.x[1] == 8:
            off = dict(t.x[0])
            i16 = padd(off, K(-off.get((), 0)))
            if off.get((), 0) not in (0, 8):
                return
            i = divp(i16, 16)
            if i is None:
                return
            z = self.z
            st, sz = self.start(i), self.size(i)
            s, n, iv = z.var(atomid(st)), z.var(atomid(sz)), z.lin(i)
            inb = z3.And(iv >= 0, iv < z.var(self.bl.id))
            z.pend.append(z3.Implies(inb, z3.And(n >= 1, n <= z.var(self.A.id), s + n <= z.var(self.W.id))))
            # the row of weights of output i ends inside the weights
            z.factor(self.A.id, i, self.bl_p)

    def start(self, i):
        return load(self.bp, pscale(i, 16), 8)

    def size(self, i):
        return load(self.bp, padd(pscale(i, 16), K(8)), 8)

    def region(self, kind, base, off, n):
        z = self.z
        o = z.lin(off)
        if kind == 'store' or base is self.dst:
            if kind != 'store':
                raise Fail("the destination is read")
            if base is not self.dst:
                raise Fail(f"store to {show(base)}")
            r, e = self.row_of(off)
            o = z.lin(pscale(e, self.ed))
            return z3.And(o >= 0, o + n <= z.lin(pscale(self.out_len, self.ed)), 0 <= r < self.rows)
        if base is self.fw:
            return None
        if base is self.wp:
            q, _ = coef(off, self.A.id)
            i = divp(q, self.ew)
            if i is not None:
                z.factor(self.A.id, i, self.bl_p)
            return z3.And(o >= 0, o + n <= self.ew * z.var(self.wl.id))
        if base is self.bp:
            return z3.And(o >= 0, o + n <= 16 * z.var(self.bl.id))
        if base is self.src:
            if self.ss is not None:
                q, rest = coef(off, self.ss.id)
                r = divp(q, self.es)
                if r is None or set(r) - {()} or not 0 <= r.get((), 0) < self.rows:
                    raise Fail(f"row of load {pshow(off)}")
                o = z.lin(rest)
            return z3.And(o >= 0, o + n <= z.var(self.W.id) * (self.ch * self.es))
        if base.op == 'sym' and base.x.startswith('@'):
            raise Fail(f"load from {base.x}")
        raise Fail(f"{kind} through {show(base)}")

    def context(self, row, pos):
        # element position = ch * i + channel
        c = pos.get((), 0) % self.ch
        i = divp(padd(pos, K(-c)), self.ch)
        if i is None:
            raise Fail(f"output position {pshow(pos)}")
        self.rowc = (row, c)
        return (i,)

    def taps_total(self, ctx):
        return atom(self.size(ctx[0]))

    def wtap(self, off, i):
        """weights offset in bytes -> tap index"""
        d = psub(off, pscale(pmul(atom(self.A), i), self.ew))
        t = divp(d, self.ew)
        if t is None or any(self.A.id in m for m in t):
            raise Fail(f"weight {pshow(off)} is not of output {pshow(i)}")
        return t

    def xtap(self, off, i, t):
        row, c = self.rowc
        want = pscale(padd(pscale(padd(atom(self.start(i)), t), self.ch), K(c)), self.es)
        if self.ss is not None and row:
            want = padd(want, {(self.ss.id,): row * self.es})
        if not self.equal(off, want):
            raise self.wrong(off, want)(f"tap {pshow(t)} of output {pshow(i)} channel {c} row {row} takes {pshow(off)}, not {pshow(want)}")

    def tap(self, m, c, cx):
        ids = [BYID[x] for x in m]
        w, x = self.product(ids, c)
        t = self.wtap(dict(w.x[0]), cx[0])
        self.xtap(dict(x.x[0]), cx[0], t)
        return t

    def product(self, ids, c):
        """a monomial as weight times sample"""
        if len(ids) != 2 or c != 1:
            raise Fail(f"not a tap: {c}*{[show(t) for t in ids]}")
        w = x = None
        for t in ids:
            s, l = strip(t)
            if l.op != 'ld':
                raise Fail(f"not a tap: {[show(t, 8) for t in ids]}")
            if l.a[0] is self.wp and w is None:
                if l.x[1] != self.ew or any(k not in self.c.get('wext', ('sext',)) for k in s):
                    raise Fail(f"weight {show(t)}")
                w = l
            elif l.a[0] is self.src and x is None:
                if l.x[1] != self.es or any(k not in self.c.get('xext', ('zext',)) for k in s):
                    raise Fail(f"sample {show(t)}")
                x = l
        if w is None or x is None:
            raise Fail(f"not a tap: {[show(t, 8) for t in ids]}")
        return w, x

    # ------------------------------------------------ narrowing
    def final(self, b, t):
        return bv.narrow(self, t)

    def bias(self, c):
        want = self.c['bias']
        if c != want and not (isinstance(want, tuple) and c in want):
            raise Fail(f"rounding term {c}, not {want}")


def atomid(t):
    BYID[t.id] = t
    return t.id


class HReal(Horizontal):
    """f32 weights: the accumulator is real arithmetic"""
    real = True
    LIN = ('phi', 'fadd', 'fmul', 'fma', 'const', 'fconst', 'poison')

    def product(self, ids, c):
        if len(ids) != 2 or c != 1:
            raise Fail(f"not a tap: {c}*{[show(t) for t in ids]}")
        w = x = None
        for t in ids:
            s, l = strip(t)
            if l.op == 'ld' and l.a[0] is self.wp and w is None and not s and l.x[1] == self.ew:
                w = l
            elif l.op == 'ld' and l.a[0] is self.src and x is None and l.x[1] == self.es and s == self.c.get('xs', []):
                x = l
        if w is None or x is None:
            raise Fail(f"not a tap: {[show(t, 8) for t in ids]}")
        return w, x

    def final(self, b, t):
        return self.c['unwrap'](self, t)

    def bias(self, c):
        if c != 0:
            raise Fail(f"bias {c}")


def shape(t, ld):
    """the term with its load replaced by a hole"""
    if t is ld:
        return 'x'
    if t.op == 'const':
        return str(t.x)
    return f"{t.op}{t.w}:{t.x if t.x is not None else ''}({','.join(shape(a, ld) for a in t.a)})"


def loads_of(t):
    out, st, seen = {}, [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ld':
            out[x.id] = x
        else:
            st.extend(x.a)
    return list(out.values())


class Hrs:
    """taps rounded one by one: mulhrs(weight, widened sample) in 16 bits"""

    def product(self, ids, c):
        if len(ids) != 1 or c != 1 or ids[0].op != 'mulhrs':
            raise Fail(f"not a tap: {c}*{[show(t, 8) for t in ids]}")
        w = x = None
        for t in ids[0].a:
            l = loads_of(t)
            if len(l) != 1:
                raise Fail(f"not a tap: {show(ids[0], 8)}")
            l = l[0]
            if l is t and l.x[1] == 2 and l.a[0] is self.wp:
                w = l
            elif l.a[0] is self.src and l.x[1] == self.es:
                x = l
                if shape(t, l) != self.c['wide']:
                    raise Fail(f"sample widened as {shape(t, l)}, not {self.c['wide']}")
        if w is None or x is None:
            raise Fail(f"not a tap: {show(ids[0], 8)}")
        return w, x


class HHrs(Hrs, Horizontal):
    pass


class Vertical(Kernel):
    """one output row: element X is the sum over t of weight[t] * src[stride * (start + t) + X]"""

    def setup(self):
        self.bp = self.arg('bounds')
        self.src = self.arg('src.0', 'src')
        self.dst = self.arg('dst.0', 'dst', '0')
        self.wp = self.arg('weight.0', 'weights.0', 'weight_ptr.0')
        self.ss = self.arg('src_stride')
        if None in (self.bp, self.src, self.dst, self.wp, self.ss):
            raise Unsupported("arguments of a vertical kernel")
        self.dl = self.arg('dst.1', '1') or S('#D')
        self.sl = self.arg('src.1')
        self.wl = self.arg('weight.1', 'weights.1', 'weight_ptr.1')
        self.start = load(self.bp, {}, 8)
        self.size = load(self.bp, K(8), 8)
        self.A = S('#A')
        self.H = S('#H')
        for t in (self.start, self.size):
            BYID[t.id] = t
        self.rows = 1
        self.dst_stride = None
        self.out_len = atom(self.dl)

    def extra(self):
        return [self.out_len, atom(self.size)]

    def pre(self):
        z = self.z
        s, n, A, H, D, st = [z.var(t.id) for t in (self.start, self.size, self.A, self.H, self.dl, self.ss)]
        out = [n >= 1, n <= A, s + n <= H, A * self.ew < 1 << 62, D >= 0, D * self.ed < 1 << 62, D * self.es < 1 << 62,
               st >= D, st * self.es < 1 << 62]
        last = z.lin(pmul(atom(self.ss), psub(atom(self.H), K(1))))     # stride * (H - 1)
        out.append((last + D) * self.es < 1 << 62)
        if self.sl is not None:
            out.append(z.var(self.sl.id) >= last + D)
            out.append(z.var(self.sl.id) * self.es < 1 << 62)
        if self.wl is not None:
            out.append(z.var(self.wl.id) == A)
        for m in ('width', 'dst_width', '_1'):
            if m in self.args and self.args[m].w == 64 and self.c.get('dst_width', True):
                out.append(z.var(self.args[m].id) * self.c['cn'] == D if 'cn' in self.c else z.var(self.args[m].id) <= D)
        for p in self.vc.compares():
            q, _ = coef(p, self.ss.id)
            if q and all(c > 0 for c in q.values()):
                z.factor(self.ss.id, q, atom(self.H))
        return out

    def region(self, kind, base, off, n):
        z = self.z
        o = z.lin(off)
        if kind == 'store' or base is self.dst:
            if kind != 'store':
                raise Fail("the destination is read")
            if base is not self.dst:
                raise Fail(f"store to {show(base)}")
            return z3.And(o >= 0, o + n <= self.ed * z.var(self.dl.id))
        if base is self.wp:
            return z3.And(o >= 0, o + n <= self.ew * z.var(self.A.id))
        if base is self.bp:
            return z3.BoolVal(set(off) <= {()} and 0 <= off.get((), 0) <= 16 - n)
        if base is self.src:
            q, rest = coef(off, self.ss.id)
            r = divp(q, self.es)
            if r is None:
                raise Fail(f"row of load {pshow(off)}")
            z.factor(self.ss.id, r, atom(self.H))
            e = z.lin(rest)
            return z3.And(z.lin(r) >= 0, z.lin(r) < z.var(self.H.id), e >= 0, e + n <= self.es * z.var(self.dl.id))
        raise Fail(f"{kind} through {show(base)}")

    def context(self, row, pos):
        return (pos,)

    def taps_total(self, ctx):
        return atom(self.size)

    def tap(self, m, c, cx):
        w, x = self.product([BYID[i] for i in m], c)
        t = divp(dict(w.x[0]), self.ew)
        if t is None:
            raise Fail(f"weight {pshow(dict(w.x[0]))}")
        want = pscale(padd(pmul(atom(self.ss), padd(atom(self.start), t)), cx[0]), self.es)
        if not self.equal(dict(x.x[0]), want):
            raise self.wrong(dict(x.x[0]), want)(f"tap {pshow(t)} of column {pshow(cx[0])} takes {pshow(dict(x.x[0]))}, not {pshow(want)}")
        return t

    product = Horizontal.product
    final = Horizontal.final
    bias = Horizontal.bias


class VReal(Vertical):
    real = True
    LIN = HReal.LIN
    product = HReal.product
    final = HReal.final
    bias = HReal.bias


class VHrs(Hrs, Vertical):
    pass


class Packed:
    """pixels of three 10-bit fields in a 32-bit word, alpha opaque: bytes are grouped into the words they make up"""
    FIELDS = {0: (0, 10, 20), 1: (22, 12, 2)}

    def word(self, bs):
        return cat(bs if self.c['order'] == 0 else bs[::-1])

    def values(self):
        groups = {}
        for b, row, e, els, mask in self.stores():
            for j, t in enumerate(els):
                p = padd(e, K(j))
                o = p.get((), 0) % 4
                g = groups.setdefault((b, row, pkey(padd(p, K(-o)))), (padd(p, K(-o)), {}, set()))
                g[1][o] = t
                g[2].add(mask[0][j] if mask else None)
        n = 0
        for (b, row, _), (p, bs, ms) in groups.items():
            if sorted(bs) != [0, 1, 2, 3] or len(ms) != 1:
                raise Fail(f"pixel {pshow(p)} is not stored as a whole")
            T = self.word([bs[i] for i in range(4)])
            self.assume = {m.id: C(1, 1) for m in ms if m is not None}
            if self.assume:
                T = sym.subst(T, self.assume, {})
            for self.field in range(3):
                n += self.paths(b, None, T, self.context(row, p), 0)
        return n

    def final(self, b, t):
        """the accumulator of the field, after deciding the whole word"""
        c = self.c
        ls = sorted(leaf_order(t), key=lambda x: x[0])
        ls = [x for _, x in ls]
        if len(ls) > 4:
            raise Fail(f"the word is made of {len(ls)} accumulators")
        V = [z3.BitVec(f'L{i}', 32) for i in range(len(ls))]
        n = bv.tobv(t, {x.id: v for x, v in zip(ls, V)})
        if n.size() != 32:
            raise Fail("width of the word")
        pre = [z3.And(v < (1 << 30), v > -(1 << 30)) for v in V]
        a = 30 if c['type'] == 0 else 0
        bv.holds(z3.Extract(a + 1, a, n) == 3, pre, "alpha is not opaque")
        lo = self.FIELDS[c['type']][self.field]
        f = z3.Extract(lo + 9, lo, n)
        for x, v in zip(ls, V):
            try:
                bv.holds(f == bv.clamp_shift(15, 10, 10)(self, v), pre, "")
                return x
            except Fail:
                pass
        raise Fail(f"field {self.field} is not a narrowed accumulator")

    def tap(self, m, c, cx):
        ids = [BYID[i] for i in m]
        w = x = None
        for t in ids:
            s, l = strip(t)
            if l.op == 'ld' and l.a[0] is self.wp and w is None and l.x[1] == self.ew and all(k == 'sext' for k in s):
                w = l
            else:
                x = t
        if w is None or x is None or len(ids) != 2 or c != 1:
            raise Fail(f"not a tap: {c}*{[show(t, 8) for t in ids]}")
        t, want = self.place(dict(w.x[0]), cx)
        D = z3.BitVec('D', 32)
        env = {}
        off = None
        for l in loads_of(x):
            if l.a[0] is not self.src or l.x[1] > 4:
                raise Fail(f"sample {show(x, 8)}")
            d = psub(dict(l.x[0]), want)
            if set(d) - {()}:
                d = next((K(j) for j in range(5 - l.x[1]) if self.equal(dict(l.x[0]), padd(want, K(j)))), None)
                if d is None:
                    raise Fail(f"tap {pshow(t)} takes {pshow(dict(l.x[0]))}, not {pshow(want)}")
            d = d.get((), 0)
            if not 0 <= d <= 4 - l.x[1]:
                raise Refuted(f"tap {pshow(t)} takes byte {d} of the pixel")
            env[l.id] = z3.Extract(8 * (d + l.x[1]) - 1, 8 * d, D)
        v = bv.tobv(x, env)
        W = D
        if self.c['order']:
            W = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, D) for i in range(4)])
        lo = self.FIELDS[self.c['type']][self.field]
        want = z3.ZeroExt(v.size() - 10, z3.Extract(lo + 9, lo, W))
        bv.holds(v == want, [], f"the sample of field {self.field} is not that field of the pixel: {show(x, 9)}")
        return t


def clamps(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('smin', 'smax', 'umin', 'umax', 'satu', 'sats', 'ashr', 'select'):
            return True
        if x.op not in ('phi', 'ld'):
            st.extend(x.a)
    return False


def leaf_order(t):
    out, st, seen, k = [], [t], set(), 0
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.w == 32 and x.op in ('phi', 'add', 'mul') and not clamps(x):
            out.append((k, x))
            k += 1
            continue
        if x.op in ('const', 'poison'):
            continue
        if not x.a:
            raise Fail(f"the output depends on {show(x)}")
        st.extend(reversed(x.a))
    return out


class HPacked(Packed, Horizontal):
    def place(self, off, cx):
        t = self.wtap(off, cx[0])
        row, _ = self.rowc
        want = pscale(padd(atom(self.start(cx[0])), t), 4)
        if self.ss is not None and row:
            want = padd(want, {(self.ss.id,): row})
        return t, want


class VPacked(Packed, Vertical):
    def place(self, off, cx):
        t = divp(off, self.ew)
        if t is None:
            raise Fail(f"weight {pshow(off)}")
        return t, padd(pmul(atom(self.ss), padd(atom(self.start), t)), cx[0])

    def pre(self):
        self.px = S('#P')
        return super().pre() + [self.z.var(self.dl.id) == 4 * self.z.var(self.px.id)]
