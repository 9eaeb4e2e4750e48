"""Verification conditions over an evaluated function: integer facts and Houdini invariants (z3, linear
integers with product lemmas), chains of taps and of stores, final narrowing."""
import z3
import sym, os
DBG = os.environ.get("DBG")
from sym import *

W64 = 1 << 64


class Fail(Exception):
    """an obligation the prover did not discharge"""


class Refuted(Fail):
    """an obligation that fails on every way to the block it is about"""


class Z:
    """terms and polynomials as z3 integers; one solver per function, definitions asserted once"""

    tight = False       # more lemmas about products
    alone = False       # every question goes to a new solver first

    def __init__(self, rlimit=6000000):
        self.s = z3.SolverFor('QF_LIA')
        self.rlimit = rlimit
        self.s.set('rlimit', rlimit)
        self.s.set('timeout', 60000)
        self._names, self.defs, self.index = {}, [], {}
        self.vars, self.monos, self.vals, self.conds = {}, {}, {}, {}
        self.mods = {}
        self.pend = []
        self.hooks = []
        self.queries = 0
        self.by = {}      # factor id -> list of monomials
        self.fresh = 0

    # -------------------------------------------------- atoms
    def var(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        t = BYID[i]
        v = self.vars[i] = z3.Int(f"a{i}")
        self.pend.append(v >= 0)
        if t.op != 'iter':
            self.pend.append(v < (1 << t.w))
        self.define(t, v)
        for h in self.hooks:
            h(t, v)
        return v

    def define(self, t, v):
        P = self.pend.append
        op, a = t.op, t.a
        if op in ('umin', 'umax'):
            x, y = self.valT(a[0]), self.valT(a[1])
            P(v == z3.If((x <= y) if op == 'umin' else (x >= y), x, y))
        elif op == 'usub_sat':
            x, y = self.valT(a[0]), self.valT(a[1])
            P(v == z3.If(x >= y, x - y, 0))
        elif op in ('udiv', 'urem'):
            x = self.valT(a[0])
            q = gen('udiv', t.w, *a)
            r = gen('urem', t.w, *a)
            atom(q), atom(r)
            other = self.var(r.id if op == 'udiv' else q.id) if (r.id if op == 'udiv' else q.id) not in self.vars else self.vars[r.id if op == 'udiv' else q.id]
            qv, rv = (v, other) if op == 'udiv' else (other, v)
            if isc(a[1]) and a[1].x:
                c = a[1].x
                P(z3.And(x == c * qv + rv, rv < c))
            else:
                yp = poly(a[1])
                y = self.valT(a[1])
                prod = self.lin(pmul(atom(q), yp))
                P(z3.Implies(y >= 1, z3.And(x == prod + rv, rv < y)))
        elif op == 'lshr' and isc(a[1]):
            x, c = self.valT(a[0]), 1 << a[1].x
            P(z3.And(c * v <= x, x < c * v + c))
        elif op == 'and' and (isc(a[0]) or isc(a[1])):
            m, y = (a[0], a[1]) if isc(a[0]) else (a[1], a[0])
            x = self.valT(y)
            P(v <= x)
            k = m.x
            lo = (k & -k).bit_length() - 1
            n = (k >> lo).bit_length()
            if k and k >> lo == (1 << n) - 1:       # one run of bits
                P(v == self.mod2(y, x, lo + n, t.w) - self.mod2(y, x, lo, t.w))
        elif op == 'zext':
            P(v == self.valT(a[0]))
        elif op == 'sext':
            x = self.valT(a[0])
            h = 1 << (a[0].w - 1)
            P(v == z3.If(x < h, x, x + (1 << t.w) - 2 * h))
        elif op == 'ext':
            x = self.valT(a[0])
            q, r = self.new(), self.new()
            P(z3.And(x == (q << 0) * 0 + r + (1 << t.x) * v + (1 << (t.x + t.w)) * q, r < (1 << t.x)) if t.x else x == v + (1 << t.w) * q)
        elif op == 'select':
            P(v == z3.If(self.cond(a[0]), self.valT(a[1]), self.valT(a[2])))
        elif op == 'icmp':
            P(v == z3.If(self.cond(t), 1, 0))

    def mod2(self, y, x, b, w):
        """y mod 2^b"""
        if b == 0:
            return z3.IntVal(0)
        if b >= w:
            return x
        ms = self.mods.setdefault(y.id, {w: x, 0: z3.IntVal(0)})
        if b not in ms:
            v = ms[b] = self.new()
            self.pend.append(v < (1 << b))
            up = min(c for c in ms if c > b)
            dn = max(c for c in ms if c < b)
            q, r = self.new(), self.new()
            self.pend.append(ms[up] == v + (1 << b) * q)
            self.pend.append(v == ms[dn] + (1 << dn) * r)
        return ms[b]

    def new(self):
        self.fresh += 1
        v = z3.Int(f"f{self.fresh}")
        self.pend.append(v >= 0)
        return v

    def mono(self, m):
        if len(m) == 1:
            return self.var(m[0])
        v = self.monos.get(m)
        if v is not None:
            return v
        v = self.monos[m] = z3.Int("m" + "_".join(map(str, m)))
        P = self.pend.append
        P(v >= 0)
        xs = [self.var(i) for i in m]
        if len(m) == 2:
            x, y = xs
            P(z3.And(z3.Implies(x == 0, v == 0), z3.Implies(y == 0, v == 0), z3.Implies(x >= 1, v >= y), z3.Implies(y >= 1, v >= x),
                     z3.Implies(x == 1, v == y), z3.Implies(y == 1, v == x)))
            for i, f in ((0, m[0]), (1, m[1])):
                o = m[1 - i]
                for n in self.by.get(f, []):
                    if n == m:
                        continue
                    l = list(n)
                    l.remove(f)
                    p, q = self.var(o), self.var(l[0])
                    u, y2 = self.monos[n], self.var(f)
                    P(z3.And(z3.Implies(p <= q, v <= u), z3.Implies(q <= p, u <= v),
                             z3.Implies(p + 1 <= q, v + y2 <= u), z3.Implies(q + 1 <= p, u + y2 <= v)))
                    if self.tight:
                        P(z3.And(z3.Implies(q <= p + 1, u <= v + y2), z3.Implies(p <= q + 1, v <= u + y2)))
                self.by.setdefault(f, []).append(m)
        return v

    def factor(self, f, q, bound):
        """lemma: q <= bound-1 (polynomials) => f*q <= f*(bound-1), f an atom id"""
        fq = pmul({(f,): 1}, q)
        fb = pmul({(f,): 1}, bound)
        y = self.var(f)
        self.pend.append(z3.Implies(self.lin(q) + 1 <= self.lin(bound), self.lin(fq) + y <= self.lin(fb)))

    def lin(self, p):
        if not p:
            return z3.IntVal(0)
        return z3.Sum([(self.mono(m) if c == 1 else c * self.mono(m)) if m else z3.IntVal(c) for m, c in p.items()])

    def val(self, p, w):
        """the w-bit value of a polynomial mod 2^w"""
        if not p:
            return z3.IntVal(0)
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return z3.IntVal(c & ((1 << w) - 1))
            if c == 1 and len(m) == 1 and BYID[m[0]].op != 'iter':
                return self.var(m[0])
        k = (pkey(p), w)
        v = self.vals.get(k)
        if v is None:
            v = z3.Int(f"v{len(self.vals)}")
            q = z3.Int(f"q{len(self.vals)}")
            self.vals[k] = v
            self.pend.append(z3.And(v >= 0, v < (1 << w), self.lin(p) == v + (1 << w) * q))
        return v

    def valT(self, t):
        return self.val(poly(t), t.w)

    def cond(self, t):
        k = t.id
        c = self.conds.get(k)
        if c is None:
            c = self.conds[k] = self.cond0(t)
        return c

    def cond0(self, t):
        if t.op == 'const':
            return z3.BoolVal(bool(t.x))
        if t.op == 'icmp' and t.a[0].w <= 64:
            w = t.a[0].w
            if w == 1 and isc(t.a[1]):
                c = self.cond(t.a[0])
                if t.x in ('eq', 'ne'):
                    return c if (t.x == 'eq') == bool(t.a[1].x) else z3.Not(c)
            x, y = self.valT(t.a[0]), self.valT(t.a[1])
            p = t.x
            if p[0] == 's':
                h = 1 << (w - 1)
                x, y = z3.If(x < h, x, x - 2 * h), z3.If(y < h, y, y - 2 * h)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                    'lt': lambda: x < y, 'le': lambda: x <= y}[p if p in ('eq', 'ne') else p[1:]]()
        if t.op in ('and', 'or', 'xor') and t.w == 1:
            x, y = self.cond(t.a[0]), self.cond(t.a[1])
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[t.op](x, y)
        if t.op == 'select' and t.w == 1:
            return z3.If(self.cond(t.a[0]), self.cond(t.a[1]), self.cond(t.a[2]))
        return z3.Bool(f"b{t.id}")

    # -------------------------------------------------- queries
    def names(self, e):
        """names of the constants in an expression"""
        k = e.get_id()
        r = self._names.get(k)
        if r is not None:
            return r[1]
        if z3.is_const(e):
            s = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            s = frozenset().union(*[self.names(c) for c in e.children()])
        self._names[k] = (e, s)
        return s

    def flush(self):
        while self.pend:
            p, self.pend = self.pend, []
            for c in p:
                self.s.add(c)
                n = self.names(c)
                self.defs.append((c, n))
                for x in n:
                    self.index.setdefault(x, []).append(len(self.defs) - 1)

    def check(self, facts, neg):
        self.flush()
        self.queries += 1
        if self.alone:
            r = self.fresh_check(facts, neg)
            if r != z3.unknown:
                return r, self.fresh_model
        self.s.push()
        for f in facts:
            self.s.add(f)
        self.s.add(neg)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return r, m

    HUB = 40

    def near(self, facts, neg, rounds):
        """the same question with only the facts and definitions close to the goal; unsat is final"""
        self.flush()
        have = set(self.names(neg))
        fs = [(f, self.names(f)) for f in facts]
        used = set()
        for _ in range(rounds):
            grow = set(have)
            for i, (f, n) in enumerate(fs):
                if i not in used and (not n or n & have):
                    used.add(i)
                    grow |= n
            have = grow
        ds = set()
        for x in have:
            ds.update(i for i in self.index.get(x, ()) if self.defs[i][1] <= have or len(self.defs[i][1]) <= 3)
        s = z3.SolverFor('QF_LIA')
        s.set('rlimit', self.rlimit // 3)
        s.set('timeout', 60000)
        for i in sorted(ds):
            s.add(self.defs[i][0])
        for i in used:
            s.add(fs[i][0])
        s.add(neg)
        self.queries += 1
        return s.check()

    def proves(self, facts, goal):
        neg = z3.Not(goal)
        self.model = None
        for r in (1, 2):
            if self.near(facts, neg, r) == z3.unsat:
                return True
        r = self.fresh_check(facts, neg)
        if r == z3.unknown:
            r, self.model = self.check(facts, neg)
        return r == z3.unsat

    def fresh_check(self, facts, neg):
        """the whole question, to a solver that has seen nothing else"""
        self.flush()
        s = z3.SolverFor('QF_LIA')
        s.set('rlimit', self.rlimit)
        s.set('timeout', 10000)
        for d, _ in self.defs:
            s.add(d)
        for f in facts:
            s.add(f)
        s.add(neg)
        self.queries += 1
        r = s.check()
        self.fresh_model = s.model() if r == z3.sat else None
        return r


def conj(l):
    return z3.And(l) if l else z3.BoolVal(True)


class VC:
    def __init__(self, fn, base_facts=(), extra_es=(), rlimit=6000000, fits=()):
        self.f = fn
        self.fits = list(fits)
        self.z = Z(rlimit)
        self.base = list(base_facts)
        self.extra_es = list(extra_es)
        self.inv = {q: [] for q in fn.cut}
        self.maps = {}
        self._facts = {}
        self.lane = {}
        for b in fn.rpo:
            for i in fn.phis[b]:
                v = fn.env[i.res]
                for k, t in enumerate(v if isinstance(v, list) else [v]):
                    self.lane[t.id] = (b, i, k)

    # -------------------------------------------------- transitions
    def defblock(self, t):
        return t.x[0] if t.op == 'phi' else t.x

    def avail(self, p, q, strict=False):
        for i in patoms(p):
            t = BYID[i]
            if t.op in ('phi', 'iter'):
                d = self.defblock(t)
                if not self.f.dom(d, q) or (strict and d == q):
                    return False
        return True

    def subst(self, p, q):
        if q == 'RET' or isinstance(q, tuple):
            return {}, {}
        # phis take their incoming values, the header's count starts or steps
        k = (p, q)
        if k in self.maps:
            return self.maps[k]
        f = self.f
        m = {}
        for i in f.phis[q]:
            inc = {bl: v for v, bl in i.a}[p]
            v = f.const(inc, i.ty)
            for x, y in zip(lanes(f.env[i.res]), lanes(v)):
                m[x.id] = y
        if f.latches[q]:
            kt = mk('iter', 64, (), q)
            BYID[kt.id] = kt
            m[kt.id] = add(kt, C(64, 1)) if p in f.latches[q] else C(64, 0)
        self.maps[k] = (m, {})
        return self.maps[k]

    def moved(self, poly_, p, q, f=None):
        m, memo = self.subst(p, q)
        return psubst(poly_, m, memo if f is None else {}, f)

    def nowrap(self, ps, p, q):
        """the incoming values of the phis in these polynomials, taken as integers, are their machine values"""
        m, _ = self.subst(p, q)
        out = []
        for i in set().union(*[patoms(x) for x in ps]) if ps else ():
            t = BYID[i]
            if t.op == 'phi' and t.id in m and t.id not in sym.IV:
                v = poly(m[t.id])
                if len(v) == 1 and list(v.values()) == [1]:
                    continue
                e = self.z.lin(v)
                out.append(z3.And(e >= 0, e < (1 << t.w)))
        return out

    def facts(self, b):
        if b in self._facts:
            return self._facts[b]
        f, out = self.f, []
        for d in f.doms(b):
            if d in f.cut:
                out += [c[2] for c in self.inv[d]]
            elif d != f.entry:
                e = f.edge.get((f.pred[d][0], d))
                if e is not None:
                    out.append(self.z.cond(e))
        self._facts[b] = out + self.base
        return self._facts[b]

    def efacts(self, p, q):
        e = self.f.edge.get((p, q))
        return self.facts(p) + ([self.z.cond(e)] if e is not None else [])

    # -------------------------------------------------- invariants
    def compares(self):
        out, seen = {}, set()

        def walk(t):
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op == 'icmp' and t.a[0].w == 64:
                for a in t.a:
                    p = poly(a)
                    out[pkey(p)] = p
                # pointers into one object: the counts behind them
                d = psub(poly(t.a[0]), poly(t.a[1]))
                mv = [m for m in d if len(m) == 1 and BYID[m[0]].op == 'iter']
                if len(mv) == 1 and any(m and m[0] in self.f.ptrs for m in poly(t.a[0])):
                    c = d.pop(mv[0])
                    if all(v % c == 0 for v in d.values()):
                        p = {m: -v // c for m, v in d.items() if m}
                        out[pkey(p)] = p
            if t.w == 1:
                for a in t.a:
                    walk(a)
        for e in self.f.edge.values():
            walk(e)
        return list(out.values())

    def candidates(self):
        f, z = self.f, self.z
        es = self.compares() + self.extra_es
        # the parts of compared values that do not move
        more = {}
        for e in es:
            fixed = {m: c for m, c in e.items() if m and not any(BYID[i].op in ('phi', 'iter') for j in m for i in atoms_of(BYID[j]))}
            if fixed and fixed != e:
                more[pkey(fixed)] = fixed
        es += [e for e in more.values()]
        uniq = {}
        for e in es:
            uniq[pkey(e)] = e
        es = list(uniq.values())
        cands = {}
        for q in f.cut:
            if q == f.entry:
                cands[q] = []
                continue
            cs = {}
            ps, full = [], []
            for i in f.phis[q]:
                if i.ty not in (('i', 64), ('ptr',)):
                    continue
                t = f.env[i.res]
                if t.id in IV and t.w == 64:
                    full.append(IV[t.id])
                    if i.ty == ('i', 64):
                        ps.append((IV[t.id], True))
                elif i.ty == ('i', 64):
                    ps.append(({(t.id,): 1}, False))
            if f.latches[q]:
                kt = mk('iter', 64, (), q)
                BYID[kt.id] = kt
                if not any(p == atom(kt) for p, _ in ps):
                    ps.append((atom(kt), True))
            av = [e for e in es if self.avail(e, q, strict=True)]

            def put(kind, a, b):
                d = psub(a, b)
                if not d:
                    return
                k = (kind, pkey(d))
                if k not in cs:
                    cs[k] = d
            for p, iv in ps:
                put('ge', p, {})
                put('gt', p, {})
                for e in av:
                    if set(e) <= {()}:
                        continue
                    put('le', p, e)
                    put('lt', p, e)
                    if not iv:
                        put('ge', p, e)
            for e in self.fits:
                if self.avail(e, q):
                    put('le', e, {})
            # equalities: a phi against what the latch gives it one iteration ago
            if f.latches[q]:
                kt = mk('iter', 64, (), q)
                for p, iv in ps:
                    if iv:
                        continue
                    (m,), = p.keys()
                    _, i, _ = self.lane[m]
                    for l in f.latches[q]:
                        v = poly(f.const({bl: v for v, bl in i.a}[l], i.ty))
                        if self.avail(v, q) and m not in patoms(v):
                            mm = {kt.id: sub(kt, C(64, 1))}
                            put('eq', p, psubst(v, mm, {}))
            # differences of phis
            for x in range(len(ps)):
                for y in range(x):
                    for p in f.pred[q]:
                        d = psub(self.moved(ps[x][0], p, q), self.moved(ps[y][0], p, q))
                        if len(d) <= 3 and self.avail(d, q, strict=True):
                            put('eq', psub(ps[x][0], ps[y][0]), d)
                        if not ps[x][1] or not ps[y][1]:
                            d = padd(self.moved(ps[x][0], p, q), self.moved(ps[y][0], p, q))
                            if len(d) <= 3 and self.avail(d, q, strict=True):
                                put('eq', padd(ps[x][0], ps[y][0]), d)
            # a phi that advances by at most a fixed step, and by all of it but the last time
            for p, iv in ps:
                if iv:
                    continue
                for l in f.latches[q]:
                    d = psub(self.moved(p, l, q), p)
                    if len(d) != 1:
                        continue
                    ((m, c),) = d.items()
                    t = BYID[m[0]] if len(m) == 1 else None
                    if t is None or t.op != 'umin' or not isc(t.a[1]) and not isc(t.a[0]):
                        continue
                    n = (t.a[1] if isc(t.a[1]) else t.a[0]).x
                    for e in f.pred[q]:
                        if e not in f.latches[q]:
                            put('eq', p, padd(self.moved(p, e, q), pscale(atom(mk('iter', 64, (), q)), c * n)))
            # one phi pays for the other: x moves by -c times what y moves by
            for x, (px, ivx) in enumerate(ps):
                for y, (py, ivy) in enumerate(ps):
                    if x == y or ivx or ivy:
                        continue
                    for l in f.latches[q]:
                        dx, dy = psub(self.moved(px, l, q), px), psub(self.moved(py, l, q), py)
                        if len(dx) != 1 or set(dx) != set(dy):
                            continue
                        (cx,), (cy,) = dx.values(), dy.values()
                        if cx % cy or abs(cx // cy) == 1:
                            continue
                        e = psub(px, pscale(py, cx // cy))
                        for p in f.pred[q]:
                            d = self.moved(e, p, q)
                            if len(d) <= 3 and self.avail(d, q, strict=True):
                                put('eq', e, d)
            # a phi that is one of a few values keeps the ones it has on all edges
            for p, iv in ps:
                if iv:
                    continue
                vals = [self.moved(p, pr, q) for pr in f.pred[q]]
                for v in vals:
                    if self.avail(v, q, strict=True):
                        put('eq', p, v)
            cands[q] = [(k, d) for (k, _), d in cs.items()]
        return cands

    def form(self, kind, d):
        e = self.z.lin(d)
        return {'eq': e == 0, 'le': e <= 0, 'lt': e < 0, 'ge': e >= 0, 'gt': e > 0}[kind]

    def houdini(self):
        f, z = self.f, self.z
        cands = self.candidates()
        self.inv = {q: [(k, d, self.form(k, d)) for k, d in cs] for q, cs in cands.items()}
        z.flush()
        work = True
        rounds = 0
        while work:
            work = False
            rounds += 1
            if rounds > 60:
                raise Fail("invariants do not settle")
            for q in f.rpo:
                if q not in f.cut or q == f.entry:
                    continue
                for p in f.pred[q]:
                    while self.inv[q]:
                        self._facts = {}
                        tgt = []
                        for c in self.inv[q]:
                            g = [self.form(c[0], self.moved(c[1], p, q))] + self.nowrap([c[1]], p, q)
                            tgt.append(conj(g))
                        fs = self.efacts(p, q)
                        r, m = z.check(fs, z3.Not(conj(tgt)))
                        if r == z3.unsat:
                            break
                        if r == z3.unknown:
                            # decide one by one
                            keep = [c for c, g in zip(self.inv[q], tgt) if z.proves(fs, g)]
                        else:
                            keep = [c for c, g in zip(self.inv[q], tgt) if z3.is_true(m.eval(g, model_completion=True))]
                            if len(keep) == len(self.inv[q]):
                                keep = [c for c, g in zip(self.inv[q], tgt) if z.proves(fs, g)]
                        if len(keep) == len(self.inv[q]):
                            break
                        if DBG: [print('DROP',q,p,c[0],pshow(c[1])[:200]) for c in self.inv[q] if c not in keep]
                        self.inv[q] = keep
                        work = True
        self._facts = {}
        return self

    # -------------------------------------------------- chains
    def same(self, a, b, facts):
        if a == b:
            return True
        return self.z.proves(facts, self.z.lin(a) == self.z.lin(b))

    def run_of(self, ts):
        """polynomials that differ by constants and tile a range -> (lowest, count)"""
        base = ts[0]
        ks = []
        for t in ts:
            d = psub(t, base)
            if set(d) - {()}:
                return None
            ks.append(d.get((), 0))
        ks.sort()
        if any(y - x != 1 for x, y in zip(ks, ks[1:])):
            return None
        return padd(base, {(): ks[0]}), len(ks)

    def chain(self, nodes, root, rootT, label):
        """nodes: key -> list of edges (p, q, target key or None, run or None); find and prove the counts.
        key[0] is the cut block.  run = (lowest poly, count)"""
        T = {root: [rootT]}
        par = {k: [] for k in nodes}
        for k, es in nodes.items():
            for e in es:
                if e[2] is not None:
                    par[e[2]].append((k, e))
        cand = {}
        for k in nodes:
            c = []
            if k == root:
                c.append(rootT)
            for _, (p, q, t, run) in par[k]:
                if run and self.avail(run[0], k[0]) and run[0] not in c:
                    c.append(run[0])
            cand[k] = c
        # pull back through edges without taps
        for _ in range(len(nodes) + 1):
            ch = False
            for k in nodes:
                if cand[k]:
                    continue
                for pk, (p, q, t, run) in par[k]:
                    if run is None and cand[pk]:
                        for c in cand[pk]:
                            v = self.moved(c, p, q)
                            if self.avail(v, k[0]) and v not in cand[k]:
                                cand[k].append(v)
                                ch = True
            if not ch:
                break
        for k in nodes:
            if not cand[k]:
                raise Fail(f"{label}: no count for {k[0]}")
        # pulled-back alternatives as fallbacks
        ch, rounds = True, 0
        while ch and rounds < 20:
            ch, rounds = False, rounds + 1
            for k in nodes:
                for pk, (p, q, t, run) in par[k]:
                    if run is None:
                        for c in list(cand[pk]):
                            v = self.moved(c, p, q)
                            if len(cand[k]) < 8 and v not in cand[k] and self.avail(v, k[0]):
                                cand[k].append(v)
                                ch = True
        memo = {}
        worst = [None]

        def ok(k, a, e, lo):
            p, q, t, run = e
            key = (k, pkey(a), p, t, pkey(lo))
            if key not in memo:
                v = self.moved(a, p, q)
                fs = self.efacts(p, q[2] if isinstance(q, tuple) else q) if q != 'RET' else self.facts(p)
                if run:
                    r = self.same(lo, run[0], fs) and self.same(v, padd(run[0], run[1] if isinstance(run[1], dict) else {(): run[1]}), fs)
                else:
                    r = self.same(v, lo, fs)
                if r:
                    g = self.nowrap([a], p, q)
                    r = not g or self.z.proves(fs, conj(g))
                if not r:
                    worst[0] = (k, t, p, v, lo, run)
                    if DBG: print('CH', k, t, p, pshow(v), '|', pshow(lo), run)
                memo[key] = r
            return memo[key]

        asg = {}

        def assign(k, a, trail):
            asg[k] = a
            trail.append(k)
            for e in nodes[k]:
                t = e[2]
                if t is None:
                    if not ok(k, a, e, {}):
                        return False
                elif t in asg:
                    if not ok(k, a, e, asg[t]):
                        return False
                else:
                    for lo in cand[t]:
                        if not ok(k, a, e, lo):
                            continue
                        sub = []
                        if assign(t, lo, sub):
                            trail += sub
                            break
                        for x in sub:
                            del asg[x]
                    else:
                        return False
            return True

        if assign(root, rootT, []):
            for k in nodes:
                if k not in asg:
                    raise Fail(f"{label}: {k[0]} is not reached")
            self.last = dict(asg)
            return sum(len(es) for es in nodes.values())
        bad = worst[0]
        raise Fail(f"{label}: on {bad[2]} -> {bad[0][0]}: {pshow(bad[3])} from {pshow(bad[4])} with {bad[5] and (pshow(bad[5][0]), bad[5][1] if isinstance(bad[5][1], int) else pshow(bad[5][1]))}")


def lanes(v):
    return v if isinstance(v, list) else [v]
