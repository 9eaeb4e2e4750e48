"""Contracts of the constant-alpha test: it answers no when every alpha of the image is the first one's, and yes when one differs.

Two runs over the same function.  In the first every alpha that is read is the first pixel's: every way back must answer false.
In the second the alpha of one pixel (R, Q), any of them, differs: every way back must answer true.  Loops are cut at their
headers: pointers and counters are their first value and a whole number of steps, and about the rest the strongest of a fixed
list of invariants that holds on entry and is kept by the body is used - an accumulator that stays zero (first run), or that is
not zero once row R has been read as far as pixel Q (second run), how large it may be, how many rows there are.  What is read
must be pixels of a row that is there."""
import math
import re
import z3
import ir, glue
from sym import Unsupported
from vc import Fail
from spec import Ob
from resize import padd, pmul, K, A

TOP = 1 << 64
SIMD = re.compile(r'check_alpha\d*\w*has_non_constant_cap_alpha_rgba(8|16)_impl')


class Stop(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class St:
    def __init__(self):
        self.env, self.facts, self.open = {}, [], ()

    def copy(self):
        s = St()
        s.env, s.facts, s.open = dict(self.env), list(self.facts), self.open
        return s


def bits(ty):
    return ty[1] if ty[0] in 'if' else ty[1] * bits(ty[2]) if ty[0] == 'vec' else 0


class Check:
    LIMIT = 3000
    ghosts = ()

    def __init__(self, text, e, differs, store=None):
        """e: bytes of a sample; differs: False, True, or None (nothing known of the samples, and of the answer); store: None (slice, width and stride are arguments) or whether the stride field is 0"""
        text = glue.lower(text)
        _, self.args, blocks = ir.parse_function(text)
        self.blocks = {b: [ir.instr(x) for x in ls if not x.startswith(('filter', 'cleanup', 'catch'))] for b, ls in blocks.items()}
        self.first = next(iter(blocks))
        self.e, self.differs, self.store = e, differs, store
        self.defs = {i.res: i for b in self.blocks.values() for i in b if i.res}
        self.vars, self.rows, self.names = {}, set(), 0
        self.W, self.H = A('W'), A('H')
        self.S = A('S') if not store else {('W',): 4}
        self.HS, self.strides, self.known = pmul(self.H, self.S), [self.S], set()
        w, h, s = self.lin(self.W), self.lin(self.H), self.lin(self.S)
        self.base = [w >= 1, h >= 1, s >= 4 * w, self.e * self.lin(self.HS) <= 1 << 62, w <= 1 << 60, h <= 1 << 60]
        self.step_lemmas({})
        self.A0 = z3.BitVec('A0', 8 * e)
        self.R, self.Q = z3.Int('R'), z3.Int('Q')
        if differs:
            self.base += [self.R >= 0, self.R < h, self.Q >= 0, self.Q < w]
        self.back, self.inv, self.queries = self.edges(), {}, 0

    # ---------------------------------------------------------- graph
    def succ(self, b):
        i = self.blocks[b][-1]
        return i.x if i.op == 'br' else [i.x[0]] + [d for _, d in i.x[1]] if i.op == 'switch' else []

    def edges(self):
        back, on, seen = set(), [], set()

        def go(b):
            seen.add(b)
            on.append(b)
            for s in self.succ(b):
                if s in on:
                    back.add((b, s))
                elif s not in seen:
                    go(s)
            on.pop()
        go(self.first)
        return back

    # ---------------------------------------------------------- numbers
    def lin(self, p):
        r = z3.IntVal(p.get((), 0))
        for m, c in p.items():
            if m:
                if m not in self.vars:
                    self.vars[m] = z3.Int('*'.join(m))
                r = r + c * self.vars[m]
        return r

    def step_lemmas(self, k, S=None):
        """k rows down: what is left is at least a row or nothing"""
        S = self.S if S is None else S
        key = tuple(sorted(k.items())), tuple(sorted(S.items()))
        if key in self.known:
            return
        self.known.add(key)
        hs, s = self.lin(pmul(self.H, S)), self.lin(S)
        kk, ks = self.lin(k), self.lin(pmul(k, S))
        self.base += [ks >= 0]
        for j in range(3):
            left = hs - ks - j * s
            self.base += [z3.Implies(kk + j <= self.lin(self.H) - 1, left >= s), z3.Implies(kk + j == self.lin(self.H), left == 0)]

    def sat(self, st, more):
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.base, *st.facts, *more)
        r = s.check()
        if r == z3.unknown:
            self.unknown = True
        return r != z3.unsat

    def holds(self, st, c):
        if isinstance(c, bool):
            return c
        return not self.sat(st, [z3.Not(c)])

    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if not self.sat(st, [z3.Not(c)]):
            return True
        if not self.sat(st, [c]):
            return False
        raise Fork([c, z3.Not(c)])

    def fresh(self, what, w=None):
        self.names += 1
        return A(f"{what}#{self.names}") if w is None else z3.BitVec(f"{what}#{self.names}", w)

    def fit(self, st, p):
        if set(p) <= {()}:
            return K(p.get((), 0) % TOP)
        v = self.lin(p)
        if not self.holds(st, z3.And(v >= 0, v < TOP)):
            raise Unsupported("a count that may wrap")
        return p

    # ---------------------------------------------------------- values
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            if v[1] not in st.env:
                raise Unsupported(f"%{v[1]}")
            return st.env[v[1]]
        if k == 'int':
            if ty == ('i', 1):
                return bool(v[2] & 1)
            return K(v[2]) if ty == ('i', 64) else z3.BitVecVal(v[2], ty[1])
        if k == 'global':
            return ('@' + v[1], {})
        if k == 'zero':
            return K(0) if ty == ('i', 64) else z3.BitVecVal(0, bits(ty))
        if k in ('poison', 'undef'):
            return self.fresh('poison', bits(ty)) if ty[0] in ('i', 'vec') else None
        if k == 'vec':
            return self.bv(z3.Concat(*[self.bv(self.val(st, x, ty[2])) for x in reversed(v[1])])) if len(v[1]) > 1 else self.bv(self.val(st, v[1][0], ty[2]))
        raise Unsupported(f"value {v}")

    def bv(self, x, w=64):
        if isinstance(x, dict):
            if set(x) <= {()}:
                return z3.BitVecVal(x.get((), 0), w)
            raise Unsupported("a count as data")
        if isinstance(x, bool):
            return z3.BitVecVal(int(x), 1)
        if z3.is_bool(x):
            return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if not z3.is_bv(x):
            raise Unsupported("data")
        return x

    def lanes(self, x, n):
        w = x.size() // n
        return [z3.Extract(w * k + w - 1, w * k, x) for k in range(n)]

    def join(self, ls):
        return z3.Concat(*reversed(ls)) if len(ls) > 1 else ls[0]

    # ---------------------------------------------------------- pixels
    def pixels(self, st, addr, n, mask=None):
        """n bytes read at addr, of them those in mask"""
        b, p = addr
        if b != 'image':
            raise Unsupported(f"load from {b}")
        e, lead = self.e, next(iter(self.S))
        inrow, row = {}, {}
        for m, c in p.items():
            if lead[0] in m and (len(m) == 2 or lead == ('S',)):
                d = e * self.S[lead]
                if c % d:
                    raise Unsupported("part of a row")
                m = list(m)
                m.remove(lead[0])
                row[tuple(m)] = c // d
            else:
                inrow[m] = c
        c0 = inrow.get((), 0)
        if any(c % (4 * e) for m, c in inrow.items() if m):
            raise Unsupported("part of a pixel")
        on = [k for k in range(n) if mask is None or mask[k]]
        if on:
            r, k = self.lin(inrow), self.lin(row)
            if not self.holds(st, z3.And(r + on[0] >= 0, r + on[-1] + 1 <= 4 * e * self.lin(self.W), k >= 0, k <= self.lin(self.H) - 1)):
                self.bad.append("memory")
        if p == K(3 * e) and n == e:
            return self.A0
        v = self.fresh('pixels', 8 * n)
        for j in range(n):
            if (c0 + j) % (4 * e) == 3 * e and j + e <= n and all(mask is None or mask[j + t] for t in range(e)):
                a = z3.Extract(8 * (j + e) - 1, 8 * j, v)
                if self.differs is False:
                    st.facts.append(a == self.A0)
                elif self.differs:
                    st.facts.append(z3.Implies(z3.And(k == self.R, r + j - 3 * e == 4 * e * self.Q), a != self.A0))
        return v

    # ---------------------------------------------------------- one way after the other
    def run(self):
        while True:
            self.drop, self.bad, self.ends, self.unknown = set(), [], 0, False
            self.names = 0
            self.ways()
            if not self.drop:
                return
            for h, c in self.drop:
                self.inv[h].discard(c)

    def start(self, st):
        if self.store is None:
            if [t for t, _ in self.args] != [('ptr',)] + [('i', 64)] * 3:
                raise Unsupported("arguments")
            a, b, c, d = [n for _, n in self.args]
            st.env.update({a: ('image', {}), b: self.HS, c: self.W, d: self.S})
        else:
            st.env[self.args[0][1]] = ('store', {})

    def ways(self):
        st = St()
        self.start(st)
        work, n = [(st, self.first, None, 0)], 0
        while work:
            st, b, came, k = work.pop()
            n += 1
            if n > self.LIMIT:
                raise Unsupported("too many ways")
            try:
                while True:
                    if k == 0 and came is not False:
                        if not self.arrive(st, b, came):
                            break
                        k = sum(i.op == 'phi' for i in self.blocks[b])
                        came = False
                    i = self.blocks[b][k]
                    keep = dict(st.env), list(st.facts)
                    try:
                        nxt = self.step(st, i)
                    except Fork as f:
                        st.env, st.facts = keep
                        for c in f.conds:
                            q = st.copy()
                            q.facts.append(c)
                            work.append((q, b, False, k))
                        break
                    if nxt == 'ret':
                        break
                    if nxt is not None:
                        came, b, k = b, nxt, 0
                    else:
                        k += 1
            except Stop:
                continue

    def arrive(self, st, b, came):
        """True: go on in b"""
        phis = [i for i in self.blocks[b] if i.op == 'phi']
        vals = {}
        for i in phis:
            for v, p in i.a:
                if p == came:
                    vals[i.res] = self.val(st, v, i.ty)
        if not any(h == b for _, h in self.back):
            st.env.update(vals)
            return True
        if (came, b) in self.back:
            if b not in st.open:
                raise Unsupported("loop entered in the middle")
            self.keep(st, b, vals)
            return False
        if not self.sat(st, []):
            return False
        # enter: cut
        ints, data, var = {}, {}, None
        latch = next(p for p, h in self.back if h == b)
        k = self.fresh('k')
        st.facts.append(self.lin(k) >= 0)
        for i in phis:
            d = next(v for v, p in i.a if p == latch)
            d = self.defs.get(d[1]) if d[0] == 'reg' else None
            step = None
            if d is not None and i.ty == ('i', 64) and d.op in ('add', 'sub') and ('reg', i.res) in d.a:
                x = d.a[1] if d.a[0] == ('reg', i.res) else d.a[0]
                sg = -1 if d.op == 'sub' else 1
            elif d is not None and i.ty == ('ptr',) and d.op == 'getelementptr' and d.a[0] == ('reg', i.res) and len(d.x[1]) == 1:
                x, sg = d.x[1][0][1], bits(d.x[0]) // 8 if d.x[0][0] != 'arr' else d.x[0][1] * bits(d.x[0][2]) // 8
            else:
                if i.ty == ('ptr',) or i.ty == ('i', 64) and isinstance(vals[i.res], dict) and vals[i.res]:
                    raise Unsupported("a counter that is not")
                data[i.res] = self.bv(vals[i.res]) if i.ty != ('i', 1) else None
                if data[i.res] is None:
                    raise Unsupported("a flag in a loop")
                continue
            if x[0] == 'int':
                step = K(x[2] - TOP if x[2] >= TOP // 2 else x[2])
            elif x[1] in st.env:
                step = st.env[x[1]]
            elif var in (None, x[1]):
                var = x[1]
            else:
                raise Unsupported("two steps")
            init = vals[i.res]
            by = pmul(step, k) if step is not None else pmul(k, K(4))
            by = pmul(by, K(sg))
            now = (init[0], padd(init[1], by)) if isinstance(init, tuple) else padd(init, by)
            ints[i.res] = (init, step, sg, i.ty)
            st.env[i.res] = now
        if var and any(s is not None for _, s, _, _ in ints.values()):
            raise Unsupported("two kinds of steps")
        if any(s == self.S for _, s, _, _ in ints.values()):
            self.step_lemmas(k)
        for g in self.ghosts:
            data[g] = st.env[g]
        init_data = dict(data)
        for r, v in data.items():
            st.env[r] = self.fresh(r, v.size())
        st.open = tuple(h for h in st.open if h != b) + (b,)
        st.env['#' + b] = (k, ints, {r: st.env[r] for r in data}, var, vals)
        cs = self.candidates(st, b)
        if b not in self.inv:
            self.inv[b] = set(cs)
        start = {r: x[0] for r, x in ints.items()}
        for n in sorted(self.inv[b]):
            if not self.holds(st, cs[n](K(0), start, init_data)):
                self.drop.add((b, n))
        nowi = {r: st.env[r] for r in ints}
        nowd = {r: st.env[r] for r in data}
        for n in sorted(self.inv[b]):
            st.facts.append(cs[n](k, nowi, nowd))
        return True

    def keep(self, st, b, vals):
        k, ints, data, var, _ = st.env['#' + b]
        if not self.sat(st, []):
            return
        if var:
            r, (init, _, sg, _) = next(iter(ints.items()))
            d = padd(vals[r][1], init[1], -1) if isinstance(init, tuple) else padd(vals[r], init, -1)
            d = pmul(d, K(sg))
            n = z3.Int(f"next {b}")
            st.facts.append(z3.Implies(self.lin(d) % 4 == 0, 4 * n == self.lin(d)))
            if not self.holds(st, z3.And(self.lin(d) % 4 == 0, self.lin(d) >= 0)):
                raise Unsupported("a step that is not whole pixels")
            k1 = {(f"next {b}",): 1}
            self.vars[(f"next {b}",)] = n
            by = d
        else:
            k1, by = padd(k, K(1)), None
        for r, (init, step, sg, ty) in ints.items():
            w = pmul(by if step is None else pmul(step, k1), K(sg))
            x, y = (vals[r], padd(init, w)) if not isinstance(init, tuple) else (vals[r][1], padd(init[1], w))
            if isinstance(init, tuple) and vals[r][0] != init[0]:
                raise Unsupported("pointer")
            if x != y and not self.holds(st, self.lin(x) == self.lin(y)):
                raise Unsupported("a counter that is not regular")
        cs = self.candidates(st, b)
        new = {r: self.bv(st.env[r] if r in self.ghosts else vals[r]) for r in data}
        for n in sorted(self.inv[b]):
            if not self.holds(st, cs[n](k1, {r: vals[r] for r in ints}, new)):
                self.drop.add((b, n))

    def candidates(self, st, b):
        k, ints, data, var, init = st.env['#' + b]
        c, h = {}, self.lin(self.H)
        for r, (i0, s, _, ty) in ints.items():
            if ty == ('i', 64):
                c['least', r, 1] = lambda k, i, d, r=r: self.lin(i[r]) >= 1
                c['least', r, 0] = lambda k, i, d, r=r: self.lin(i[r]) >= 0
        c['rows', 1] = lambda k, i, d: self.lin(k) <= h - 1
        c['rows', 0] = lambda k, i, d: self.lin(k) <= h
        if self.differs is None:
            return c
        if not self.differs:
            for r in data:
                c['zero', r] = lambda k, i, d, r=r: d[r] == 0
            return c
        c['before',] = lambda k, i, d: self.lin(k) <= self.R
        for r, x in data.items():
            for m in (8, 16):
                if x.size() % 32 == 0 and x.size() > 32:
                    full = sum(((1 << 32) - (1 << m)) << t for t in range(0, x.size(), 32))
                    c['lanes', r, m] = lambda k, i, d, r=r, full=full: d[r] & z3.BitVecVal(full, d[r].size()) == 0
            if x.size() == 32:
                c['sum', r] = lambda k, i, d, r=r: z3.And(self.lin(k) <= 15, *[
                    z3.Implies(self.lin(k) == j, z3.ULE(d[r], (1 << 20) + (j << 16))) for j in range(16)])
        ptrs = [r for r, (i0, _, _, ty) in ints.items() if ty == ('ptr',)]
        for p in ptrs:
            i0 = ints[p][0]
            for rs in [[r] for r in data] + ([list(data)] if len(data) > 1 else []):
                for whole in (True, False):
                    c['seen', p, tuple(rs), whole] = lambda k, i, d, p=p, rs=rs, whole=whole, i0=i0: z3.Implies(
                        z3.And(*self.read(i[p], i0, whole)), z3.Or(*[d[r] != 0 for r in rs]))
        return c

    def read(self, now, first, whole):
        """pixel (R, Q) lies before now in its row, and not before first (unless whole)"""
        row, col = self.split(now[1])
        r0, c0 = self.split(first[1])
        e4 = 4 * self.e
        return [row == self.R, e4 * self.Q < col] + ([] if whole else [e4 * self.Q >= c0])

    def split(self, p):
        lead = next(iter(self.S))
        inrow, row = {}, {}
        for m, c in p.items():
            if lead[0] in m and (len(m) == 2 or lead == ('S',)):
                m = list(m)
                m.remove(lead[0])
                if c % (self.e * self.S[lead]):
                    raise Unsupported("part of a row")
                row[tuple(m)] = c // (self.e * self.S[lead])
            else:
                inrow[m] = c
        return self.lin(row), self.lin(inrow)

    # ---------------------------------------------------------- instructions
    def step(self, st, i):
        e, op = st.env, i.op
        if op == 'br':
            if not i.a:
                return i.x[0]
            return i.x[0 if self.decide(st, self.cond(self.val(st, i.a[0], ('i', 1)))) else 1]
        if op == 'ret':
            self.ends += self.sat(st, [])
            v = self.cond(self.val(st, i.a[0], ('i', 1)))
            if self.differs is None:
                pass
            elif isinstance(v, bool):
                if v != self.differs and self.sat(st, []):
                    self.bad.append("answer")
            elif not self.holds(st, v if self.differs else z3.Not(v)):
                self.bad.append("answer")
            return 'ret'
        if op == 'unreachable':
            if self.sat(st, []):
                self.bad.append("no panic")
            raise Stop
        if op == 'call':
            return self.call(st, i)
        if op == 'getelementptr':
            b, p = self.val(st, i.a[0], ('ptr',))
            if len(i.x[1]) != 1:
                raise Unsupported("address")
            et = i.x[0]
            u = et[1] * bits(et[2]) // 8 if et[0] == 'arr' else bits(et) // 8
            d = i.x[1][0][1]
            d = K(d[2] - TOP if d[2] >= TOP // 2 else d[2]) if d[0] == 'int' else self.val(st, d, ('i', 64))
            if not isinstance(d, dict):
                raise Unsupported("address from data")
            e[i.res] = (b, padd(p, pmul(d, K(u))))
        elif op == 'load':
            e[i.res] = self.load(st, self.val(st, i.a[0], ('ptr',)), i.ty)
        elif op in ('bitcast', 'freeze'):
            x = self.val(st, i.a[0], i.x[0] if op == 'bitcast' else i.ty)
            e[i.res] = self.bv(x) if op == 'bitcast' else x
        elif op in ('zext', 'trunc', 'sext'):
            x = self.bv(self.val(st, i.a[0], i.x[0]))
            n = i.x[0][1] if i.x[0][0] == 'vec' else 1
            w = bits(i.ty) // n
            f = {'zext': lambda y: z3.ZeroExt(w - y.size(), y), 'sext': lambda y: z3.SignExt(w - y.size(), y), 'trunc': lambda y: z3.Extract(w - 1, 0, y)}[op]
            e[i.res] = self.join([f(y) for y in self.lanes(x, n)])
        elif op == 'icmp':
            e[i.res] = self.compare(st, i)
        elif op == 'select':
            x, y = [self.val(st, v, i.ty) for v in i.a[1:]]
            c = self.val(st, i.a[0], ('i', 1))
            if i.ty[0] == 'vec' and i.x[0] == 'vec':
                raise Unsupported("select of lanes")
            c = self.cond(c)
            if isinstance(c, bool):
                e[i.res] = x if c else y
            elif z3.is_bv(x) and z3.is_bv(y):
                e[i.res] = z3.If(c, x, y)
            else:
                e[i.res] = x if self.decide(st, c) else y
        elif op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'urem', 'udiv'):
            x, y = [self.val(st, v, i.ty) for v in i.a]
            e[i.res] = self.arith(st, op, x, y, i.ty)
        elif op == 'extractvalue' and isinstance(self.val(st, i.a[0], None), list):
            e[i.res] = self.val(st, i.a[0], None)[i.x[1][0]]
        elif op == 'store':
            self.store_to(st, self.val(st, i.a[1], ('ptr',)), self.val(st, i.a[0], i.ty), i.ty)
        elif op == 'insertelement':
            n = i.ty[1]
            x, y = self.val(st, i.a[0], i.ty), self.bv(self.val(st, i.a[1], i.ty[2]))
            ls = self.lanes(x, n)
            ls[i.a[2][2]] = y
            e[i.res] = self.join(ls)
        elif op == 'extractelement':
            n = i.x[1]
            e[i.res] = self.lanes(self.val(st, i.a[0], i.x), n)[i.a[1][2]]
        elif op == 'shufflevector':
            ty, mt, m = i.x
            ls = self.lanes(self.bv(self.val(st, i.a[0], ty)), ty[1]) + self.lanes(self.bv(self.val(st, i.a[1], ty)), ty[1])
            ix = [('int', 32, 0)] * mt[1] if m[0] == 'zero' else m[1]
            e[i.res] = self.join([ls[v[2]] if v[0] == 'int' else self.fresh('poison', ls[0].size()) for v in ix])
        else:
            raise Unsupported(op)
        return None

    def store_to(self, st, p, x, ty):
        raise Unsupported("store")

    def cond(self, v):
        if z3.is_bv(v):
            return v == 1
        return v

    def arith(self, st, op, x, y, ty):
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise Unsupported("pointer")
        if isinstance(x, str) or isinstance(y, str):
            return 'cpu'
        if ty == ('i', 1):
            x, y = self.cond(x), self.cond(y)
            x, y = [z3.BoolVal(t) if isinstance(t, bool) else t for t in (x, y)]
            return z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
        if isinstance(x, dict) and isinstance(y, dict):
            cx, cy = x.get((), 0) if set(x) <= {()} else None, y.get((), 0) if set(y) <= {()} else None
            if cx is not None and cy is not None:
                v = {'and': cx & cy, 'or': cx | cy, 'xor': cx ^ cy, 'add': cx + cy, 'sub': cx - cy, 'mul': cx * cy,
                     'shl': cx << min(cy, 64), 'lshr': cx >> cy, 'urem': cx % cy if cy else 0, 'udiv': cx // cy if cy else 0}[op]
                return K(v % TOP)
            if op in ('add', 'sub'):
                if cy is not None and cy >= TOP // 2:
                    y = K(cy - TOP)
                return self.fit(st, padd(x, y, -1 if op == 'sub' else 1))
            if op == 'mul' and (cx is not None or cy is not None):
                return self.fit(st, pmul(x, y))
            if op == 'shl' and cy is not None:
                return self.fit(st, pmul(x, K(1 << cy)))
            if op == 'lshr' and cy is not None:
                op, y, cy = 'udiv', K(1 << cy), 1 << cy
            if op in ('urem', 'udiv') and y in self.strides and x == pmul(self.H, y):
                return K(0) if op == 'urem' else self.H
            if op == 'mul' and (x in self.strides or y in self.strides):
                self.step_lemmas(x if y in self.strides else y, y if y in self.strides else x)
                return self.fit(st, pmul(x, y))
            if op in ('urem', 'udiv') and cy:
                q, r = self.part(st, x, cy)
                return q if op == 'udiv' else r
            if op == 'and' and cy is not None:
                lo = (cy & -cy).bit_length() - 1
                m = cy >> lo
                if m & (m + 1) == 0 or cy >> lo == (TOP >> lo) - 1:
                    q, r = self.part(st, x, 1 << lo)
                    if m == (TOP >> lo) - 1:
                        return pmul(q, K(1 << lo))
                    q, r = self.part(st, q, m + 1)
                    return pmul(r, K(1 << lo))
            raise Unsupported(f"{op} of counts")
        n = ty[1] if ty[0] == 'vec' else 1
        x, y = self.bv(x), self.bv(y)
        if op in ('and', 'or', 'xor'):
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR}.get(op)
        if not f:
            raise Unsupported(op)
        return self.join([f(a, b) for a, b in zip(self.lanes(x, n), self.lanes(y, n))])

    def part(self, st, x, c):
        """x = c q + r"""
        if c == 1:
            return x, K(0)
        if x.get((), 0) % c == 0 and all(k % c == 0 for k in x.values()):
            return {m: k // c for m, k in x.items()}, K(0)
        key = ('#part', tuple(sorted(x.items())), c)
        if key not in st.env:
            q = self.fresh('q')
            # what x is a multiple of, so is the rest
            g = math.gcd(c, *x.values())
            t = self.fresh('r')
            r = pmul(t, K(g))
            st.facts += [self.lin(q) >= 0, self.lin(r) >= 0, self.lin(r) < c, self.lin(x) == c * self.lin(q) + self.lin(r)]
            st.env[key] = (q, r)
        return st.env[key]

    def compare(self, st, i):
        x, y = [self.val(st, v, i.ty) for v in i.a]
        pr = i.x
        if isinstance(x, str) or isinstance(y, str):
            return z3.Bool(f"cpu#{i.res}")
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x[0] != y[0]:
                raise Unsupported("pointers")
            a, b = self.lin(x[1]), self.lin(y[1])
        elif isinstance(x, dict) and isinstance(y, dict):
            a, b = self.lin(x), self.lin(y)
            if pr[0] == 's':
                a, b = [z3.If(t >= TOP // 2, t - TOP, t) for t in (a, b)]
        elif i.ty[0] == 'vec':
            raise Unsupported("comparison of lanes")
        else:
            a, b = self.bv(x), self.bv(y)
            u = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pr)
            if u:
                return u(a, b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]()

    def load(self, st, p, ty):
        b, f = p
        if b.startswith('@'):
            if ty[0] == 'i' and ty[1] >= 64:
                return 'cpu'
            raise Unsupported("load of a global")
        if b == 'store':
            k = f.get((), 0) if set(f) <= {()} else None
            got = {8: ('image', {}), 16: self.HS, 32: self.W, 40: self.H, 48: K(0) if self.store else self.S}.get(k)
            if got is None or (ty == ('ptr',)) != isinstance(got, tuple) or isinstance(got, dict) and ty != ('i', 64):
                raise Unsupported("field of the store")
            return got
        if b.startswith('store'):
            raise Unsupported("load")
        if ty[0] not in ('i', 'vec', 'f'):
            raise Unsupported("load of a pointer")
        return self.pixels(st, p, bits(ty) // 8)

    def call(self, st, i):
        f, args = i.x
        e = st.env
        if f.startswith(('llvm.assume', 'llvm.metadata', 'llvm.experimental', 'llvm.lifetime', 'llvm.dbg')):
            return None
        if 'detect_and_initialize' in f:
            e[i.res] = 'cpu'
            return None
        v = None
        if f.startswith('llvm.umin.i64'):
            x, y = [self.val(st, a, t) for t, a in args]
            if isinstance(x, dict) and isinstance(y, dict):
                c = y.get((), 0) if set(y) <= {()} else None
                v = self.lin(x)
                if c is None or not 0 < c <= 64:
                    e[i.res] = x if self.decide(st, v <= self.lin(y)) else y
                    return None
                if self.decide(st, v >= c):
                    e[i.res] = K(c)
                    return None
                # fewer than c: each number of whole pixels on its own
                u = 4
                for n in range(u, c, u):
                    if self.holds(st, v == n):
                        e[i.res] = K(n)
                        return None
                live = [v == n for n in range(u, c, u) if self.sat(st, [v == n])]
                if not self.holds(st, z3.Or(*live)):
                    raise Unsupported("minimum")
                raise Fork(live)
        m = re.match(r'llvm\.vector\.reduce\.(add|or|xor|umax)\.v(\d+)i(\d+)$', f)
        if m:
            ls = self.lanes(self.bv(self.val(st, args[0][1], args[0][0])), int(m[2]))
            r = ls[0]
            for x in ls[1:]:
                r = {'add': lambda: r + x, 'or': lambda: r | x, 'xor': lambda: r ^ x, 'umax': lambda: z3.If(z3.UGT(x, r), x, r)}[m[1]]()
            e[i.res] = r
            return None
        if f.startswith('llvm.masked.load'):
            ty = i.ty
            p, mk, dv = None, None, None
            for t, a in args:
                if t == ('ptr',):
                    p = self.val(st, a, t)
                elif t[0] == 'vec' and t[2] == ('i', 1):
                    mk = z3.simplify(self.bv(self.val(st, a, t)))
                elif t == ty:
                    dv = self.bv(self.val(st, a, t))
            if mk is None or not z3.is_bv_value(mk):
                raise Unsupported("mask")
            w = bits(ty[2]) // 8
            on = [bool(mk.as_long() >> k & 1) for k in range(ty[1]) for _ in range(w)]
            x = self.pixels(st, p, bits(ty) // 8, on)
            e[i.res] = self.join([a if o else b for a, b, o in zip(self.lanes(x, len(on)), self.lanes(dv, len(on)), on)])
            return None
        m = re.match(r'llvm\.u(mul|add|sub)\.with\.overflow\.i64$', f)
        if m:
            x, y = [self.val(st, a, t) for t, a in args]
            if not (isinstance(x, dict) and isinstance(y, dict)):
                raise Unsupported("overflow of data")
            e[i.res] = [self.arith(st, m[1], x, y, ('i', 64)), False]
            return None
        if SIMD.search(f) and len(args) == 4:
            p, n, w, s = [self.val(st, a, t) for t, a in args]
            if (p, n, w, s) != (('image', {}), self.HS, self.W, self.S) or SIMD.search(f)[1] != {1: '8', 2: '16'}.get(self.e):
                self.bad.append("calls")
            e[i.res] = self.differs if self.differs is not None else z3.Bool(f"answer#{i.res}")
            return None
        if 'panic' in f or 'slice_index_fail' in f:
            if self.sat(st, []):
                self.bad.append("no panic")
            raise Stop
        raise Unsupported(f"call of {f[:60]}")


class Opacity:
    """the constant-alpha test as a function under contract"""
    WHOLE = True

    def __init__(self, name, text, globs, cfg):
        self.text, self.c = text, cfg

    def check(self, differs):
        bad, n, ends = [], 0, True
        for z in (False, True) if self.c['store'] else (None,):
            c = Check(self.text, self.c['es'], differs, z)
            c.run()
            bad, n, ends = bad + c.bad, n + c.queries, ends and c.ends
        return bad, n, ends

    def prove(self, only=None):
        ob, got = Ob(), {}

        def shown(differs, which, what):
            def f():
                if differs not in got:
                    got[differs] = self.check(differs)
                bad, n, _ = got[differs]
                if which in bad:
                    raise Fail(what)
                return n
            return f

        def alive():
            shown(None, 'alive', '')()
            if not all(e for _, _, e in got.values()):
                raise Fail("no way comes back")
        for k, differs, what in (("memory", None, "reads what is not a pixel of a row"), ("no panic", None, "a panic can be reached"),
                                 ("calls", None, "another image is checked"), ("one alpha everywhere is constant", False, "may answer that alpha varies"),
                                 ("an alpha that differs is found", True, "may answer that alpha is constant")):
            if only is None or k in only:
                ob.add(k, shown(differs, k if differs is None else "answer", what))
        if only is None or "not vacuous" in only:
            ob.add("not vacuous", alive)
        return ob


if __name__ == '__main__':
    import os
    import sys
    import time
    import registry
    fns, g = ir.load_module(os.environ.get('LL', '/tmp/ir/fix2.ll'))
    for n, t in fns.items():
        s = ir.short(n)
        f = registry.find(s)
        if f and f[2] in ('C12', 'copy') and re.search(sys.argv[1], s):
            t0 = time.time()
            ob = f[0](n, t, g, f[1]).prove(sys.argv[2:] or None)
            print(registry.shown(s), [k[:12] for k, _ in ob.ok], 'BAD', ob.bad, f"{time.time() - t0:.1f}s")
