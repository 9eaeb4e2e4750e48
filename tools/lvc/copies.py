"""Contract of copied_to_mut, for two images of the same size: every sample of every row is copied to its place, nothing else is
read or written.

Executed as the constant-alpha test is (opacity.py), with one sample (R, C), any of them, that must have been written when the
function returns; every store must put there what was read at the same row and column of the source."""
import re
import z3
from sym import Unsupported
from vc import Fail
from spec import Ob
from resize import padd, pmul, K, A
import opacity
from opacity import bits


class Copy(opacity.Check):
    ghosts = ('#done',)

    def __init__(self, text, e, n, zero):
        """n: samples of a pixel; zero: whether the stride fields (source, destination) are 0"""
        super().__init__(text, e, None, None)
        self.n, self.zero = n, zero
        self.strides = [{('W',): n} if z else A(f"S{i}") for i, z in enumerate(zero)]
        self.known, self.vars = set(), {}
        w, h = self.lin(self.W), self.lin(self.H)
        self.base = [w >= 1, h >= 1, w <= 1 << 56, h <= 1 << 56]
        for s in self.strides:
            self.base += [self.lin(s) >= n * w, e * self.lin(pmul(self.H, s)) <= 1 << 62]
            self.step_lemmas({}, s)
        self.R, self.C = z3.Int('R'), z3.Int('C')
        self.base += [self.R >= 0, self.R < h, self.C >= 0, self.C < n * w]

    def start(self, st):
        if [t for t, _ in self.args] != [('ptr',)] * 2:
            raise Unsupported("arguments")
        st.env.update({self.args[0][1]: ('self', {}), self.args[1][1]: ('into', {}), '#done': z3.BitVecVal(0, 1)})

    def place(self, p, s):
        """-> (row, column) of a sample, as polynomials"""
        (lead, c0), = s.items()
        row, col = {}, {}
        for m, c in p.items():
            if lead[0] in m and (len(m) == 2 or lead[0] != 'W'):
                if c % (self.e * c0):
                    raise Unsupported("part of a row")
                m = list(m)
                m.remove(lead[0])
                row[tuple(m)] = c // (self.e * c0)
            else:
                if c % self.e:
                    raise Unsupported("part of a sample")
                col[m] = c // self.e
        return row, col

    def inside(self, st, row, col, n):
        r, c = self.lin(row), self.lin(col)
        if not self.holds(st, z3.And(r >= 0, r < self.lin(self.H), c >= 0, c + n <= self.n * self.lin(self.W))):
            self.bad.append("memory")

    def load(self, st, p, ty):
        b, f = p
        if b in ('self', 'into'):
            k, s = f.get((), 0) if set(f) <= {()} else None, b == 'into'
            got = {8: ('dst' if s else 'src', {}), 16: pmul(self.H, self.strides[s]), 32: self.W, 40: self.H,
                   48: K(0) if self.zero[s] else self.strides[s]}.get(k)
            if got is None or (ty == ('ptr',)) != isinstance(got, tuple) or isinstance(got, dict) and ty != ('i', 64):
                raise Unsupported("field of an image")
            return got
        if b != 'src' or bits(ty) != 8 * self.e:
            raise Unsupported("load")
        row, col = self.place(f, self.strides[0])
        self.inside(st, row, col, 1)
        return ('sample', row, col)

    def store_to(self, st, p, x, ty):
        if p[0] != 'dst' or not isinstance(x, tuple) or x[0] != 'sample' or bits(ty) != 8 * self.e:
            raise Unsupported("store")
        row, col = self.place(p[1], self.strides[1])
        self.put(st, row, col, x[1], x[2], z3.IntVal(1))

    def put(self, st, row, col, r, c, n):
        self.inside(st, row, col, n)
        if (row, col) != (r, c) and not self.holds(st, z3.And(self.lin(row) == self.lin(r), self.lin(col) == self.lin(c))):
            self.bad.append("copied from its place")
        c = self.lin(col)
        here = z3.And(self.lin(row) == self.R, c <= self.C, self.C < c + n)
        st.env['#done'] = z3.If(here, z3.BitVecVal(1, 1), st.env['#done'])

    def call(self, st, i):
        f, args = i.x
        if f.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = [self.val(st, a, t) for t, a in args[:3]]
            if d[0] != 'dst' or s[0] != 'src' or not isinstance(n, dict) or any(c % self.e for c in n.values()):
                raise Unsupported("copy")
            n = self.lin({m: c // self.e for m, c in n.items()})
            row, col = self.place(d[1], self.strides[1])
            r, c = self.place(s[1], self.strides[0])
            self.inside(st, r, c, n)
            self.put(st, row, col, r, c, n)
            return None
        return super().call(st, i)

    def step(self, st, i):
        if i.op == 'ret':
            self.ends += self.sat(st, [])
            if not self.holds(st, st.env['#done'] == 1):
                self.bad.append("every sample copied")
            return 'ret'
        return super().step(st, i)

    def candidates(self, st, b):
        c = super().candidates(st, b)
        cols = self.n * self.lin(self.W)
        c['columns', 1] = lambda k, i, d: self.lin(k) <= cols - 1
        c['columns', 0] = lambda k, i, d: self.lin(k) <= cols
        c['rows done',] = lambda k, i, d: z3.Implies(self.lin(k) > self.R, d['#done'] == 1)
        for h in st.open:
            if h != b:
                o = self.lin(st.env['#' + h][0])
                c['above', h] = lambda k, i, d, o=o: z3.Implies(o > self.R, d['#done'] == 1)
                c['columns done', h] = lambda k, i, d, o=o: z3.Implies(z3.And(o == self.R, self.lin(k) > self.C), d['#done'] == 1)
        return c


class Copied:
    WHOLE = True

    def __init__(self, name, text, globs, cfg):
        self.text, self.c, self.got = text, cfg, None

    def prove(self, only=None):
        ob = Ob()

        def run():
            if self.got is None:
                bad, n, ends = [], 0, True
                for z in ((a, b) for a in (False, True) for b in (False, True)):
                    c = Copy(self.text, self.c['es'], self.c['ch'], z)
                    c.run()
                    bad, n, ends = bad + c.bad, n + c.queries, ends and c.ends
                self.got = bad, n, ends
            return self.got

        def shown(k, what):
            def f():
                bad, n, _ = run()
                if k in bad:
                    raise Fail(what)
                return n
            return f

        def alive():
            if not run()[2]:
                raise Fail("no way comes back")
        for k, what in (("memory", "reads or writes outside the rows"), ("no panic", "a panic can be reached"),
                        ("copied from its place", "a sample is copied from elsewhere"), ("every sample copied", "a sample may be left out")):
            if only is None or k in only:
                ob.add(k, shown(k, what))
        if only is None or "not vacuous" in only:
            ob.add("not vacuous", alive)
        return ob
