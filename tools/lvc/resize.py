"""Contracts of the scalers: the functions between the public calls and the passes.

They have no loops of their own: every way through one is executed symbolically, with integers as polynomials over what the
images hold (a product that may not fit is followed both ways), and z3 decides the comparisons.  On every way that returns:
an error only for what is documented as one, and before anything is written; otherwise the same size is a copy, Nearest is
resize_nearest, and else a pass over each axis that differs, vertical first, with the weights generate_weights makes for that
axis, from the source (or what the vertical pass wrote) to the destination, each pass called as its contract asks."""
import re
import z3
import ir, glue
from sym import Unsupported
from vc import Fail
from spec import Ob

TOP = 1 << 64
BIG = 1 << 56


def padd(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + k * l
            if not r[t]:
                del r[t]
    return r


def K(c):
    return {(): c} if c else {}


def A(x):
    return {(x,): 1}


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f=0):
        self.o, self.f = o, f

    def __eq__(self, other):
        return isinstance(other, Ptr) and (self.o, self.f) == (other.o, other.f)

    def __hash__(self):
        return hash((self.o, self.f))

    def __repr__(self):
        return f"{self.o}+{self.f}"


NULL = Ptr('null')


class State:
    def __init__(self):
        self.env, self.mem, self.facts, self.events, self.freed = {}, {}, [], [], set()
        self.seen, self.made = (), 0

    def copy(self):
        s = State()
        s.env, s.mem, s.facts, s.events, s.freed = dict(self.env), dict(self.mem), list(self.facts), list(self.events), set(self.freed)
        s.seen, s.made = self.seen, self.made
        return s


class Stop(Exception):
    """a way that does not come back"""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Ways:
    """all ways through a function"""

    LIMIT = 4000

    def __init__(self, text, pre=None):
        text = glue.lower(text)
        _, self.args, blocks = ir.parse_function(text)
        self.ret = None
        self.blocks = {b: [ir.instr(x) for x in ls if not x.startswith(('filter', 'cleanup', 'catch'))] for b, ls in blocks.items()}
        self.first = next(iter(blocks))
        self.vars, self.prod = {}, {}
        self.s = z3.Solver()
        self.s.set('timeout', 8000)
        self.base, self.done, self.queries = [], [], 0
        self.pre = pre

    # ---------------------------------------------------------- numbers
    def var(self, m):
        """the value of a product of atoms"""
        if m not in self.vars:
            v = self.vars[m] = z3.Int('*'.join(m))
            if len(m) == 1:
                self.base += [v >= 0, v < TOP]
            else:
                for i in range(len(m)):
                    if i and m[i] == m[i - 1]:
                        continue
                    x, r = self.var(m[i:i + 1]), self.var(m[:i] + m[i + 1:])
                    self.base += [v >= 0, z3.Implies(x >= 1, v >= r), z3.Implies(x == 0, v == 0)]
        return self.vars[m]

    def lin(self, p):
        r = z3.IntVal(p.get((), 0))
        for m, c in p.items():
            if m:
                r = r + c * self.var(m)
        return r

    def holds(self, st, c, more=()):
        """c on this way"""
        if isinstance(c, bool):
            return c
        self.queries += 1
        self.s.push()
        self.s.add(*self.base, *st.facts, *more, z3.Not(c))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat

    def decide(self, st, c):
        """c on this way, or both ways are followed"""
        if isinstance(c, bool):
            return c
        for k, v in st.env.get('#known', ()):
            if k.eq(c):
                return v
        if self.holds(st, c):
            return True
        if self.holds(st, z3.Not(c)):
            return False
        raise Fork(c)

    def fresh(self, st, what):
        st.made += 1
        return A(f"{what}#{st.made}.{len(st.seen)}")

    def fit(self, st, p, near=False):
        """the 64 bits of p: p itself where it is below 2^64 and not negative"""
        if set(p) <= {()}:
            return K(p.get((), 0) % TOP), not 0 <= p.get((), 0) < TOP
        v = self.lin(p)
        if self.decide(st, z3.And(v >= 0, v < TOP)):
            return p, False
        if near:
            for q in (padd(p, K(TOP)), padd(p, K(TOP), -1)):
                w = self.lin(q)
                if self.holds(st, z3.And(w >= 0, w < TOP)):
                    return q, True
        memo = dict(st.env.get('#wrap', ()))
        key = tuple(sorted(p.items()))
        if key not in memo:
            if all(c % 2 == 0 for c in p.values()):         # 2 x mod 2^64 from x mod 2^64
                r = self.fit(st, {m: c // 2 for m, c in p.items()})[0]
                r, w = padd(r, r), self.lin(r)
                memo[key] = padd(r, K(TOP), -1) if self.decide(st, 2 * w >= TOP) else r
            else:
                memo[key] = self.fresh(st, 'wrapped')
            st.env['#wrap'] = tuple({**dict(st.env.get('#wrap', ())), key: memo[key]}.items())
        return memo[key], True

    # ---------------------------------------------------------- one way after the other
    def run(self):
        st = State()
        for t, n in self.args:
            st.env[n] = Ptr('%' + n) if t == ('ptr',) else z3.Bool('%' + n) if t == ('i', 1) else A('%' + n)
        if self.pre:
            self.pre(self, st)
        work, n = [(st, self.first, None, 0)], 0
        while work:
            st, b, came, k = work.pop()
            n += 1
            if n > self.LIMIT:
                raise Unsupported("too many ways")
            try:
                while True:
                    if k == 0 and came is not False:
                        if b in st.seen:
                            raise Unsupported("loop")
                        st.seen += (b,)
                        vals = {}
                        for i in self.blocks[b]:
                            if i.op != 'phi':
                                break
                            for v, p in i.a:
                                if p == came:
                                    vals[i.res] = self.val(st, v, i.ty)
                            k += 1
                        st.env.update(vals)
                    i = self.blocks[b][k]
                    keep = (st.env, st.mem, st.facts, st.events, st.freed, st.made)
                    st.env, st.mem, st.events, st.freed = dict(st.env), dict(st.mem), list(st.events), set(st.freed)
                    try:
                        nxt = self.step(st, i)
                    except Fork as f:
                        st.env, st.mem, st.facts, st.events, st.freed, st.made = keep
                        for v in (True, False):
                            q = st.copy()
                            q.facts.append(f.cond if v else z3.Not(f.cond))
                            q.env['#known'] = q.env.get('#known', ()) + ((f.cond, v),)
                            work.append((q, b, False, k))
                        break
                    if nxt == 'ret':
                        self.done.append(st)
                        break
                    if nxt is not None:
                        came, b, k = b, nxt, 0
                    else:
                        k += 1
                        came = False if k == 0 else came
            except Stop:
                continue
        return self.done

    # ---------------------------------------------------------- values
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            x = st.env.get(v[1])
            if x is None:
                raise Unsupported(f"%{v[1]}")
            return x
        if k == 'int':
            if ty == ('i', 1):
                return bool(v[2] & 1)
            return Ptr('dangling') if ty == ('ptr',) else K(v[2] % (1 << ty[1]))
        if k == 'null':
            return NULL
        if k == 'global':
            return Ptr('@' + v[1])
        if k in ('poison', 'undef'):
            return 'poison'
        if k == 'zero' and ty[0] == 'i':
            return K(0)
        raise Unsupported(f"value {v}")

    def num(self, x):
        if isinstance(x, Ptr) or x == 'poison' or isinstance(x, (bool, z3.BoolRef)):
            raise Unsupported("number")
        return x

    def heap(self, x):
        if isinstance(x, dict) and set(x) <= {()}:
            return Ptr('dangling')
        if not isinstance(x, Ptr):
            raise Unsupported("pointer")
        return x

    def step(self, st, i):
        e, op = st.env, i.op
        if op == 'alloca':
            e[i.res] = Ptr('$' + i.res)
        elif op == 'getelementptr':
            p = self.heap(self.val(st, i.a[0], ('ptr',)))
            et, idx = i.x
            if et != ('i', 8) or len(idx) != 1:
                raise Unsupported("address")
            d, far = idx[0][1], isinstance(p.f, tuple)
            if d[0] == 'int' and not far:
                e[i.res] = Ptr(p.o, p.f + d[2])
            elif p.o.startswith('heap'):
                d = K(d[2] - TOP if d[2] >= TOP // 2 else d[2]) if d[0] == 'int' else self.num(self.val(st, d, ('i', 64)))
                e[i.res] = Ptr(p.o, tuple(sorted(padd(dict(p.f) if far else K(p.f), d).items())))
            else:
                raise Unsupported("address")
        elif op == 'load':
            e[i.res] = self.load(st, self.heap(self.val(st, i.a[0], ('ptr',))), i.ty)
        elif op == 'store':
            p = self.heap(self.val(st, i.a[1], ('ptr',)))
            if p.o.startswith('heap'):
                self.within(st, p, K(i.ty[1] // 8 if i.ty[0] == 'f' else self.size(i.ty)))
            else:
                self.store(st, p, self.val(st, i.a[0], i.ty), i.ty)
        elif op == 'phi':
            pass
        elif op in ('zext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
            x = self.val(st, i.a[0], i.x[0] if op != 'freeze' else i.ty)
            if op == 'trunc' and i.ty == ('i', 1):
                if not (isinstance(x, dict) and len(x) == 1 and list(x.values()) == [1]):
                    raise Unsupported("trunc")
                (m, _), = x.items()
                x = z3.Bool('bit ' + '*'.join(m))
            elif op == 'trunc' and not (isinstance(x, dict) and self.holds(st, self.lin(x) < 1 << i.ty[1])):
                x = self.fresh(st, 'low')
                st.facts.append(self.lin(x) < 1 << i.ty[1])
            elif op == 'zext' and isinstance(x, (bool, z3.BoolRef)):
                x = K(1) if self.decide(st, x) else K(0)
            elif op == 'inttoptr':
                x = self.heap(x)
            e[i.res] = x
        elif op == 'icmp':
            e[i.res] = self.compare(st, i.x, self.val(st, i.a[0], i.ty), self.val(st, i.a[1], i.ty), i.ty)
        elif op == 'select':
            c = self.decide(st, self.val(st, i.a[0], ('i', 1)))
            e[i.res] = self.val(st, i.a[1 if c else 2], i.ty)
        elif op in ('and', 'or', 'xor') and i.ty == ('i', 1):
            x, y = [self.val(st, v, i.ty) for v in i.a]
            x, y = [z3.BoolVal(t) if isinstance(t, bool) else t for t in (x, y)]
            r = z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
            e[i.res] = True if z3.is_true(r) else False if z3.is_false(r) else r
        elif op in ('mul', 'shl', 'add', 'sub'):
            x, y = [self.num(self.val(st, v, i.ty)) for v in i.a]
            if op == 'shl':
                if not set(y) <= {()}:
                    raise Unsupported("shift")
                y = K(1 << y.get((), 0))
            p = pmul(x, y) if op in ('mul', 'shl') else padd(x, y, -1 if op == 'sub' else 1)
            e[i.res] = self.fit(st, p, op in ('add', 'sub'))[0]
        elif op in ('and', 'or', 'lshr', 'urem', 'udiv'):
            e[i.res] = self.fresh(st, op)
            if op in ('urem', 'and', 'udiv', 'lshr'):
                x, y = [self.num(self.val(st, v, i.ty)) for v in i.a]
                v = self.lin(e[i.res])
                if op == 'urem':
                    st.facts.append(z3.Implies(self.lin(y) > 0, v < self.lin(y)))
                else:
                    st.facts.append(v <= self.lin(x))
        elif op == 'extractvalue':
            x = self.val(st, i.a[0], None)
            if x == 'poison':
                e[i.res] = x
            else:
                e[i.res] = x[i.x[1][0]]
        elif op == 'br':
            if not i.a:
                return i.x[0]
            return i.x[0 if self.decide(st, self.val(st, i.a[0], ('i', 1))) else 1]
        elif op == 'switch':
            x = self.num(self.val(st, i.a[0], i.ty))
            for k, d in i.x[1]:
                if self.decide(st, self.lin(x) == k[2] % (1 << i.ty[1])):
                    return d
            return i.x[0]
        elif op == 'ret':
            self.ret = i
            if i.a:
                st.env['#ret'] = self.val(st, i.a[0], i.ty)
            return 'ret'
        elif op == 'unreachable':
            if self.holds(st, z3.BoolVal(False)) or st.events and st.events[-1][0] == 'diverges':
                raise Stop
            raise Fail("a way ends nowhere")
        elif op == 'call':
            self.call(st, i)
        else:
            raise Unsupported(op)
        return None

    def compare(self, st, pr, x, y, ty):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            x, y = self.heap(x), self.heap(y)
            if pr not in ('eq', 'ne'):
                raise Unsupported("order of pointers")
            if x == y:
                c = True
            elif NULL in (x, y):
                p = y if x == NULL else x
                c = z3.Bool(f"null {p}") if p.o[0] not in '$%@' and p.o != 'dangling' else False
            else:
                raise Unsupported("equality of pointers")
            return c if pr == 'eq' else not c if isinstance(c, bool) else z3.Not(c)
        if ty == ('i', 1):
            x, y = [z3.BoolVal(t) if isinstance(t, bool) else t for t in (x, y)]
            return x == y if pr == 'eq' else x != y
        a, b = self.lin(self.num(x)), self.lin(self.num(y))
        half = 1 << (ty[1] - 1)
        if pr[0] == 's':
            a, b = [z3.If(t >= half, t - 2 * half, t) for t in (a, b)]
        c = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        c = z3.simplify(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else c

    # ---------------------------------------------------------- memory
    def size(self, ty):
        if ty == ('ptr',):
            return 8
        if ty[0] == 'i':
            return max(1, ty[1] // 8)
        raise Unsupported(f"type {ty}")

    def load(self, st, p, ty):
        n = self.size(ty)
        got = st.mem.get((p.o, p.f))
        if got is not None and got[1] == n:
            x = got[0]
            if ty == ('ptr',) and isinstance(x, dict):
                x = self.heap(x)
            return x
        if got is not None or any(o == p.o and f < p.f + n and p.f < f + k for (o, f), (_, k) in st.mem.items()):
            raise Unsupported("load of part of a word")
        if p.o[0] == '%' or p.o[0] == '@' or p.o.startswith('ptr '):
            x = Ptr(f"ptr {p}") if ty == ('ptr',) else z3.Bool(f"{p}") if ty == ('i', 1) else A(f"{p}:{n}")
            if isinstance(x, dict):
                st.facts.append(self.lin(x) < 1 << (8 * n))
            st.mem[p.o, p.f] = (x, n)
            return x
        raise Unsupported(f"load of {p}, where nothing was stored")

    def store(self, st, p, x, ty):
        n = self.size(ty)
        if p.o[0] not in '$' and p.o != self.out():
            raise Fail(f"store to {p}")
        for (o, f), (_, k) in list(st.mem.items()):
            if o == p.o and f < p.f + n and p.f < f + k:
                if f == p.f and k == n:
                    continue
                del st.mem[o, f]
        st.mem[p.o, p.f] = (x, n)

    def within(self, st, p, n):
        """n bytes at p, in memory that was asked for here (what they are is not followed)"""
        by, el = st.mem.get(('size', p.o)), st.mem.get(('elems', p.o))
        at = self.lin(dict(p.f) if isinstance(p.f, tuple) else K(p.f))
        top = self.lin(by[0]) if by else self.lin(el[0]) * self.c['es'] if el else None
        if top is None or p.o in st.freed or not self.holds(st, z3.And(at >= 0, at + self.lin(n) <= top)):
            raise Fail(f"write past what was allocated: {dict(p.f) if isinstance(p.f, tuple) else p.f}+{n} in {by}")

    def out(self):
        return '%' + self.args[0][1]

    def field(self, st, p, off, ty=('i', 64)):
        return self.load(st, Ptr(p.o, p.f + off), ty)

    # ---------------------------------------------------------- calls
    def call(self, st, i):
        f, args = i.x
        e = st.env
        if f.startswith('llvm.umul.with.overflow'):
            x, y = [self.num(self.val(st, v, t)) for t, v in args]
            e[i.res] = self.fit(st, pmul(x, y))
            return
        if f.startswith('llvm.memcpy'):
            d, s, n = [self.val(st, v, t) for t, v in args][:3]
            if not set(n) <= {()}:
                raise Unsupported("copy")
            n = n.get((), 0)
            if n % 8 == 0 and s.o[0] == '%':
                for o in range(0, n, 8):
                    if (s.o, s.f + o) not in st.mem:
                        self.load(st, Ptr(s.o, s.f + o), ('i', 64))
            if ('weights', s.o) in st.mem and not s.f:
                st.mem['weights', d.o] = st.mem['weights', s.o]
            for (o, g), w in list(st.mem.items()):
                if o == d.o and d.f <= g < d.f + n:
                    del st.mem[o, g]
            for (o, g), w in list(st.mem.items()):
                if o == s.o and s.f <= g < s.f + n:
                    st.mem[d.o, d.f + g - s.f] = w
            return
        if f.startswith('llvm.memset'):
            d, _, n = [self.val(st, v, t) for t, v in args][:3]
            if not isinstance(d, Ptr) or not d.o.startswith('heap'):
                raise Unsupported("memset")
            self.within(st, d, self.num(n))
            return
        if f.startswith('llvm.') or 'no_alloc_shim' in f:
            return
        vals = [self.val(st, v, t) for t, v in args]
        if f.endswith('___rust_dealloc') or 'drop_glue' in f:
            p = vals[0]
            st.freed.add(p.o)
            st.events.append(('free', p, None))
            return
        if f.endswith('___rust_alloc_zeroed') or f.endswith('___rust_alloc'):
            st.made += 1
            e[i.res] = Ptr(f"heap{st.made}.{len(st.seen)}")
            st.mem['size', e[i.res].o] = (vals[0], 8)
            return
        if re.search(r'SpecFromElem.*9from_elem', f):
            st.made += 1
            d, n = vals[0], [x for x in vals[1:] if isinstance(x, dict)][-1]
            h = Ptr(f"heap{st.made}.{len(st.seen)}")
            c = self.fresh(st, 'capacity')
            st.facts.append(self.lin(c) < 1 << 63)
            st.mem['elems', h.o] = (n, 8)
            for o, x in ((0, c), (8, h), (16, n)):
                st.mem[d.o, d.f + o] = (x, 8)
            return
        if re.search(r'9panicking|12handle_error|slice_index_fail|unwrap_failed|expect_failed', f):
            if not self.allowed(f) and not self.holds(st, z3.BoolVal(False)):
                raise Fail(f"may panic: {f[-60:]}")
            st.events.append(('diverges', f, None))
            raise Stop
        if 'detect_and_initialize' in f:
            e[i.res] = self.fresh(st, 'cpu')
            return
        if '8get_pool' in f:
            e[i.res] = Ptr(f"ptr pool{len(st.seen)}")
            st.events.append(('pool', vals, None))
            return
        self.known(st, i, f, vals)

    def allowed(self, f):
        return '12handle_error' in f        # no memory


class Resize(Ways):
    WHOLE = True
    """what the calls of a scaler are, and what is asked of them and of the way they are on"""

    def __init__(self, name, text, globs, cfg):
        self.c, self.n = cfg, cfg['ch']
        self.kind = cfg['scaler']
        self.z = self           # counts queries
        super().__init__(text)
        order = ['result', 'self', 'store', 'into']
        ps = [n for t, n in self.args if t == ('ptr',)]
        self.roles = dict(zip(order, ps))
        fl = [n for t, n in self.args if t == ('i', 1)]
        self.flag = z3.Bool('%' + fl[0]) if len(fl) == 1 else None
        if len(ps) < 4 or self.kind != 'plain' and self.flag is None:
            raise Unsupported("arguments of a scaler")
        self.me, self.src, self.dst = [Ptr('%' + self.roles[k]) for k in ('self', 'store', 'into')]
        self.calls = 0

    # ---------------------------------------------------------- images
    def image(self, st, p):
        return dict(ptr=self.heap(self.field(st, p, 8, ('ptr',))), **{k: self.num(self.field(st, p, o)) for k, o in
                    dict(len=16, w=32, h=40, stride=48, depth=56).items()})

    def valid(self, g):
        n, s = self.n, self.lin(g['stride'])
        wn = pmul(g['w'], K(n))
        return z3.And(z3.If(s == 0, self.lin(g['len']) == self.lin(pmul(wn, g['h'])),
                            z3.And(s >= self.lin(wn), self.lin(g['len']) == self.lin(pmul(g['stride'], g['h'])))),
                      self.lin(g['w']) >= 1, self.lin(g['h']) >= 1)

    def sound(self, st, p, what):
        """an image given to a call is one, and its memory is there"""
        g = self.image(st, p)
        self.need(st, self.valid(g), f"{what} is no image")
        o = g['ptr'].o
        if o in st.freed:
            raise Fail(f"{what} is freed")
        if o.startswith('heap'):
            el, by = st.mem.get(('elems', o)), st.mem.get(('size', o))
            if el is None and by is None or g['ptr'].f:
                raise Fail(f"{what}: memory of unknown size")
            l = self.lin(g['len'])
            self.need(st, l <= self.lin(el[0]) if el else l * self.c['es'] <= self.lin(by[0]), f"{what} is longer than its memory")
        elif not any(g['ptr'] == self.image(st, x)['ptr'] for x in (self.src, self.dst)):
            raise Fail(f"{what} is {g['ptr']}")
        return g

    def need(self, st, c, what):
        self.calls += 1
        if not self.holds(st, c):
            raise Fail(what)

    def same(self, st, x, y, what):
        self.need(st, self.lin(x) == self.lin(y), what)

    # ---------------------------------------------------------- calls
    def known(self, st, i, f, v):
        import registry
        s = ir.short(f)
        n0 = len(st.events)
        if registry.WEIGHTS in s:
            if len(v) != 4 or v[1] != self.me:
                raise Fail("weights of another scaler")
            self.need(st, z3.And(self.lin(v[2]) >= 1, self.lin(v[3]) >= 1), "weights of an empty axis")
            st.mem['weights', v[0].o] = ((v[2], v[3]), 80)
            return
        p = registry.a_pass(s)
        if p:
            k = 'H' if p[0]['horizontal'] else 'V'
            src, fw, dst = v[:3]
            a, b = self.sound(st, src, "source of a pass"), self.sound(st, dst, "destination of a pass")
            if p[0]['ch'] != self.n or p[0]['es'] != self.c['es']:
                raise Fail("pass over other samples")
            if a['ptr'] == b['ptr']:
                raise Fail("a pass onto its source")
            w = st.mem.get(('weights', fw.o))
            if w is None:
                raise Fail("weights of a pass are not made here")
            (x, y), _ = w
            self.same(st, x, a['w' if k == 'H' else 'h'], "weights are for another source")
            self.same(st, y, b['w' if k == 'H' else 'h'], "weights are for another destination")
            self.same(st, a['h' if k == 'H' else 'w'], b['h' if k == 'H' else 'w'], "the other axis differs")
            st.events.append((k, a, b))
            st.mem.pop(('weights', fw.o))
            return
        if '13copied_to_mut' in s:
            st.events.append(('copy', v[0], v[1]))
        elif 'nearest_sampler::resize_nearest' in s:
            import passes
            ns = passes.MODULE.names(f)
            if len(ns) != len(v) or 'pool' not in ns:
                raise Unsupported("resize_nearest")
            st.events.append(('nearest', list(v), ns))
        elif '33is_alpha_premultiplication_needed' in s:
            b = z3.Bool(f"needed {v[0]}")
            st.events.append(('needed', v[0], b))
            st.env[i.res] = b
        elif '19unpremultiply_alpha' in s:
            st.events.append(('unpremultiply', v[0], None))
        elif '17premultiply_alpha' in s:
            a, b = self.sound(st, v[0], "source of premultiplication"), self.sound(st, v[1], "destination of premultiplication")
            self.same(st, a['w'], b['w'], "width of premultiplication")
            self.same(st, a['h'], b['h'], "height of premultiplication")
            st.events.append(('premultiply', a, b))
        elif registry.scaler(s):
            k = registry.scaler(s)[0]['scaler']
            if k not in ('both', 'vertical', 'horizontal'):
                raise Unsupported("scaler")
            st.events.append(('forward', k, v))
            if v[0].o != self.out():
                raise Unsupported("result of a scaler")
            st.mem[v[0].o, v[0].f] = ('forwarded', 8)
        elif i.res is None and not f.startswith('_R'):
            st.events.append(('unpremultiply?', list(v), f))
        else:
            raise Unsupported(f"call of {s[-80:]}")

    # ---------------------------------------------------------- what a way has to have done
    OPS = ('H', 'V', 'copy', 'nearest', 'premultiply', 'unpremultiply', 'unpremultiply?', 'forward')

    def before(self, st):
        """facts of the arguments"""
        a, b = self.image(st, self.src), self.image(st, self.dst)
        st.facts += [self.lin(a['len']) <= BIG, self.lin(b['len']) <= BIG]
        if self.kind in ('both', 'vertical', 'horizontal'):
            st.facts += [self.valid(a), self.valid(b)]
            for g in (a, b):        # stride >= n w gives stride h >= n w h
                st.facts.append(self.lin(pmul(pmul(g['w'], g['h']), K(self.n))) <= self.lin(g['len']))
            other = {'vertical': ('w',), 'horizontal': ('h',), 'both': ()}[self.kind]
            st.facts += [self.lin(a[k]) == self.lin(b[k]) for k in other]

    def prove(self, only=None):
        ob = Ob()
        self.pre = lambda s, st: s.before(st)

        def ways():
            self.run()
            self.s.push()
            self.s.add(*self.base, *(self.done[0].facts if self.done else ()))
            self.s.pop()
            return len(self.done)
        ob.add("calls", ways)
        if ob.bad:
            return ob
        ob.ok = [("calls", max(1, self.calls))]
        for k, f in (("errors", self.errors), ("what is done", self.work)):
            if not only or k in only:
                ob.add(k, lambda: self.each(f))
        ob.add("not vacuous", self.live)
        return ob

    def each(self, f):
        n = 0
        for st in self.done:
            if self.holds(st, z3.BoolVal(False)):
                continue
            try:
                n += f(st)
            except Fail as e:
                raise Fail(f"{e} (way {', '.join(st.seen[-4:])})")
        return n

    def live(self):
        kinds = {e[0] for st in self.done if not self.holds(st, z3.BoolVal(False)) for e in st.events}
        want = {'plain': {'H', 'V', 'copy', 'nearest'}, 'alpha': {'copy', 'nearest', 'forward'}, 'both': {'H', 'V', 'premultiply'},
                'vertical': {'V', 'premultiply'}, 'horizontal': {'H', 'premultiply'}}[self.kind]
        if not want <= kinds:
            raise Fail(f"no way with {want - kinds}")
        return len(want)

    def result(self, st):
        r = st.mem.get((self.out(), 0))
        if r is None:
            raise Fail("no result")
        if r[0] == 'forwarded':
            return 'forwarded'
        if not set(r[0]) <= {()}:
            for c in range(16):
                if self.holds(st, self.lin(r[0]) == c):
                    return c
            if self.holds(st, self.lin(r[0]) == TOP - 1):
                return TOP - 1
            if self.holds(st, self.lin(r[0]) != TOP - 1):
                return 'error'
            raise Fail("result")
        return r[0].get((), 0)

    def errors(self, st):
        r = self.result(st)
        ops = [e for e in st.events if e[0] in self.OPS]
        a, b = self.image(st, self.src), self.image(st, self.dst)
        L = self.lin
        depth = z3.And(L(b['depth']) >= 1, L(b['depth']) <= 16) if self.c['deep'] else z3.BoolVal(True)
        if r in (TOP - 1, 'forwarded'):
            self.need(st, self.valid(a), "success for a source that is no image")
            self.need(st, self.valid(b), "success for a destination that is no image")
            if self.kind in ('plain', 'alpha'):
                self.need(st, depth, "success for a bit depth out of range")
            return 3
        written = [e[0] for e in ops if not (e[0] in ('V', 'premultiply') and e[2]['ptr'].o.startswith('heap'))]
        if written:
            raise Fail(f"error after {written}")
        ch = self.num(self.field(st, self.src, 24))
        why = [z3.Not(self.valid(a)), z3.Not(self.valid(b)), L(pmul(pmul(a['w'], a['h']), ch)) >= TOP, L(pmul(pmul(b['w'], b['h']), ch)) >= TOP,
               L(pmul(pmul(a['w'], b['h']), K(self.n))) >= TOP, z3.Not(depth)]
        self.need(st, z3.Or(*why), f"error {r} without a reason")
        return 1

    def work(self, st):
        r = self.result(st)
        if r not in (TOP - 1, 'forwarded'):
            return 1
        ops = [e for e in st.events if e[0] in self.OPS]
        a, b = self.image(st, self.src), self.image(st, self.dst)
        L = self.lin
        samew, sameh = L(a['w']) == L(b['w']), L(a['h']) == L(b['h'])
        names = [e[0] for e in ops]
        if self.kind in ('plain', 'alpha'):
            fn = self.num(self.field(st, self.me, 17, ('i', 8)))
            near = L(fn) == 1
            if self.holds(st, z3.And(samew, sameh)):
                if names != ['copy'] or ops[0][1:] != (self.src, self.dst):
                    raise Fail(f"same size: {names}")
                return 1
            self.need(st, z3.Not(z3.And(samew, sameh)), "way of equal and of different sizes")
            if self.holds(st, near):
                if names != ['nearest']:
                    raise Fail(f"nearest: {names}")
                return self.nearest(st, a, b, ops[0])
            self.need(st, z3.Not(near), "way of Nearest and of other filters")
            if self.kind == 'alpha':
                if names != ['forward'] or r != 'forwarded':
                    raise Fail(f"scaled by {names}")
                _, k, v = ops[0]
                if [x for x in v[1:4]] != [self.me, self.src, self.dst] or not any(isinstance(x, z3.BoolRef) and x.eq(self.flag) for x in v):
                    raise Fail("arguments of a scaler")
                self.need(st, {'both': z3.Not(z3.Or(samew, sameh)), 'vertical': z3.And(samew, z3.Not(sameh)), 'horizontal': z3.And(sameh, z3.Not(samew))}[k],
                          f"scaled {k}")
                return 2
            want = ([] if self.holds(st, sameh) else ['V']) + ([] if self.holds(st, samew) else ['H'])
            if 'V' in want:
                self.need(st, z3.Not(sameh), "way of equal and of different heights")
            if 'H' in want:
                self.need(st, z3.Not(samew), "way of equal and of different widths")
            return self.chain(st, ops, want, a, b)
        want = {'both': ['V', 'H'], 'vertical': ['V'], 'horizontal': ['H']}[self.kind]
        needed = [e for e in st.events if e[0] == 'needed']
        if any(e[1] != self.src for e in needed) or len(needed) > 1:
            raise Fail("alpha of another image is looked at")
        on = z3.And(self.flag, needed[0][2]) if needed else self.flag
        if 'premultiply' in names:
            self.need(st, on, "alpha is premultiplied though not asked for or not needed")
            if names[0] != 'premultiply' or names[-1] not in ('unpremultiply', 'unpremultiply?') or len(ops) != len(want) + 2:
                raise Fail(f"alpha: {names}")
            p, q = ops[0][1:]
            if p['ptr'] != a['ptr'] or not q['ptr'].o.startswith('heap'):
                raise Fail("another image is premultiplied")
            self.same(st, p['w'], a['w'], "width of what is premultiplied")
            self.same(st, p['h'], a['h'], "height of what is premultiplied")
            self.same(st, p['stride'], a['stride'], "stride of what is premultiplied")
            self.same(st, q['depth'], b['depth'], "bit depth of what is premultiplied")
            if names[-1] == 'unpremultiply':
                if ops[-1][1] != self.dst:
                    raise Fail("another image is unpremultiplied")
            else:
                self.inplace(st, ops[-1], b)
            return 4 + self.chain(st, ops[1:-1], want, dict(q, stride=K(0)), b)
        self.need(st, z3.Not(on), "alpha is not premultiplied though asked for and needed")
        return 1 + self.chain(st, ops, want, a, b)

    def chain(self, st, ops, want, a, b):
        """passes one after the other: from a, each from what the last one wrote, to b"""
        if [e[0] for e in ops] != want:
            raise Fail(f"{[e[0] for e in ops]} instead of {want}")
        at = a
        for k, (kind, x, y) in enumerate(ops):
            if x['ptr'] != at['ptr']:
                raise Fail(f"{kind} from {x['ptr']}")
            for q in ('w', 'h'):
                self.same(st, x[q], at[q], f"{q} of the source of {kind}")
            n = self.n
            sx, sa = [z3.If(self.lin(g['stride']) == 0, self.lin(g['w']) * n, self.lin(g['stride'])) for g in (x, at)]
            self.need(st, sx == sa, f"stride of the source of {kind}")
            self.same(st, y['depth'], b['depth'], f"bit depth of the destination of {kind}")
            at = y
        if at['ptr'] != b['ptr']:
            raise Fail(f"the last pass writes {at['ptr']}")
        for q in ('w', 'h', 'stride'):
            self.same(st, at[q], b[q], f"{q} of the destination")
        return 5 * len(ops)

    def nearest(self, st, a, b, e):
        v, ns = e[1:]
        n = 0
        shape = ['src.0', 'src.1', None, None, None, 'dst.0', 'dst.1', None, None, None]
        if len(v) < 10 or any(x is not None and x != y for x, y in zip(shape, ns)):
            raise Unsupported("arguments of resize_nearest")
        for at, g, side in ((0, a, 'source'), (5, b, 'destination')):
            if v[at] != g['ptr']:
                raise Fail(f"resize_nearest: the {side} is {v[at]}")
            stride = z3.If(self.lin(g['stride']) == 0, self.lin(g['w']) * self.n, self.lin(g['stride']))
            for x, want, what in zip(v[at + 1:at + 5], (self.lin(g['len']), stride, self.lin(g['w']), self.lin(g['h'])), ('length', 'stride', 'width', 'height')):
                n += 1
                if not self.holds(st, self.lin(self.num(x)) == want):
                    raise Unsupported(f"resize_nearest: {what} of the {side}")      # the order of the arguments is not known
        return n

    def inplace(self, st, e, b):
        """the row kernels of unpremultiplication called through a pointer: on the destination"""
        v = e[1]
        if v[0] != b['ptr']:
            raise Fail(f"{v[0]} is unpremultiplied")
        nums = [self.lin(x) for x in v if isinstance(x, dict)]
        for k in ('w', 'h'):
            if not any(self.holds(st, x == self.lin(b[k])) for x in nums):
                raise Fail(f"{k} of what is unpremultiplied")
