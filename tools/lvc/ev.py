"""Symbolic evaluation of one LLVM function: every SSA value becomes a term over arguments, loads and phis."""
import re
import ir, sym
from sym import *


def tw(ty):
    """bits of a scalar type"""
    if ty[0] in ('i', 'f'):
        return ty[1]
    if ty[0] == 'ptr':
        return 64
    raise Unsupported(f"scalar {ty}")


def size(ty):
    """bytes in memory"""
    if ty[0] in ('i', 'f'):
        return max(1, (ty[1] + 7) // 8)
    if ty[0] == 'ptr':
        return 8
    if ty[0] in ('vec', 'arr'):
        return ty[1] * size(ty[2])
    raise Unsupported(f"size of {ty}")


def lanes(v):
    return v if isinstance(v, list) else [v]


def recut(ls, w, n):
    """lanes re-cut to n lanes of w bits"""
    if ls and ls[0].w == w:
        return list(ls)
    sw = ls[0].w
    out = []
    if w < sw:
        for l in ls:
            for k in range(sw // w):
                out.append(ext(l, k * w, w))
    else:
        k = w // sw
        for i in range(0, len(ls), k):
            p = ls[i:i + k]
            out.append(poison(w) if all(x.op == 'poison' for x in p) else cat(p))
    return out


def pack(kind, a, b, w, per):
    """packs of 128-bit halves: per = lanes of the source in 128 bits"""
    out = []
    for i in range(0, len(a), per):
        out += [sat(kind, x, w) for x in a[i:i + per]] + [sat(kind, x, w) for x in b[i:i + per]]
    return out


def madd(a, b):
    """i16 lanes -> i32 lanes"""
    out = []
    for i in range(0, len(a), 2):
        out.append(add(mul(sext(a[i], 32), sext(b[i], 32)), mul(sext(a[i + 1], 32), sext(b[i + 1], 32))))
    return out


def unfold(p):
    """induction variables inside a polynomial in terms of iterations"""
    for _ in range(8):
        if not any(i in IV for m in p for i in m):
            return p
        out = {}
        for m, c in p.items():
            q = {(): c}
            for i in m:
                q = pmul(q, IV[i] if i in IV else {(i,): 1})
            out = padd(out, q)
        p = norm(out, 64)
    return p


FORWARD = None      # which functions may be called with the caller's own arguments (those under the same contract)


class Fn:
    def __init__(self, text, globs=None):
        self.text = text
        self.globs = globs or {}
        self.name, self.args, raw = ir.parse_function(text)
        self.blocks = {}
        for b, ls in raw.items():
            self.blocks[b] = [ir.instr(l) for l in ls]
        self.entry = next(iter(raw))
        # LLVM numbers an unnamed entry block after the arguments
        self.graph()
        self.ivs = {}
        self.ptrs = set()
        self.offs, self.triv = {}, {}

    # ------------------------------------------------------------ graph
    def graph(self):
        self.succ, self.pred = {}, {b: [] for b in self.blocks}
        al = {}
        refs = set()
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                refs.update(t.x)
            elif t.op == 'switch':
                refs.update([t.x[0]] + [l for _, l in t.x[1]])
            elif t.op == 'invoke':
                refs.update(t.x[2:4])
            for i in ins:
                if i.op == 'phi':
                    refs.update(x for _, x in i.a)
        unk = refs - set(self.blocks)
        if len(unk) == 1:
            # the entry block's implicit number
            n = unk.pop()
            self.blocks = {(n if b == self.entry else b): v for b, v in self.blocks.items()}
            self.entry = n
        elif unk:
            raise Unsupported(f"blocks {unk}")
        self.pred = {b: [] for b in self.blocks}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([l for _, l in t.x[1]] + [t.x[0]]))
            elif t.op == 'invoke':
                raise Unsupported("invoke")
            else:
                s = []
            self.succ[b] = s
        # reachable, reverse postorder
        seen, post = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.latches = {b: [p for p in self.pred[b] if self.dom(b, p)] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b] and not self.dom(s, b):
                    raise Unsupported("irreducible loop")
        self.cut = {b for b in self.rpo if b == self.entry or len(self.pred[b]) > 1 or self.latches[b]}
        self.loop = {}
        for h in self.rpo:
            if self.latches[h]:
                body = {h}
                st = list(self.latches[h])
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += self.pred[x]
                self.loop[h] = body

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = self.idom[b]

    def doms(self, b):
        out = [b]
        while b != self.entry:
            b = self.idom[b]
            out.append(b)
        return out

    def ncut(self, b):
        """the cut point whose straight-line region holds b"""
        while b not in self.cut:
            b = self.idom[b]
        return b

    # ------------------------------------------------------------ values
    def const(self, v, ty):
        k = v[0]
        if k == 'reg':
            if v[1] not in self.env:
                raise Unsupported(f"value {v[1]} used before it is defined")
            return self.env[v[1]]
        if k == 'int':
            return C(v[1], v[2])
        if k == 'fp':
            return FC(v[1], v[2])
        if k == 'null':
            return C(64, 0)
        if k in ('poison', 'undef'):
            if ty[0] in ('vec', 'arr'):
                return [poison(tw(ty[2]))] * ty[1]
            if ty[0] == 'struct':
                return [self.const((k, t), t) for t in ty[1]]
            return poison(tw(ty))
        if k == 'zero':
            if ty[0] in ('vec', 'arr'):
                return [C(tw(ty[2]), 0)] * ty[1]
            if ty[0] == 'struct':
                return [self.const((k, t), t) for t in ty[1]]
            return C(tw(ty), 0)
        if k == 'vec':
            et = ty[2] if ty[0] in ('vec', 'arr') else None
            return [self.const(e, et or ty[1][i]) for i, e in enumerate(v[1])]
        if k == 'global':
            t = mk('sym', 64, (), '@' + v[1])
            self.ptrs.add(t.id)
            BYID[t.id] = t
            return t
        if k == 'off':      # a pointer relative to its base
            return sub(self.const(v[1], ('ptr',)), v[2])
        if k == 'gepc':
            return self.gep(v[1], self.const(v[2], ('ptr',)), [(t, self.const(x, t)) for t, x in v[3]])
        raise Unsupported(f"constant {k}")

    def gep(self, et, base, idx):
        t = base
        first = True
        for ity, iv in idx:
            if not first:
                if et[0] in ('arr', 'vec'):
                    et = et[2]
                elif et[0] == 'struct':
                    raise Unsupported("struct gep")
            first = False
            iv = sext(iv, 64)
            t = add(t, mul(iv, C(64, size(et))))
        return t

    def address(self, p):
        """-> base term, offset polynomial"""
        q = poly(p)
        base = [m for m in q if len(m) == 1 and m[0] in self.ptrs]
        if len(base) != 1 or q[base[0]] != 1:
            raise Unsupported(f"address {pshow(q)}")
        return BYID[base[0][0]], {m: c for m, c in q.items() if m != base[0]}

    def globbytes(self, name):
        d = self.globs.get(name)
        if d is None or 'constant' not in d:
            return None
        body = d.split('constant', 1)[1].strip()
        p = ir.P(body)
        try:
            ty = p.type()
            v = p.value(ty)
        except ir.Bad:
            return None
        out = []

        def flat(v, ty):
            if v[0] == 'vec':
                ts = ty[1] if ty[0] == 'struct' else [ty[2]] * len(v[1])
                for e, t in zip(v[1], ts):
                    flat(e, t)
            elif v[0] == 'int':
                out.extend((v[2] >> 8 * i & 255) for i in range(v[1] // 8))
            elif v[0] == 'fp':
                b = fbits(FC(v[1], v[2]))
                out.extend((b >> 8 * i & 255) for i in range(v[1] // 8))
            elif v[0] == 'zero':
                out.extend([0] * (sum(size(t) for t in ty[1]) if ty[0] == 'struct' else size(ty)))
            else:
                raise Unsupported("global initialiser")
        flat(v, ty)
        return out

    def read(self, b, ty, ptr):
        base, off = self.address(ptr)
        n = size(ty)
        if base.op == 'sym' and base.x.startswith('@'):
            by = self.globbytes(base.x[1:])
            if by is not None and set(off) <= {()}:
                o = off.get((), 0)
                if not 0 <= o <= len(by) - n:
                    raise Unsupported("constant read out of range")
                t = cat([C(8, x) for x in by[o:o + n]])
            else:
                t = load(base, off, n)
                self.acc.append((b, 'load', base, off, n, None))
        elif base.op == 'alloca':
            t = self.aread(base, off, n, b)
        else:
            t = load(base, off, n)
            self.acc.append((b, 'load', base, off, n, None))
        if ty[0] in ('vec', 'arr'):
            w = tw(ty[2])
            if w < 8:
                raise Unsupported("bit vector load")
            return [ext(t, i * w, w) for i in range(ty[1])]
        if ty[0] == 'struct':
            raise Unsupported("struct load")
        if ty[0] == 'ptr':
            self.ptrs.add(t.id)
            BYID[t.id] = t
        w = tw(ty)
        return t if w == 8 * n else ext(t, 0, w)

    def keep(self, base, o, t, b):
        """one byte written to the stack"""
        if not 0 <= o < self.asize[base.id]:
            raise Unsupported("write beyond a stack array")
        self.stack.setdefault(base.id, {})[o] = t
        self.stackw.setdefault((base.id, o), []).append(b)

    def stack_sound(self):
        """what was taken as the last write to a stack byte is the last write on every way to the read: it is in the same
        block, or its block dominates the read and every other block that writes the byte dominates it in turn"""
        for k, wb, n, b in self.stackr:
            ws = self.stackw.get(k, [])
            if wb is None:
                if ws:
                    raise Unsupported("stack byte read before it is written")
                continue
            if wb == b and ws[n - 1] == b:
                continue
            if not self.dom(wb, b) or not all(self.dom(x, wb) for x in ws):
                raise Unsupported("stack byte with several writes")

    def aread(self, base, off, n, b):
        if not set(off) <= {()}:
            raise Unsupported("indexed stack array")
        o = off.get((), 0)
        if not 0 <= o <= self.asize[base.id] - n:
            raise Unsupported("read beyond a stack array")
        m = self.stack.setdefault(base.id, {})
        out = []
        for i in range(n):
            ws = self.stackw.get((base.id, o + i), [])
            self.stackr.append(((base.id, o + i), ws[-1] if ws else None, len(ws), b))
            if o + i not in m:
                out.append(poison(8))
            else:
                out.append(m[o + i])
        return cat(out)

    def write(self, b, ty, v, ptr):
        base, off = self.address(ptr)
        n = size(ty)
        t = cat(lanes(v)) if ty[0] in ('vec', 'arr') else v
        if ty[0] in ('vec', 'arr') and tw(ty[2]) < 8:
            raise Unsupported("bit vector store")
        if base.op == 'alloca':
            if not set(off) <= {()}:
                raise Unsupported("indexed stack array")
            o = off.get((), 0)
            for i in range(n):
                self.keep(base, o + i, ext(t, 8 * i, 8), b)
            return
        if t.w != 8 * n:
            t = zext(t, 8 * n)
        vs = list(v) if isinstance(v, list) else [t]
        self.acc.append((b, 'store', base, off, n, vs))

    # ------------------------------------------------------------ run
    def arg(self, n, ty):
        return mk('sym', tw(ty), (), n)

    def run(self):
        self.env, self.acc, self.stack, self.stackw, self.stackr = {}, [], {}, {}, []
        self.masks, self.badmask, self.positive = {}, None, []
        self.asize, self.fits, self.olds = {}, [], False
        self.phis, self.edge, self.rets, self.calls = {}, {}, [], []
        for ty, n in self.args:
            if ty[0] == 'vec':
                raise Unsupported("vector argument")
            t = self.arg(n, ty)
            BYID[t.id] = t
            if ty[0] == 'ptr':
                self.ptrs.add(t.id)
            self.env[n] = t
        for b in self.rpo:
            self.phis[b] = []
            for i in self.blocks[b]:
                self.step(b, i)
        try:
            self.stack_sound()
        except Unsupported:
            if self.stale or not self.olds:
                raise
            self.stale = True       # do not look at what a partly overwritten stack byte held before: any value
            return self.run()
        return self

    stale = False

    def bin(self, op, a, b, fl):
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op == 'shl':
            return shl(a, b)
        if op == 'lshr':
            return lshr(a, b)
        if op == 'ashr':
            return ashr(a, b)
        if op == 'or' and 'disjoint' in fl and a.w == 64:
            return add(a, b)
        if op in ('and', 'or', 'xor'):
            return bitop(op, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isc(a) and isc(b) and b.x and op[0] == 'u':
                return C(a.w, a.x // b.x if op == 'udiv' else a.x % b.x)
            return gen(op, a.w, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return gen(op, a.w, a, b)
        raise Unsupported(op)

    def cast(self, op, v, st, dt, fl):
        if op == 'bitcast':
            if dt[0] == 'vec':
                ls = lanes(v)
                if tw(dt[2]) == 1 or ls[0].w == 1:
                    if ls[0].w == 1 and len(ls) > 1:
                        return recut([cat(ls)], tw(dt[2]), dt[1])
                    return [ext(ls[0], i, 1) for i in range(dt[1])]
                return recut(ls, tw(dt[2]), dt[1])
            ls = lanes(v)
            return ls[0] if len(ls) == 1 else cat(ls)
        if dt[0] == 'vec':
            return [self.cast1(op, x, tw(dt[2])) for x in v]
        return self.cast1(op, v, tw(dt))

    def cast1(self, op, v, w):
        if op == 'zext':
            return zext(v, w)
        if op == 'sext':
            return sext(v, w)
        if op == 'trunc':
            return ext(v, 0, w)
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            return v
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            if op == 'fpext' and v.op == 'fconst':
                return FC(w, v.x)
            if op in ('sitofp', 'uitofp') and isc(v):
                return FC(w, sgn(v.x, v.w) if op == 'sitofp' else v.x)
            if op == 'sitofp' and v.op == 'zext':
                op, v = 'uitofp', v.a[0]
            elif op == 'uitofp' and v.op == 'zext':
                v = v.a[0]
            return gen(op, w, v)
        raise Unsupported(op)

    def step(self, b, i):
        op, env = i.op, self.env
        if op == 'phi':
            n = i.ty[1] if i.ty[0] in ('vec', 'arr') else 1
            w = tw(i.ty[2]) if i.ty[0] in ('vec', 'arr') else tw(i.ty)
            ls = []
            for k in range(n):
                t = self.triv.get((b, i.res, k))
                if t is None:
                    t = mk('phi', w, (), (b, i.res, k if i.ty[0] in ('vec', 'arr') else 0))
                BYID[t.id] = t
                ls.append(t)
            if i.ty[0] == 'ptr' and ls[0].id not in IV:
                self.ptrs.add(ls[0].id)
            o = self.offs.get((b, i.res))
            if o is not None:
                env[o.res] = mk('phi', 64, (), (b, o.res, 0))
                self.phis[b].append(o)
            env[i.res] = ls if i.ty[0] in ('vec', 'arr') else ls[0]
            self.phis[b].append(i)
            return
        if op in ir.BIN:
            if i.ty[0] == 'vec':
                x, y = self.const(i.a[0], i.ty), self.const(i.a[1], i.ty)
                env[i.res] = [self.bin(op, p, q, () if op == 'or' else i.x) for p, q in zip(x, y)]
            else:
                env[i.res] = self.bin(op, self.const(i.a[0], i.ty), self.const(i.a[1], i.ty), i.x)
            return
        if op == 'fneg':
            v = self.const(i.a[0], i.ty)
            env[i.res] = [gen('fneg', x.w, x) for x in v] if isinstance(v, list) else gen('fneg', v.w, v)
            return
        if op in ir.CAST:
            st, fl = i.x
            env[i.res] = self.cast(op, self.const(i.a[0], st), st, i.ty, fl)
            return
        if op in ('icmp', 'fcmp'):
            x, y = self.const(i.a[0], i.ty), self.const(i.a[1], i.ty)
            f = (lambda p, q: icmp(i.x, p, q)) if op == 'icmp' else (lambda p, q: gen('fcmp', 1, p, q, x=i.x))
            env[i.res] = [f(p, q) for p, q in zip(x, y)] if isinstance(x, list) else f(x, y)
            return
        if op == 'select':
            c = self.const(i.a[0], i.x)
            x, y = self.const(i.a[1], i.ty), self.const(i.a[2], i.ty)
            if isinstance(x, list):
                cs = c if isinstance(c, list) else [c] * len(x)
                env[i.res] = [select(k, p, q) for k, p, q in zip(cs, x, y)]
            else:
                if i.ty[0] == 'ptr':
                    raise Unsupported("select of pointers")
                env[i.res] = select(c, x, y)
            return
        if op == 'load':
            env[i.res] = self.read(b, i.ty, self.const(i.a[0], ('ptr',)))
            return
        if op == 'store':
            self.write(b, i.ty, self.const(i.a[0], i.ty), self.const(i.a[1], ('ptr',)))
            return
        if op == 'getelementptr':
            et, idx = i.x
            env[i.res] = self.gep(et, self.const(i.a[0], ('ptr',)), [(t, self.const(v, t)) for t, v in idx])
            return
        if op == 'br':
            if i.a:
                c = self.const(i.a[0], ('i', 1))
                t, f = i.x
                if t != f:
                    self.edge[(b, t)] = c
                    self.edge[(b, f)] = neg(c)
            return
        if op == 'switch':
            v = self.const(i.a[0], i.ty)
            d, cs = i.x
            seen = {}
            for k, l in cs:
                seen.setdefault(l, []).append(icmp('eq', v, self.const(k, i.ty)))
            for l, es in seen.items():
                if l != d and len(es) == 1:
                    self.edge[(b, l)] = es[0]
                elif l != d:
                    e = es[0]
                    for x in es[1:]:
                        e = bitop('or', e, x)
                    self.edge[(b, l)] = e
            if d not in seen:
                e = None
                for k, l in cs:
                    n = neg(icmp('eq', v, self.const(k, i.ty)))
                    e = n if e is None else bitop('and', e, n)
                self.edge[(b, d)] = e
            return
        if op == 'ret':
            self.rets.append((b, self.const(i.a[0], i.ty) if i.a else None))
            return
        if op in ('unreachable', 'fence'):
            return
        if op == 'insertelement':
            v = list(self.const(i.a[0], i.ty))
            k = self.const(i.a[2], ('i', 64))
            if not isc(k):
                raise Unsupported("variable lane")
            v[k.x] = self.const(i.a[1], i.ty[2])
            env[i.res] = v
            return
        if op == 'extractelement':
            v = self.const(i.a[0], i.x)
            k = self.const(i.a[1], ('i', 64))
            if not isc(k):
                raise Unsupported("variable lane")
            env[i.res] = v[k.x]
            return
        if op == 'shufflevector':
            ty, mt, m = i.x
            x, y = self.const(i.a[0], ty), self.const(i.a[1], ty)
            ms = self.const(m, mt)
            al = list(x) + list(y)
            env[i.res] = [poison(tw(ty[2])) if k.op == 'poison' else al[k.x] for k in ms]
            return
        if op == 'extractvalue':
            v = self.const(i.a[0], i.x[0])
            for k in i.x[1]:
                v = v[k]
            env[i.res] = v
            return
        if op == 'insertvalue':
            v = self.const(i.a[0], i.ty)
            if len(i.x) != 1:
                raise Unsupported("insertvalue")
            v = list(v)
            et = i.ty[1][i.x[0]] if i.ty[0] == 'struct' else i.ty[2]
            v[i.x[0]] = self.const(i.a[1], et)
            env[i.res] = v
            return
        if op == 'freeze':
            env[i.res] = self.const(i.a[0], i.ty)
            return
        if op == 'alloca':
            t = mk('alloca', 64, (), i.res)
            BYID[t.id] = t
            self.asize[t.id] = size(i.x)
            self.ptrs.add(t.id)
            env[i.res] = t
            return
        if op == 'call':
            self.call(b, i)
            return
        raise Unsupported(op)

    def call(self, b, i):
        f, args = i.x
        if f == 'llvm.metadata' or f.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg')):
            return
        if not f.startswith('llvm.'):
            if self.blocks[b][-1].op == 'unreachable':
                return      # a panic; its block must be unreachable
            self.opaque_call(b, i)
            return
        ty = i.ty
        av = [self.const(v, t) for t, v in args]
        r = self.intrinsic(b, f, ty, [t for t, _ in args], av)
        if i.res is not None:
            self.env[i.res] = r

    def opaque_call(self, b, i):
        n = ir.short(i.x[0])
        if 'std_detect' in i.x[0] and i.x[0].endswith('detect_and_initialize') and not i.x[1]:
            # what the processor can do: any value
            if i.res is not None:
                self.env[i.res] = mk('sym', i.ty[1], (), f"#detect {b}")
            return
        if i.res is None and FORWARD is not None and FORWARD(n):
            self.calls.append((b, i.x[0], [self.const(v, t) for t, v in i.x[1]]))
            return
        raise Unsupported(f"call of {ir.short(i.x[0])}")

    def intrinsic(self, b, f, ty, ats, a):
        n = f[5:]
        if re.match(r'x86\.(sse2|avx2|avx512)\.pmadd(\.wd|w\.d)', n):
            return madd(recut(a[0], 16, 0), recut(a[1], 16, 0))
        m = re.match(r'x86\.(?:sse41|sse2|avx2|avx512)\.pack(us|ss)(dw|wb)', n)
        if m:
            w = 16 if m.group(2) == 'dw' else 8
            return pack('u' if m.group(1) == 'us' else 's', a[0], a[1], w, 4 if w == 16 else 8)
        if re.match(r'x86\.(ssse3|avx2|avx512)\.pmul\.hr\.sw', n):
            return [gen('mulhrs', 16, *sorted((x, y), key=lambda t: t.id)) for x, y in zip(a[0], a[1])]
        if re.match(r'x86\.avx512\.vpdpwssd', n):
            s = madd(recut(a[1], 16, 0), recut(a[2], 16, 0))
            return [add(x, y) for x, y in zip(recut(a[0], 32, 0), s)]
        m = re.match(r'(umin|umax|smin|smax)\.', n)
        if m:
            o = m.group(1)

            def f1(x, y):
                if isc(x) and isc(y):
                    g = (lambda t: t.x) if o[0] == 'u' else (lambda t: sgn(t.x, t.w))
                    return min(x, y, key=g) if o.endswith('min') else max(x, y, key=g)
                if x is y:
                    return x
                return gen(o, x.w, *sorted((x, y), key=lambda t: t.id))
            return [f1(x, y) for x, y in zip(a[0], a[1])] if isinstance(a[0], list) else f1(a[0], a[1])
        m = re.match(r'fma\.', n)
        if m:
            if isinstance(a[0], list):
                return [gen('fma', x.w, x, y, z) for x, y, z in zip(*a)]
            return gen('fma', a[0].w, *a)
        if re.match(r'x86\.(sse2\.cvtps2dq|avx\.cvt\.ps2dq\.256)', n):
            return [gen('cvtrn', 32, x) for x in a[0]]
        m = re.match(r'x86\.vcvtps2ph\.(128|256)', n)
        if m:
            rc = a[1].x
            out = [gen('fptrunc', 16, x, x=None if rc in (0, 4, 8, 12) else rc) for x in a[0]]
            return out + [C(16, 0)] * (ty[1] - len(out))
        if n.startswith('bswap.'):
            def bs(t):
                k = t.w // 8
                return cat([ext(t, 8 * (k - 1 - j), 8) for j in range(k)])
            return [bs(x) for x in a[0]] if isinstance(a[0], list) else bs(a[0])
        if n.startswith('vector.reduce.add'):
            r = a[0][0]
            for x in a[0][1:]:
                r = add(r, x)
            return r
        if n.startswith('vector.reduce.or'):
            r = a[0][0]
            for x in a[0][1:]:
                r = bitop('or', r, x)
            return r
        if n.startswith('masked.load'):
            return self.mload(b, ty, a)
        if n.startswith('masked.store'):
            return self.mstore(b, ats, a)
        m = re.match(r'(fabs|sqrt|sin|cos|exp|floor|ceil|round|trunc|rint|nearbyint|roundeven|maximumnum|minimumnum|maxnum|minnum|copysign|pow)\.', n)
        if m:
            o = m.group(1)
            if isinstance(a[0], list):
                return [gen(o, xs[0].w, *xs) for xs in zip(*a)]
            return gen(o, a[0].w, *a)
        m = re.match(r'(fptoui|fptosi)\.sat\.', n)
        if m:
            o = m.group(1) + '_sat'
            return [gen(o, tw(ty[2]), x) for x in a[0]] if isinstance(a[0], list) else gen(o, tw(ty), a[0])
        m = re.match(r'(usub|uadd|ssub|sadd)\.sat\.', n)
        if m:
            o = m.group(1) + '_sat'
            return [gen(o, x.w, x, y) for x, y in zip(a[0], a[1])] if isinstance(a[0], list) else gen(o, a[0].w, a[0], a[1])
        m = re.match(r'x86\.(?:sse|avx)\.(max|min)\.ps', n)
        if m:
            return [gen('x86' + m.group(1), x.w, x, y) for x, y in zip(a[0], a[1])]
        m = re.match(r'x86\.(?:sse|avx)\.cmp\.ps', n)
        if m:
            return [gen('x86cmp', x.w, x, y, x=a[2].x) for x, y in zip(a[0], a[1])]
        m = re.match(r'x86\.(?:sse41|avx)\.round\.ps', n)
        if m:
            return [gen('x86round', x.w, x, x=a[1].x) for x in a[0]]
        m = re.match(r'x86\.(?:sse|avx)\.rcp\.ps', n)
        if m:
            return [gen('rcp', x.w, x) for x in a[0]]
        m = re.match(r'x86\.avx512\.rcp14\.ps', n)
        if m:
            k = [isc(t) and t.x for t in a[2]] if isinstance(a[2], list) else [isc(a[2]) and a[2].x >> i & 1 for i in range(len(a[0]))]
            if not all(k):
                raise Unsupported("masked rcp14")
            return [gen('rcp14', x.w, x) for x in a[0]]
        if re.match(r'x86\.avx512\.mask\.cvtps2dq\.512', n):
            k = [isc(t) and t.x for t in a[2]] if isinstance(a[2], list) else [isc(a[2]) and a[2].x >> i & 1 for i in range(len(a[0]))]
            if not all(k) or not (isc(a[3]) and a[3].x == 4):
                raise Unsupported("masked cvtps2dq")
            return [gen('cvtrn', 32, x) for x in a[0]]
        if n.startswith('memcpy'):
            return self.memcpy(b, a)
        if n.startswith('memset'):
            base, off = self.address(a[0])
            if base.op == 'alloca' and isc(a[2]) and set(off) <= {()}:
                for k in range(a[2].x):
                    self.keep(base, off.get((), 0) + k, a[1], b)
                return None
            if base.op == 'alloca':
                return self.memset_var(b, base, off, a[1], a[2])
        raise Unsupported(f)

    def before(self, base, o, b):
        """what a stack byte holds before it is partly overwritten"""
        if o in self.stack.get(base.id, {}) and not self.stale:
            self.olds = True
            return self.aread(base, {(): o} if o else {}, 1, b)
        j = mk('sym', 8, (), f"#stale{b}:{base.x}:{o}")
        BYID[j.id] = j
        return j

    def memset_var(self, b, base, off, v, n):
        """the end of a stack array from a place known at run time"""
        end = padd(off, poly(n))
        if set(end) - {()} or end.get((), 0) != self.asize[base.id]:
            raise Unsupported("memset of part of a stack array")
        cap, c0 = end[()], off.get((), 0)
        (m, g), = [x for x in off.items() if x[0]] if len(off) - (() in off) == 1 else ((None, 0),)
        if m is None or len(m) != 1 or g not in (1, 2, 4, 8, 16) or c0 or cap > 512:
            raise Unsupported(f"memset at {pshow(off)}")
        self.fits.append((b, off, cap))
        L = BYID[m[0]]
        for k in range(cap):
            self.keep(base, k, select(icmp('ult', C(L.w, k // g), L), self.before(base, k, b), v), b)

    def memcpy(self, b, a):
        if not isc(a[2]):
            return self.memcpy_var(b, *a[:3])
        n = a[2].x
        v = self.read(b, ('arr', n, ('i', 8)), a[1])
        self.write(b, ('arr', n, ('i', 8)), v, a[0])

    def memcpy_var(self, b, d, s, n):
        """a copy into or out of a stack array, of a length known at run time: a masked load or store of its elements"""
        g, L = 1, n
        if n.op == 'mul' and any(isc(x) for x in n.a):
            k, x = n.a if isc(n.a[0]) else n.a[::-1]
            if k.x in (2, 4, 8, 16):
                g, L = k.x, x
        (db, do), (sb, so) = self.address(d), self.address(s)
        stack, off = (db, do) if db.op == 'alloca' else (sb, so)
        if (db.op == 'alloca') == (sb.op == 'alloca') or not set(off) <= {()}:
            raise Unsupported("memcpy of variable length")
        o = off.get((), 0)
        cap = self.asize[stack.id] - o
        if cap <= 0 or cap > 512:
            raise Unsupported("copy of variable length beyond a stack array")
        self.fits.append((b, poly(n), cap))
        ms = [icmp('ult', C(L.w, k // g), L) for k in range(cap)]
        if db.op == 'alloca':
            self.acc.append((b, 'load', sb, so, poly(n), None))
            for k in range(cap):
                j = self.before(db, o + k, b)
                self.keep(db, o + k, select(ms[k], load(sb, padd(so, {(): k} if k else {}), 1), j), b)
        else:
            by = self.aread(sb, off, cap, b)
            self.acc.append((b, 'store', db, do, poly(n), [ext(by, 8 * k, 8) for k in range(cap)]))
            self.masks[len(self.acc) - 1] = (ms, poly(n))

    def active(self, b, ms):
        """lanes of a mask that are its low bits: -> the word, the number of active lanes as a term"""
        w = ms[0].a[0] if ms[0].op == 'ext' else None
        if w is None or any(m.op != 'ext' or m.a[0] is not w or m.x != i for i, m in enumerate(ms)):
            w = cat(list(ms))       # an extraction that was pushed through a select, say
        if w.op == 'lshr' and isc(w.a[0]) and w.a[0].x == (1 << len(ms)) - 1 and len(ms) == w.w:
            return w, sub(C(64, w.w), zext(w.a[1], 64))     # a shift by w or more would be poison, so it is less
        import bv
        n = bv.low_mask(w, len(ms))
        if n is None:
            self.badmask = f"mask {show(w, 8)}"
            return w, C(64, 0)
        self.positive.append((b, n))
        return w, n

    def mload(self, b, ty, a):
        ptr, ms, other = a
        if all(isc(m) for m in ms):
            raise Unsupported("constant mask")
        w, n = self.active(b, ms)
        base, off = self.address(ptr)
        k = size(ty[2])
        self.acc.append((b, 'load', base, off, pscale(poly(n), k), None))
        return [select(m, ext(load(base, padd(off, {(): i * k} if i else {}), k), 0, 8 * k), o)
                for i, (m, o) in enumerate(zip(ms, other))]

    def mstore(self, b, ats, a):
        v, ptr, ms = a
        w, n = self.active(b, ms)
        base, off = self.address(ptr)
        k = v[0].w // 8
        if base.op == 'alloca':
            raise Unsupported("masked store to the stack")
        self.acc.append((b, 'store', base, off, pscale(poly(n), k), list(v)))
        self.masks[len(self.acc) - 1] = (list(ms), poly(n))

    # ------------------------------------------------------------ induction variables
    def find_ivs(self):
        """phis of loop headers that advance by a fixed step become init + step * iterations"""
        IV.clear()
        self.offs, self.triv = {}, {}
        found = True
        tries = 0
        self.run()
        while found and tries < 60:
            found = False
            tries += 1
            new = {}
            for h in self.rpo:
                if not self.latches[h]:
                    continue
                ents = [p for p in self.pred[h] if p not in self.latches[h]]
                for i in self.phis[h]:
                    if i.ty[0] not in ('i', 'ptr') or tw(i.ty) < 32:
                        continue
                    t = self.env[i.res]
                    inc = {bl: self.const(v, i.ty) for v, bl in i.a}
                    inits = {inc[e].id for e in ents}
                    if len(inits) != 1:
                        continue
                    init = inc[ents[0]]
                    steps = set()
                    ok = True
                    for l in self.latches[h]:
                        d = norm(psub(poly(inc[l]), poly(t)), t.w)
                        for at in patoms(d):
                            x = BYID[at]
                            if x.op in ('phi', 'iter'):
                                blk = x.x[0] if x.op == 'phi' else x.x
                                if blk in self.loop[h]:
                                    ok = False
                        steps.add(pkey(d))
                    if not ok or len(steps) != 1:
                        continue
                    k = mk('iter', 64, (), h)
                    BYID[k.id] = k
                    v = norm(padd(poly(init), pmul(dict(steps.pop()), {(k.id,): 1})), t.w)
                    if i.ty[0] == 'ptr':
                        self.ptrs.discard(t.id)
                    if IV.get(t.id) != v:
                        new[t.id] = v
            if not new:
                new = self.pointer_joins()
            if not new:
                found = self.trivial()
                if found:
                    for x in sym._tab.values():
                        x._poly = x._fpoly = None
                    self.run()
            if new:
                IV.update(new)
                for i in list(IV):
                    IV[i] = unfold(IV[i])
                for x in sym._tab.values():
                    x._poly = x._fpoly = None
                found = True
                self.run()
        if self.badmask:
            raise Unsupported(self.badmask)
        return self

    def pointer_joins(self):
        """a pointer phi all of whose incoming pointers go into one object is that object plus an offset phi"""
        new = {}
        for b in self.rpo:
            for i in self.phis[b]:
                if i.ty != ('ptr',):
                    continue
                t = self.env[i.res]
                if t.id in IV or (b, i.res) in self.offs:
                    continue
                bases = set()
                for v, bl in i.a:
                    q = poly(self.const(v, i.ty))
                    c = [m for m in q if len(m) == 1 and m[0] in self.ptrs]
                    if c == [(t.id,)] and q[c[0]] == 1:
                        continue
                    if len(c) != 1 or q[c[0]] != 1:
                        bases = None
                        break
                    bases.add(c[0][0])
                if not bases or len(bases) != 1:
                    continue
                base = BYID[bases.pop()]
                if base.op == 'phi':
                    continue
                o = ir.Ins('phi', i.res + '#off', ('i', 64), [(('off', v, base), bl) for v, bl in i.a])
                self.offs[(b, i.res)] = o
                x = mk('phi', 64, (), (b, o.res, 0))
                BYID[x.id] = x
                new[t.id] = {(base.id,): 1, (x.id,): 1}
                self.ptrs.discard(t.id)
        return new

    def trivial(self):
        """a lane of a phi that gets the same value on every way in is that value"""
        n = 0
        for b in self.rpo:
            for i in self.phis[b]:
                if i.ty[0] == 'ptr' or i.res.endswith('#off'):
                    continue
                ls = lanes(self.env[i.res])
                inc = [lanes(self.const(v, i.ty)) for v, _ in i.a]
                for k, t in enumerate(ls):
                    if t.op != 'phi' or t.x != (b, i.res, k) or t.id in IV:
                        continue
                    vs = {x[k].id: x[k] for x in inc if x[k] is not t}
                    if len(vs) != 1:
                        continue
                    (v,) = vs.values()
                    if v.op == 'poison' or t.id in atoms_of(v):
                        continue
                    if all(self.dom(BYID[a].x[0] if BYID[a].op == 'phi' else BYID[a].x, b)
                           for a in atoms_of(v) if BYID[a].op in ('phi', 'iter')):
                        self.triv[(b, i.res, k)] = v
                        n += 1
        return n > 0
