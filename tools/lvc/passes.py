"""Contracts of the passes: the functions that take an image row by row to the row kernels (one thread).

Every call of a row kernel gets what the kernel's contract asks for (`Kernel.pre` of spec.py), the same row of the source and
of the destination with their strides, the weights that were given (or their fixed point form), and, of a vertical pass, the
window and the weights of that row; every row of the destination is given to a kernel exactly once; nothing panics."""
import re
import z3
import ir, sym, ev, glue
from sym import *
from vc import VC, Fail
from spec import Kernel, Horizontal, HReal, Ob, K, S, divp, coef

BR = re.compile(r'^\s+br i1 [^,]+, label (%"[^"]+"|%[^\s,]+), label (%"[^"]+"|%[^\s,]+).*$')
LABEL = re.compile(r'^("[^"]+"|[\w.$-]+):')
ALIAS = {'_1': 'dst_width', 'width': 'dst_width', '_dst_width': 'dst_width', '_2': 'src_width', 'weights': 'filter_weights', 'approx_weights': 'filter_weights',
         'weights.0': 'weight.0', 'weights.1': 'weight.1', 'weight_ptr.0': 'weight.0', 'weight_ptr.1': 'weight.1'}
SIZE = {'h': 1, 't': 2, 'f': 4, 'm': 4}


def name(l):
    return l.strip('%').strip('"')


def split(text):
    """-> head lines, [(label, lines)], tail"""
    ls = text.split('\n')
    head, blocks = [], []
    for l in ls:
        m = LABEL.match(l)
        if m:
            blocks.append((name(m.group(1)), [l]))
        elif blocks:
            blocks[-1][1].append(l)
        else:
            head.append(l)
    if not blocks:
        raise Unsupported("blocks")
    return head, blocks


def prune(text, dead=()):
    """without the edges in dead, the blocks nothing leads to, and what joins had from them; a join of one way is a copy"""
    text = re.sub(r'br i1 (true|false), label (\S+), label ([^\s,]+)(, !prof !\d+)?', lambda m: f"br label {m.group(2 if m.group(1) == 'true' else 3)}", text)
    head, blocks = split(text)
    dead = set(dead)
    by = dict(blocks)
    for b, ls in by.items():
        for k, l in enumerate(ls):
            m = BR.match(l)
            if m:
                x, y = name(m.group(1)), name(m.group(2))
                if (b, x) in dead and (b, y) in dead:
                    ls[k] = '  unreachable'
                elif (b, x) in dead:
                    ls[k] = f'  br label {m.group(2)}'
                elif (b, y) in dead:
                    ls[k] = f'  br label {m.group(1)}'
    def out(b):
        r = []
        for l in by[b]:
            if re.match(r'^\s+(br|switch|invoke|indirectbr) ', l) or re.match(r'^\s+i\d+ -?\d+, label', l):
                r += [name(x) for x in re.findall(r'label (%"[^"]+"|%[^\s,\]]+)', l)]
        return r
    first = blocks[0][0]
    pred, seen, st = {}, {first}, [first]
    while st:
        b = st.pop()
        for y in out(b):
            pred.setdefault(y, set()).add(b)
            if y not in seen:
                seen.add(y)
                st.append(y)
    res = list(head)
    for b, ls in blocks:
        if b not in seen:
            continue
        for k, l in enumerate(ls):
            m = re.match(r'^(\s+%\S+ = phi )(\S+|\{[^}]*\}|<[^>]*>) (\[.*?\])((?:, !.*)?)$', l)
            if not m:
                if ' = phi ' in l:
                    raise Unsupported("phi")
                continue
            ins = [(v.strip(), name(p)) for v, p in re.findall(r'\[ (.*?), (%"[^"]+"|%[^\s\]]+) \]', m.group(3))]
            ins = [(v, p) for v, p in ins if p in pred.get(b, ())]
            if len(ins) == 1:
                v = ins[0][0]
                ls[k] = m.group(1).replace('phi', 'select') + f"i1 true, {m.group(2)} {v}, {m.group(2)} {v}"
            else:
                q = lambda p: f'%"{p}"' if not re.fullmatch(r'[\w.$-]+', p) else '%' + p
                ls[k] = m.group(1) + m.group(2) + ' ' + ', '.join(f'[ {v}, {q(p)} ]' for v, p in ins)
        # copies may not stand between joins
        cp = [l for l in ls if ' = select i1 true, ' in l]
        ph = [l for l in ls if ' = phi ' in l]
        if cp and ph:
            rest = [l for l in ls[1:] if l not in cp and l not in ph]
            ls[:] = ls[:1] + ph + cp + rest
        res += ls
    if res[-1].strip() != '}':
        res.append('}')
    return '\n'.join(res)


def alone(text, pool):
    """the function when there is no thread pool: the test of %pool is decided"""
    xs = set(re.findall(r'%(\S+) = load ptr, ptr %' + re.escape(pool) + r',', text))
    cs = {}
    for c, p, x in re.findall(r'%(\S+) = icmp (eq|ne) ptr %(\S+), null', text):
        if x in xs:
            cs[c] = p == 'eq'
    if not cs:
        raise Unsupported("no test of the thread pool")

    def f(m):
        return m.group(0) if m.group(1) not in cs else f"br label {m.group(2) if cs[m.group(1)] else m.group(3)}"
    return re.sub(r'br i1 %(\S+), label (\S+), label ([^\s,]+)(, !prof !\d+)?', f, text)


LOCAL = re.compile(r'%("[^"]+"|[\w.$-]+)')


def inline(text, bodies):
    """functions of the crate that take the thread pool along are read in place; bodies: the text of a function by its name"""
    for n in range(8):
        text = glue.lower(text)
        head, blocks = split(text)
        for bi, (b, ls) in enumerate(blocks):
            for k, l in enumerate(ls):
                m = re.match(r'^\s+(?:tail |musttail )?call (?:fastcc )?void @([\w.$]+)\((.*)\)', l)
                if not m:
                    continue
                body = bodies(m.group(1))
                if body is None:
                    continue
                return inline(put(head, blocks, bi, k, args_of(m.group(2)), body, f"in{n}.{bi}."), bodies)
        return text


def args_of(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            d += ch in '([{<'
            d -= ch in ')]}>'
            if ch == ',' and not d:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [VALUE.search(x).group(0) for x in out]


VALUE = re.compile(r'(%"[^"]+"|%[\w.$-]+|@[\w.$]+|-?\d+|true|false|null|poison|undef|[a-z]+ \(.*\))$')


def put(head, blocks, bi, k, vals, body, pre):
    """the call at line k of block bi replaced by the body"""
    b, ls = blocks[bi]
    body = glue.lower(body)
    ps = [n for _, n in ir.parse_function(body)[1]]
    if len(ps) != len(vals):
        raise Unsupported("arguments of a call in place")
    m = dict(zip(ps, vals))
    _, inner = split(body)
    labels = {x for x, _ in inner}

    def ren(t):
        q = name(t.group(0))
        if q in m and q not in labels:
            return m[q]
        return f'%"{pre}{q}"' if not re.fullmatch(r'[\w.$-]+', q) else '%' + pre + q
    after = pre + 'after'
    new = []
    for x, xl in inner:
        lab = LABEL.match(xl[0])
        out = [f'"{pre}{x}":' if '"' in lab.group(1) or not re.fullmatch(r'[\w.$-]+', x) else f'{pre}{x}:']
        for l in xl[1:]:
            if l.strip() == '}':
                continue
            if re.match(r'^\s+ret void', l):
                out.append(f'  br label %{after}')
                continue
            out.append(LOCAL.sub(ren, l))
        new.append((pre + x, out))
    q0 = f'%"{b}"' if not re.fullmatch(r'[\w.$-]+', b) else '%' + b
    blocks = [(x, [l.replace(f', {q0} ]', f', %{after} ]') if ' = phi ' in l else l for l in xl]) for x, xl in blocks]
    ls = blocks[bi][1]
    tail = [f'{after}:'] + ls[k + 1:]
    first = new[0][0]
    fq = f'%"{first}"' if not re.fullmatch(r'[\w.$-]+', first) else '%' + first
    blocks[bi:bi + 1] = [(b, ls[:k] + [f'  br label {fq}'])] + new + [(after, tail)]
    return '\n'.join(head + [l for _, xl in blocks for l in xl])


class PFn(glue.GFn):
    """a function that hands rows to kernels.  view: what is known of the images it is given"""

    def __init__(self, text, globs=None, view=None):
        self.view = view
        super().__init__(text, globs)

    def arg(self, n, ty):
        t = self.view.bind.get(n) if self.view is not None else None
        return super().arg(n, ty) if t is None else t

    def run(self):
        self.handed, self.made, self.dropped, self.bounded = [], [], [], []
        self.fnptr = {}
        return super().run()

    # ---------------------------------------------------------- the images
    def read(self, b, ty, p):
        base, off = self.address(p)
        if self.view is not None and base.op == 'sym' and set(off) <= {()}:
            t = self.view.field(self, base, off.get((), 0), ty)
            if t is not None:
                return t
            if base.x == self.view.fw and off.get((), 0) == 48 and ty == ('i', 64):
                return super().read(b, ty, add(base, C(64, 56)))
        return super().read(b, ty, p)

    def step(self, b, i):
        if i.op == 'select' and i.ty == ('ptr',):
            c = self.const(i.a[0], i.x)
            x, y = self.const(i.a[1], i.ty), self.const(i.a[2], i.ty)
            self.env[i.res] = x if x is y or (isc(c) and c.x) else y if isc(c) else gen('select', 64, c, x, y)
            return
        super().step(b, i)
        if i.op == 'icmp' and self.view is not None:
            t = self.env[i.res]
            if not isinstance(t, list) and t.op == 'icmp' and t.x in ('eq', 'ne'):
                x, y = t.a
                if any(p.op == 'sym' and p.x in self.view.kernels and isc(q) and not q.x for p, q in ((x, y), (y, x))) or any((p is y and isc(x) or p is x and isc(y)) and (y if p is x else x).x == 0 for p in self.view.nonzero):
                    self.env[i.res] = C(1, t.x == 'ne')

    def bin(self, op, x, y, fl):
        if op in ('udiv', 'urem') and self.view is not None and not isinstance(x, list):
            r = self.view.quotient(self, op, x, y)
            if r is not None:
                return r
        return super().bin(op, x, y, fl)

    def call(self, b, i):
        f, args = i.x
        if re.search(r'\bcall [^@(]*%', i.line.split('(')[0]):
            if i.res is not None:
                raise Unsupported("indirect call with a result")
            self.handed.append((b, self.env[f], [(t, self.const(v, t)) for t, v in args], self.snap(b, args)))
            return
        if f.endswith('___rust_dealloc'):
            base, off = self.address(self.const(args[0][1], args[0][0]))
            if off:
                raise Unsupported("part of an object is freed")
            self.dropped.append((b, base))
            return
        if f.startswith('llvm.umul.with.overflow.i64'):
            x, y = [self.const(v, t) for t, v in args]
            self.bounded.append((b, pmul(poly(x), poly(y))))
            self.env[i.res] = (mul(x, y), C(1, 0))
            return
        if f.startswith('llvm.') or 'std_detect' in f or self.blocks[b][-1].op == 'unreachable':
            return super().call(b, i)
        c = converter(ir.short(f))
        if c:
            self.convert(b, c, [self.const(v, t) for t, v in args])
            return
        if i.res is None:
            self.handed.append((b, mk('sym', 64, (), '@' + f), [(t, self.const(v, t)) for t, v in args], self.snap(b, args)))
            return
        return super().call(b, i)

    def snap(self, b, args):
        """what the stack objects among the arguments hold"""
        out = {}
        for t, v in args:
            if t == ('ptr',):
                base, off = self.address(self.const(v, t))
                if base.op == 'alloca' and not off and 16 <= self.asize[base.id]:
                    try:
                        out[base.id] = [self.aread(base, K(o) if o else {}, 8, b) for o in range(0, min(80, self.asize[base.id]), 8)]
                    except Unsupported:
                        out[base.id] = None
        return out

    def convert(self, b, kind, args):
        """what the contracts of numerical_approximation and of the copy give: same windows, same numbers of weights"""
        d, doff = self.address(args[0])
        s, soff = self.address(args[-1])
        if d.op != 'alloca' or doff or soff or self.asize[d.id] < 80:
            raise Unsupported("conversion of weights of something else")
        if s.op == 'alloca':
            fs = [self.aread(s, K(o) if o else {}, 8, b) for o in range(0, 80, 8)]
        else:
            fs = [load(s, K(56 if o == 48 else o) if o else {}, 8) for o in range(0, 80, 8)]
        for o in range(0, 80, 8):
            if o in (16, 40, 48, 64):
                t = fs[o // 8]
            elif o == 56:
                t = fs[6] if kind != 'copy' else fs[7]
            else:
                t = mk('sym', 64, (), f"#made {d.x}.{o}")
                if o in (8, 32):
                    self.ptrs.add(t.id)
            BYID[t.id] = t
            for k in range(8):
                self.keep(d, o + k, ext(t, 8 * k, 8), b)
        self.made.append((b, d, s, fs, kind))


def converter(short):
    import registry
    if registry.CONVERT.search(short):
        return int(registry.CONVERT.search(short).group(1), 16)
    if 'PasshroughWeightsConverter' in short and short.endswith('15prepare_weights>'):
        return 'copy'
    return None


class View:
    """source and destination images: stride given (1) or 0, which stands for rows without padding"""

    def __init__(self, n, es, ed, horizontal, sgiven, dgiven):
        self.n, self.es, self.ed = n, es, ed
        ws, wd = ('#Ws', '#Wd') if horizontal else ('#W', '#W')
        hs, hd = ('#H', '#H') if horizontal else ('#Hs', '#Hd')
        self.img = {}
        self.sides = {}
        for side, w, h, given in (('src', ws, hs, sgiven), ('dst', wd, hd, dgiven)):
            W, H = S(w), S(h)
            if given:
                st = S('#S' + side)
                sp = atom(st)
            else:
                st, sp = mul(W, C(64, n)), pscale(atom(W), n)
            self.sides[side] = dict(w=W, h=H, stride=sp, field=st if given else C(64, 0), len=mul(st, H), given=given, term=st)
        self.names, self.bind, self.kernels, self.fw = {}, {}, set(), None
        self.nonzero = [d['field'] for d in self.sides.values() if d['given']]

    def field(self, f, base, off, ty):
        side = self.names.get(base.x)
        if side is None:
            return None
        d = self.sides[side]
        if ty == ('ptr',):
            return None
        t = {16: d['len'], 32: d['w'], 40: d['h'], 48: d['field']}.get(off)
        if t is not None and ty != ('i', 64):
            raise Unsupported("field of an image")
        return t

    def over(self, p, s):
        """p / s, exactly, for the stride s of an image"""
        if not p:
            return {}
        (m, c), = s.items()
        out = {}
        for k, v in p.items():
            k = list(k)
            for a in m:
                if a not in k:
                    return None
                k.remove(a)
            if v % c:
                return None
            out[tuple(k)] = v // c
        return out

    def quotient(self, f, op, x, y):
        L, D = poly(x), poly(y)
        for d in self.sides.values():
            s = d['stride']
            if set(s) != set(D) or any(D[m] % s[m] for m in s):
                continue
            c = [D[m] // s[m] for m in s][0]
            q = self.over(L, s)
            if q is None or c < 1:
                continue
            t = term(q)
            if t is None:
                continue
            f.bounded.append((None, pscale(s, c)))
            u = gen('udiv', 64, t, C(64, c)) if c > 1 else t
            BYID[u.id] = u
            if op == 'udiv':
                return u
            return mul(d['term'], sub(t, mul(u, C(64, c))))
        return None

    def facts(self, z):
        out = []
        big = 1 << 56
        for d, e in ((self.sides['src'], self.es), (self.sides['dst'], self.ed)):
            W, H = z.var(d['w'].id), z.var(d['h'].id)
            s = z.lin(d['stride'])
            L = z.lin(pmul(d['stride'], atom(d['h'])))
            out += [W >= 1, H >= 1, s >= self.n * W, s <= L, H <= L, L * e <= big]
        return out


def nth(ns, i):
    """the name of an argument; where the compiler left only a number, a slice of the destination stands there"""
    if re.fullmatch(r'\d+', ns[i]):
        if ns[i:] == ['0'] and ns.count('0') == 1 and ('filter_weights' in ns or 'weight.0' in ns) and 'bit_depth' not in ns:
            return 'bit_depth'
        if ns.count('dst.0') == 0 and [x for x in ns if re.fullmatch(r'\d+', x)] == ['0', '1']:
            return ('dst.0', 'dst.1')[int(ns[i])]
        raise Unsupported("argument without a name")
    return ALIAS.get(ns[i], ns[i])


CALL = re.compile(r'^\s+(?:tail |musttail |notail )?call (?:fastcc )?void @([\w.$]+)\((.*)\)')


def handoff(text, names, find):
    """a kernel that may leave the work to another one: what is left of it, and to which.  The calls hand on the arguments
    under their names, before anything is written; what returns right after is cut off, elsewhere the rest has to do all of
    the work again"""
    text = prune(glue.lower(text))
    args = {ALIAS.get(n, n): '%' + n for _, n in ir.parse_function(text)[1]}
    to = []
    while True:
        head, blocks = split(text)
        by = dict(blocks)
        nx = {b: [name(x) for l in ls if re.match(r'^\s+(br|switch) ', l) or re.match(r'^\s+i\d+ -?\d+, label', l)
                  for x in re.findall(r'label (%"[^"]+"|%[^\s,\]]+)', l)] for b, ls in blocks}
        pr = {}
        for b, ys in nx.items():
            for y in ys:
                pr.setdefault(y, set()).add(b)

        def works(ls):
            return any(re.match(r'^\s+store ', l) or CALL.match(l) and find(CALL.match(l).group(1)) for l in ls)
        hit = next(((b, k, CALL.match(l)) for b, ls in blocks for k, l in enumerate(ls) if CALL.match(l) and find(CALL.match(l).group(1))), None)
        if hit is None:
            return text, to
        b, k, m = hit
        ns, vs = names(m.group(1)), args_of(m.group(2))
        if len(ns) != len(vs):
            raise Unsupported("arguments of a call")
        for i, v in enumerate(vs):
            if not ns[i].startswith('_') and v != 'poison' and v != args.get(nth(ns, i)):
                raise Unsupported(f"{nth(ns, i)} is handed on as {v}")
        before, st = set(), [b]
        while st:
            for p in pr.get(st.pop(), ()):
                if p not in before:
                    before.add(p)
                    st.append(p)
        if b in before or works(by[b][:k]) or any(works(by[p]) for p in before):
            raise Unsupported("work before it is handed on")
        to.append(m.group(1))
        after, st = set(), [b]
        while st:
            for y in nx[st.pop()]:
                if y not in after:
                    after.add(y)
                    st.append(y)
        if works(by[b][k + 1:]) or any(works(by[p]) for p in after):
            del by[b][k]                    # the rest overwrites what the other kernel wrote
            text = '\n'.join(head + [l for _, ls in blocks for l in ls])
            continue
        dead, st = set(), [b]
        while st:
            y = st.pop()
            for p in pr.get(y, ()):
                dead.add((p, y))
                if len(set(nx[p])) == 1 or all((p, z) in dead for z in nx[p]):
                    st.append(p)
        if not dead or any(p not in by for p, _ in dead) or all((blocks[0][0], y) in dead for y in nx[blocks[0][0]]):
            raise Unsupported("nothing but handed on")
        text = prune(text, dead)


class Hand:
    """the kernels a function is, or hands its arguments on to: once, whatever way it goes, under the same names"""

    def __init__(self, text, names, find):
        self.text, self.names, self.find = text, names, find
        self.memo = {}

    def kernels(self, x, deep=0):
        """-> {(name, configuration) or (name, None) for a function without a contract}"""
        if x in self.memo:
            return self.memo[x]
        e = self.find(x)
        if e is None and deep < 4:
            try:
                out = set()
                for y in self.forwards(x):
                    out |= self.kernels(y, deep + 1)
            except (Unsupported, ir.Bad):
                out = {(x, None)}
        else:
            out = {(x, e)}
        self.memo[x] = out
        return out

    def forwards(self, x):
        text = self.text(x)
        if text is None:
            raise Unsupported("no body")
        f = PFn(text)
        f.run()
        if any(f.latches[b] for b in f.rpo) or any(a[1] == 'store' for a in f.acc) or f.made or f.dropped:
            raise Unsupported("more than a call")
        mine = {ALIAS.get(n, n): f.env[n] for _, n in f.args}
        n, out = {}, set()
        for b, t, args, snap in f.handed:
            n[b] = n.get(b, 0) + 1
            for y in targets(t, f):
                ns = self.names(y[1:]) if y[0] == '@' else None
                if ns is None or len(ns) != len(args):
                    raise Unsupported("call")
                used = [i for i, q in enumerate(ns) if not q.startswith('_')]
                for i in used:
                    q = nth(ns, i)
                    if not (args[i][1].op == 'poison' or mine.get(q) is args[i][1]):
                        raise Unsupported(f"{q} is handed on as {show(args[i][1], 3)}")
                out.add(y[1:])
        # every way makes one call
        seen = {}
        for b in f.rpo:
            c = {seen[p] for p in f.pred[b] if p in seen} or {0}
            if len(c) != 1:
                raise Unsupported("calls differ from way to way")
            seen[b] = c.pop() + n.get(b, 0)
            if f.blocks[b][-1].op == 'ret' and seen[b] != 1 or f.blocks[b][-1].op == 'unreachable':
                raise Unsupported("no call, or several")
        return out


def term(p):
    t = C(64, 0)
    for m, c in sorted(p.items()):
        x = C(64, c % (1 << 64))
        for a in m:
            x = mul(x, BYID[a])
        t = add(t, x)
    return t if poly(t) == {k: v for k, v in p.items() if v} else None


def targets(t, f, seen=None):
    """the functions a pointer may be"""
    seen = set() if seen is None else seen
    if t.id in seen:
        return set()
    seen.add(t.id)
    if t.op == 'sym' and isinstance(t.x, str) and t.x.startswith('@'):
        return {t.x}
    if t.op == 'select':
        return targets(t.a[1], f, seen) | targets(t.a[2], f, seen)
    if t.op == 'phi':
        b, r, _ = t.x
        out = set()
        for i in f.phis[b]:
            if i.res == r:
                for v, _ in i.a:
                    out |= targets(f.const(v, i.ty), f, seen)
        return out
    if t.op == 'sym':
        return {'%' + str(t.x)}
    raise Unsupported(f"kernel {show(t, 3)}")


class Module:
    """what passes need to know of the rest of the crate"""

    def __init__(self, fns, find):
        self.fns, self.registered = fns, find
        self.hand = Hand(fns.get, self.names, lambda x: True if find(ir.short(x)) else None)
        self.memo = {}

    def names(self, x):
        if x not in self.memo:
            self.memo[x] = [n for _, n in ir.parse_function(glue.lower(self.fns[x]))[1]] if x in self.fns else None
        return self.memo[x]

    def bodies(self, x):
        """functions that are read in place: those of the crate that get the thread pool"""
        ns = self.names(x)
        return self.fns[x] if ns and ('pool' in ns or 'is_parallel' in ns) and 'pic_scale' in x and not re.search('rayon|Job', ir.short(x)) else None

    def consts(self, n, x, seen=None):
        """the functions a local of function n may be"""
        seen = set() if seen is None else seen
        if x.startswith('@'):
            return {x[1:]}
        if x in seen:
            return set()
        seen.add(x)
        for y in self.fns[n].split('\n'):
            m = re.match(r'\s+' + re.escape(x) + r' = (phi ptr |select i1 [^,]+, )(.*)', y)
            if m:
                vs = [v for v in re.findall(r'\[ ([^,]+), ', m[2])] if m[1].startswith('phi') else re.findall(r'ptr ([^,\s]+)', m[2])
                out = set()
                for v in vs:
                    r = self.consts(n, v, seen)
                    if r is None:
                        return None
                    out |= r
                return out
        return None

    def passed(self, f, i):
        """the functions that are argument i of the calls of f"""
        out = set()
        for n, t in self.fns.items():
            if '@' + f + '(' not in t:
                continue
            for l in t.split('\n'):
                m = re.search(r'(?:call|invoke) [^@]*@' + re.escape(f) + r'\((.*)\)', l)
                if m:
                    r = self.consts(n, args_of(m.group(1))[i])
                    if r is None:
                        return None
                    out |= r
        return out


MODULE = None


def left(name, text, cfg):
    """what a kernel does itself, if it may leave the work to another kernel of the same contract"""
    keys = ('es', 'ed', 'ew', 'rows')
    if not any(x != name and x in MODULE.fns and MODULE.registered(ir.short(x)) for x in re.findall(r' @([\w.$]+)\(', text.split('\n', 1)[1])):
        return text
    text, to = handoff(text, MODULE.names, lambda x: x != name and MODULE.registered(ir.short(x)) is not None)
    for x in to:
        c = MODULE.registered(ir.short(x))[1]
        if any(c[k] != cfg[k] for k in keys) or c['ch'] not in (1, cfg['ch']) or c.get('bias') != cfg.get('bias') or c.get('maxdepth') != cfg.get('maxdepth'):
            raise Unsupported(f"work is left to {ir.short(x)}")
    return text


class Cases:
    """the contract, one image layout after the other"""
    WHOLE = True

    def __init__(self, name, text, globs, cfg):
        self.text, self.globs = text, globs
        self.c = dict(cfg, names=MODULE.names, bodies=MODULE.bodies, passed=lambda i: MODULE.passed(name, i))
        self.z = type('z', (), {'queries': 0})()

    def prove(self, only=None):
        total = Ob()
        for sg in (1,) if self.c.get('slices') else (1, 0):
            for dg in (1,) if self.c.get('slices') else (1, 0):
                sym.clear()
                p = Pass(self.text, self.globs, dict(self.c, sgiven=sg, dgiven=dg))
                ob = p.prove(only)
                self.z.queries += p.z.queries
                for x in ob.ok:
                    total.ok.append(x)
                total.bad += [(x[0], f"strides {sg}{dg}: " + x[1], *x[2:]) for x in ob.bad]
                if ob.bad:
                    return total
        # one entry for each obligation
        by = {}
        for x in total.ok:
            by[x[0]] = by.get(x[0], 0) + (x[1] or 0)
        total.ok = list(by.items())
        return total


class Pass(Kernel):
    def __init__(self, text, globs, cfg):
        self.c = cfg
        self.h = cfg['horizontal']
        text = glue.lower(text)
        _, args, _ = ir.parse_function(text)
        ps = [n for t, n in args if t == ('ptr',) and n.strip('_') == 'pool']
        if len(ps) != 1:
            raise Unsupported("which argument is the thread pool")
        text = inline(prune(alone(text, ps[0])), cfg['bodies'])
        if re.search(r'load ptr, ptr %' + re.escape(ps[0]) + r',', text):
            text = alone(text, ps[0])
        text = prune(text)
        self.view = View(cfg['ch'], cfg['es'], cfg['ed'], self.h, cfg['sgiven'], cfg['dgiven'])
        self.given_kernels = {}
        if cfg.get('slices'):
            order = ['src', None, 'ss', 'fw', 'dst', None, 'ds', 'pool'] + ([] if self.h else ['width'])
            if len(args) != len(order) or args[7][1] != ps[0] or [t[0] for t, _ in args] != ['ptr', 'i', 'i', 'ptr', 'ptr', 'i', 'i', 'ptr', 'i'][:len(order)]:
                raise Unsupported("arguments of a pass over slices")
            v, an = self.view, [n for _, n in args]
            v.bind = {an[1]: v.sides['src']['len'], an[2]: v.sides['src']['term'], an[5]: v.sides['dst']['len'], an[6]: v.sides['dst']['term']}
            if not self.h:
                v.bind[an[8]] = v.sides['dst']['w']
            ptr = [an[0], an[3], an[4]]
        else:
            ptr = [n for t, n in args if t == ('ptr',) and n != ps[0]]
            self.given_kernels = {n: cfg['passed'](i) for i, (t, n) in enumerate(args) if t == ('ptr',) and n in ptr[3:]}
            if len(ptr) < 3 or any(not x for x in self.given_kernels.values()) or [n for t, n in args if t == ('ptr',)] != ptr[:3] + [ps[0]] + ptr[3:]:
                raise Unsupported("arguments of a pass")
            self.view.names = {ptr[0]: 'src', ptr[2]: 'dst'}
            self.view.kernels = set(self.given_kernels)
        self.fwname = self.view.fw = ptr[1]
        self.pool = ps[0]
        for _ in range(12):
            f = PFn(text, globs, self.view)
            f.run()
            v = VC(f)
            v.base = self.view.facts(v.z)
            for h in f.cut:
                v.inv[h] = []
            dead = []
            for (p, q), e in f.edge.items():
                if isc(e) and not e.x or not isc(e) and v.z.proves(v.efacts(p, q), z3.BoolVal(False)):
                    dead.append((p, q))
            if not dead:
                break
            text = prune(text, dead)
        else:
            raise Unsupported("branches that are never taken")
        sym.clear_keep() if hasattr(sym, 'clear_keep') else None
        self.f = PFn(text, globs, self.view)
        self.f.find_ivs()
        self.args = {n: self.f.env[n] for _, n in self.f.args}
        self.src, self.dst, self.fw = self.args[ptr[0]], self.args[ptr[2]], self.args[self.fwname]
        self.es, self.ed, self.ch = cfg['es'], cfg['ed'], cfg['ch']
        self.rows, self.dst_stride, self.loose = 1, None, set()
        self.calls = self.resolve()
        self.out_len = atom(self.view.sides['dst']['h'])

    def resolve(self):
        """the calls of kernels, by the names of the kernels' arguments"""
        out = []
        for b, t, args, snap in self.f.handed:
            fs = {y for x in targets(t, self.f) for y in ([x[1:]] if x[0] == '@' else self.given_kernels.get(x[1:], [None]))}
            if None in fs:
                raise Unsupported("unknown kernel")
            names = {tuple(ALIAS.get(n, n) for n in self.c['names'](x) or ()) for x in fs}
            used = {ALIAS.get(n, n) for x in fs for n in self.c['names'](x) or () if not n.startswith('_')}
            if len(names) != 1 or not fs:
                raise Unsupported("kernels of different arguments")
            (ns,) = names
            if len(ns) != len(args) or len(set(ns)) != len(ns):
                raise Unsupported("arguments of a kernel")
            out.append((b, fs, {n: v for n, (_, v) in zip(ns, args) if n in used}, snap))
        return out

    def prove(self, only=None):
        ob = Ob()
        self.vc = glue.HVC(self.f, [], [atom(self.view.sides['dst']['h'])])
        self.z = z = self.vc.z
        z.tight, z.alone = True, True
        try:
            self.vc.base = self.pre()
        except (Fail, Unsupported) as e:
            ob.bad.append(("precondition", str(e)[:300], False))
            return ob
        ob.add("invariants", lambda: (self.vc.houdini(), sum(map(len, self.vc.inv.values())))[1])
        if ob.bad:
            return ob
        for n, g in (("not vacuous", self.live), ("no panic", self.panics), ("memory", self.memory),
                     ("every row handed on once", self.progress), ("arguments of the kernels", self.values)):
            ob.add(n, g)
        return ob

    def pre(self):
        z, f = self.z, self.f
        out = self.view.facts(z)
        self.A, self.wl, self.bl = [load(self.fw, K(o), 8) for o in (56, 16, 40)]
        for t in (self.A, self.wl, self.bl):
            BYID[t.id] = t
        need = self.view.sides['dst']['w' if self.h else 'h']
        A, wl, bl = [z.var(t.id) for t in (self.A, self.wl, self.bl)]
        kk = load(self.fw, K(48), 8)
        BYID[kk.id] = kk
        out += [A >= 1, bl == z.var(need.id), A == z.var(kk.id), wl == z.lin(pmul(atom(self.A), atom(need))), wl <= 1 << 56]
        # what comparisons of multiples of a stride say
        for p in self.vc.compares():
            for d in (self.view.sides['src'], self.view.sides['dst']):
                q = self.view.over(p, d['stride'])
                if q:
                    s = d['stride']
                    for c in (-1, 0, 1, 2):
                        e = padd(q, K(c)) if c else q
                        out.append((z.lin(pmul(s, e)) >= 0) == (z.lin(e) >= 0))
        for x, y in self.pairs():
            p = psub(poly(x), poly(y))
            for d in (self.view.sides['src'], self.view.sides['dst']):
                q = self.view.over(p, d['stride'])
                if q:
                    for c in (-1, 0, 1):
                        e = padd(q, K(c)) if c else q
                        out.append((z.lin(pmul(d['stride'], e)) >= 0) == (z.lin(e) >= 0))
        return out

    def pairs(self):
        out, st, seen = [], list(self.f.edge.values()), set()
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'icmp' and t.a[0].w == 64:
                out.append(t.a)
            if t.w == 1:
                st += t.a
        return out

    # ---------------------------------------------------------- what is touched here
    def region(self, kind, base, off, n):
        o = self.z.lin(off)
        if kind == 'load' and base in (self.src, self.dst, self.fw):
            return z3.And(o >= 0, o + n <= 80)
        if kind == 'load' and base.op == 'sym' and (base.x.startswith('@') or base.x == self.pool):
            return None
        if kind == 'load' and self.bounds_of(base) is not None:
            return z3.And(o >= 0, o + n <= 16 * self.z.var(self.bl.id))
        raise Fail(f"{kind} through {show(base)}")

    def memory(self):
        n = super().memory()
        for b, p in self.f.bounded:
            n += 1
            e = self.z.lin(p)
            if not self.z.proves(self.vc.facts(b) if b else self.vc.base, z3.And(e >= 0, e < 1 << 64)):
                raise Fail(f"{pshow(p)} may wrap")
        for b, base in self.f.dropped:
            if self.bounds_of(base) is None and self.weights_of(base) is None:
                raise Fail(f"{show(base)} is freed")
            after, st = {b}, [b]
            while st:
                for y in self.f.succ[st.pop()]:
                    if y not in after:
                        after.add(y)
                        st.append(y)
            for c, fs, a, s in self.calls:
                n += 1
                if c in after and any(base is x for x in self.uses(a, c, s)):
                    raise Fail("a kernel is called after the weights are freed")
        return n

    def uses(self, a, b, snap):
        """the memory of the weights and of the windows a kernel gets"""
        if not self.h:
            base, off = self.f.address(a['bounds'])
            w = snap.get(base.id) if base.op == 'alloca' else None
            return [self.f.address(a['weight.0'])[0]] + [t.a[0] for t in w or () if t.op == 'ld'] + ([base] if w is None else [])
        base, off = self.f.address(a['filter_weights'])
        made = [d for _, d, *_ in self.f.made if d is base]
        if made:
            return [mk('sym', 64, (), f"#made {base.x}.{o}") for o in (8, 32)]
        return [load(self.fw, K(o), 8) for o in (8, 32)]

    def bounds_of(self, base):
        if base is load(self.fw, K(32), 8):
            return 'given'
        for b, d, s, fs, kind in self.f.made:
            if base.op == 'sym' and base.x == f"#made {d.x}.32":
                return d
        return None

    def weights_of(self, base):
        if base is load(self.fw, K(8), 8):
            return 'given'
        for b, d, s, fs, kind in self.f.made:
            if base.op == 'sym' and base.x == f"#made {d.x}.8":
                return d
        return None

    def fixed16(self, a, b):
        """the bits of precision of the weights a kernel gets; 0: floats"""
        if self.h:
            base, off = self.f.address(a['filter_weights'])
            ks = [kind for _, d, s, fs, kind in self.f.made if d is base]
        else:
            obj = self.weights_of(self.f.address(a['weight.0'])[0])
            ks = [kind for _, d, s, fs, kind in self.f.made if d is obj]
        return 0 if not ks or ks[0] == 'copy' else ks[0]

    def fit(self, fs, a, b):
        """the kernels that may be called here are kernels for these samples, weights and numbers of rows"""
        import registry
        n, bits = 0, self.fixed16(a, b)
        for x in sorted(fs):
            for y in sorted(y for y, _ in MODULE.hand.kernels(x)):
                sh = ir.short(y)
                e = MODULE.registered(sh)
                if e is None:
                    if not registry.plain(sh):
                        raise Fail(f"{sh} is no kernel with a contract")
                    self.loose.add(sh)
                    continue
                n += 1
                c = e[1]
                want = dict(es=self.es, ed=self.ed, rows=self.count(a), ew=2 if bits else 4)
                if self.h:
                    want['ch'] = self.ch
                for k in ('type', 'order'):
                    if k in self.c or k in c:
                        want[k] = self.c.get(k)
                bad = [k for k in want if c.get(k) != want[k]]
                bias = c.get('bias') if not isinstance(c.get('bias'), tuple) else c['bias'][0]
                if bits and (not bias or bias.bit_length() + c.get('scaled', 0) != bits):
                    bad.append('precision')
                if self.h != issubclass(e[0], (Horizontal, HReal)):
                    bad.append('axis')
                if bad:
                    raise Fail(f"{sh} is a kernel of another {', '.join(bad)}")
        return n

    def depth_of(self, t):
        """the bit depth a kernel gets is that of the destination; the fixed point kernels of 16 bits are for at most 12"""
        d = load(self.dst, K(56), 8)
        BYID.setdefault(d.id, d)
        if not (t is d or t is ext(d, 0, 32)):
            raise Fail(f"bit depth is {show(t, 3)}")
        return self.z.var(d.id) <= 12

    # ---------------------------------------------------------- rows
    def rowof(self, side, off, b):
        d = self.view.sides[side]
        e = divp(off, self.es if side == 'src' else self.ed)
        q = None if e is None else self.view.over(e, d['stride'])
        if q is None and e is not None:
            q = self.view.over(self.settled(e, b), d['stride'])
        if q is None:
            raise Fail(f"{side} at {pshow(off)}: not the start of a row")
        return q

    def image(self, side, t, b):
        base, off = self.f.address(t)
        d = getattr(self, side) if self.c.get('slices') else load(getattr(self, side), K(8), 8)
        if base is not d:
            raise Fail(f"{side} is {show(base)}")
        return off

    def inside(self, d, off, es, n):
        """offset off and n elements are inside of an image: of strides, or of elements"""
        z, s = self.z, d['stride']
        def ge(p):
            q = self.view.over(p, s)
            return z.lin(p) >= 0 if q is None else z.lin(q) >= 0
        o = divp(off, es)
        if o is None:
            raise Fail("offset of a slice")
        end = padd(o, poly(n))
        left = psub(pmul(s, atom(d['h'])), end)
        g = ge(left)
        if self.view.over(left, s) is None and self.view.over(o, s) is not None:
            # the last row may be shorter than its stride
            g = z3.Or(g, z3.And(z.lin(psub(atom(d['h']), self.view.over(o, s))) >= 1, z.valT(n) <= z.lin(s)))
        return z3.And(ge(o), ge(poly(n)), g)

    def count(self, a):
        return 4 if 'dst_stride' in a else 1

    def stores(self):
        out = []
        for b, fs, a, snap in self.calls:
            k = self.count(a)
            if 'dst.0' not in a or 'src.0' not in a:
                raise Unsupported(f"a call of {', '.join(ir.short(x)[-60:] for x in fs)}")
            r = self.rowof('dst', self.image('dst', a['dst.0'], b), b)
            out.append((b, 0, r, [C(8, 0)] * k, None))
        return out

    def values(self):
        z, n = self.z, 0
        for b, fs, a, snap in self.calls:
            g = self.vc.facts(b)
            n += self.fit(fs, a, b)

            def need(what, goal):
                nonlocal n
                n += 1
                if not z.proves(g, goal):
                    raise Fail(f"{what} ({', '.join(sorted(ir.short(x)[-60:] for x in fs))})")
            lack = [x for x in ('src.0', 'src.1', 'dst.0', 'dst.1') + (('filter_weights',) if self.h else ('bounds', 'weight.0', 'weight.1')) if x not in a]
            if lack:
                raise Unsupported(f"a kernel without {lack}: {', '.join(ir.short(x)[-60:] for x in fs)}")
            S_, D_ = self.view.sides['src'], self.view.sides['dst']
            ss, ds = z.lin(S_['stride']), z.lin(D_['stride'])
            sl, dl = z.valT(a['src.1']), z.valT(a['dst.1'])
            ro = self.rowof('dst', self.image('dst', a['dst.0'], b), b)
            off = self.image('src', a['src.0'], b)
            k = self.count(a)
            need("source slice is inside of the image", self.inside(S_, off, self.es, a['src.1']))
            need("destination slice is inside of the image", self.inside(D_, self.image('dst', a['dst.0'], b), self.ed, a['dst.1']))
            if 'src_stride' in a:
                need("source stride", z.valT(a['src_stride']) == ss)
            if 'dst_stride' in a:
                need("destination stride", z.valT(a['dst_stride']) == ds)
            ws, wd = z.var(S_['w'].id), z.var(D_['w'].id)
            if 'dst_width' in a:
                need("width of the destination", z.valT(a['dst_width']) == wd)
            if 'src_width' in a:
                need("width of the source", z.valT(a['src_width']) == ws)
            if 'bit_depth' in a:
                g12 = self.depth_of(a['bit_depth'])
                n += 1
                if self.fixed16(a, b):
                    need("fixed point of at most 12 bits", g12)
            if self.h:
                rs = self.rowof('src', off, b)
                need("row of the source is that of the destination", z.lin(rs) == z.lin(ro))
                need("length of the source slice", sl >= (k - 1) * ss + self.ch * ws)
                need("length of the destination slice", dl >= (k - 1) * ds + self.ch * wd)
                n += self.given(a['filter_weights'], b)
                continue
            if off:
                raise Fail("the source does not start at its first row")
            need("length of the source slice", sl >= z.lin(pmul(S_['stride'], psub(atom(S_['h']), K(1)))) + self.ch * ws)
            need("length of the destination row", dl == self.ch * wd)
            # the window of this row
            base, o = self.f.address(a['bounds'])
            if base.op == 'alloca':
                w = snap.get(base.id)
                if not w or o:
                    raise Fail("window on the stack")
                ok = []
                for j in (0, 1):
                    t = w[j]
                    if t.op != 'ld' or self.bounds_of(t.a[0]) is None:
                        raise Fail(f"window is {show(t, 3)}")
                    ok.append((self.bounds_of(t.a[0]), padd(dict(t.x[0]), K(-8 * j))))
                if ok[0][0] is not ok[1][0]:
                    raise Fail("windows of different weights")
                obj, o = ok[0][0], ok[0][1]
                need("start and size of one window", z.lin(ok[0][1]) == z.lin(ok[1][1]))
            else:
                obj = self.bounds_of(base)
                if obj is None:
                    raise Fail(f"window at {show(base)}")
            need("window of the row", z.lin(o) == 16 * z.lin(ro))
            self.whole(obj)
            base, o = self.f.address(a['weight.0'])
            obj = self.weights_of(base)
            if obj is None:
                raise Fail(f"weights at {show(base)}")
            ew = self.ew(obj)
            need("weights of the row", z.lin(o) == ew * z.lin(pmul(atom(self.A), ro)))
            need("length of the weights", z3.And(z.valT(a['weight.1']) >= z.var(self.A.id),
                                                 z.lin(divp(o, ew)) + z.valT(a['weight.1']) <= z.var(self.wl.id)))
            self.whole(obj)
        return n

    def ew(self, obj):
        if obj == 'given':
            return 4
        return [2 if kind != 'copy' else 4 for b, d, s, fs, kind in self.f.made if d is obj][0]

    def given(self, t, b):
        """the weights handed to a kernel: those given, a copy on the stack, or what a converter made of them"""
        base, off = self.f.address(t)
        if off:
            raise Fail("weights from inside of an object")
        if base is self.fw:
            return 1
        if base.op != 'alloca':
            raise Fail(f"weights are {show(base)}")
        for _, d, s, fs, kind in self.f.made:
            if d is base:
                if not self.f.dom(_, b):
                    raise Fail("weights may not be made yet")
                self.whole(d)
                return 1
        w = [self.f.aread(base, K(o) if o else {}, 8, b) for o in range(0, 80, 8)]
        self.copied(w)
        return 1

    def copied(self, w):
        for j, o in enumerate(range(0, 80, 8)):
            x = load(self.fw, K(o) if o else {}, 8)
            if o in (8, 16, 32, 40, 48, 56) and w[j] is not x:
                raise Fail(f"field {o} of the weights is {show(w[j], 3)}")

    def whole(self, obj):
        if obj == 'given':
            return
        for b, d, s, fs, kind in self.f.made:
            if d is obj:
                if s.op == 'alloca':
                    self.copied(fs)
                elif s is not self.fw:
                    raise Fail("conversion of other weights")
