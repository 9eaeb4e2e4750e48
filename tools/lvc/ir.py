"""Reader for the LLVM IR text rustc emits (the subset pic-scale's kernels use)."""
import re, struct

TOK = re.compile(r'''c"(?:[^"\\]|\\..)*"|"(?:[^"\\]|\\..)*"|%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|![\w.]*|\#\d+
  |f?0x[HKLMR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[<>\[\](){},=*:|]''', re.X)


class Bad(Exception):
    pass


# types: ('i',w) ('f',w) ('ptr',) ('vec',n,t) ('arr',n,t) ('struct',(t..)) ('void',)
class P:
    def __init__(self, line):
        self.t = TOK.findall(line)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("end of line")
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Bad(f"expected {x} at {self.t[self.i:self.i + 6]}")

    def type(self):
        t = self.next()
        if t is None:
            raise Bad("type")
        if re.fullmatch(r'i\d+', t):
            return ('i', int(t[1:]))
        if t in ('float', 'double', 'half'):
            return ('f', {'half': 16, 'float': 32, 'double': 64}[t])
        if t == 'ptr':
            return ('ptr',)
        if t == 'void':
            return ('void',)
        if t == '<':
            if self.peek() == '{':
                s = self.type()
                self.need('>')
                return s
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need('>')
            return ('vec', n, e)
        if t == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            return ('arr', n, e)
        if t == '{':
            es = []
            while not self.eat('}'):
                es.append(self.type())
                self.eat(',')
            return ('struct', tuple(es))
        raise Bad(f"type {t}")

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nofree', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'inreg',
             'returned', 'nocapture', 'immarg', 'noread', 'nowrite', 'dead_on_unwind', 'writable', 'dead_on_return', 'nest',
             'swiftself', 'allocptr', 'noext'}
    PATTRS = {'captures', 'range', 'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'elementtype',
              'initializes', 'memory', 'nofpclass'}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.next()
            elif t == 'align' and re.fullmatch(r'\d+', self.peek(1) or ''):
                self.i += 2
            elif t in self.PATTRS and self.peek(1) == '(':
                self.i += 2
                d = 1
                while d:
                    x = self.next()
                    d += (x == '(') - (x == ')')
            else:
                return

    # values: ('reg',name) ('int',w,v) ('fp',w,float) ('null',) ('poison',ty) ('undef',ty) ('zero',ty) ('vec',[..]) ('global',name) ('gep',...)
    def value(self, ty):
        t = self.next()
        if t is None:
            raise Bad("value")
        if t[0] == '%':
            return ('reg', t[1:].strip('"'))
        if t[0] == '@':
            return ('global', t[1:].strip('"'))
        if t == 'null':
            return ('null',)
        if t in ('poison', 'undef'):
            return (t, ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t == 'none':
            return ('undef', ty)
        if t in ('true', 'false'):
            return ('int', 1, int(t == 'true'))
        if t == 'splat':
            self.need('(')
            et = self.type()
            v = self.value(et)
            self.need(')')
            return ('vec', [v] * ty[1])
        if t == '<' or t == '[' or t == '{':
            close = {'<': '>', '[': ']', '{': '}'}[t]
            vs = []
            while not self.eat(close):
                et = self.type()
                vs.append(self.value(et))
                self.eat(',')
            return ('vec', vs)
        if t == 'getelementptr':
            while self.peek() != '(':
                self.next()
            self.next()
            et = self.type()
            self.need(',')
            self.type()
            b = self.value(('ptr',))
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(')')
            return ('gepc', et, b, idx)
        if t == 'inttoptr':
            self.need('(')
            it = self.type()
            v = self.value(it)
            self.need('to')
            self.type()
            self.need(')')
            return v
        if ty[0] == 'f':
            if t.startswith('f0x'):
                h = int(t[3:], 16)
                return ('fp', ty[1], struct.unpack({16: '<e', 32: '<f', 64: '<d'}[ty[1]], h.to_bytes(ty[1] // 8, 'little'))[0])
            if t.startswith('0x'):
                h = t[2:]
                if h[0] in 'HKLMR':
                    if h[0] != 'H':
                        raise Bad(t)
                    return ('fp', 16, struct.unpack('<e', struct.pack('<H', int(h[1:], 16)))[0])
                return ('fp', ty[1], struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0])
            return ('fp', ty[1], float(t))
        if ty[0] == 'i':
            return ('int', ty[1], int(t) & ((1 << ty[1]) - 1))
        if t.startswith('c"'):
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), t[2:-1].encode('latin1'))
            return ('vec', [('int', 8, x) for x in b])
        raise Bad(f"value {t} of {ty}")

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res, ty, a, x=None, line=''):
        self.op, self.res, self.ty, self.a, self.x, self.line = op, res, ty, a, x, line


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign',
         'nneg', 'inbounds', 'nusw', 'volatile'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast', 'ptrtoaddr'}


def instr(line):
    p = P(line)
    res = None
    if p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    fl = set()

    def flags():
        while p.peek() in FLAGS:
            fl.add(p.next())
    if op in BIN:
        flags()
        ty = p.type()
        a = p.value(ty)
        p.need(',')
        return Ins(op, res, ty, [a, p.value(ty)], fl, line)
    if op == 'fneg':
        flags()
        ty = p.type()
        return Ins(op, res, ty, [p.value(ty)], fl, line)
    if op in CAST:
        flags()
        ty, v = p.tv()
        p.need('to')
        return Ins(op, res, p.type(), [v], (ty, fl), line)
    if op in ('icmp', 'fcmp'):
        flags()
        pr = p.next()
        if pr in FLAGS:
            pr = p.next()
        ty = p.type()
        a = p.value(ty)
        p.need(',')
        return Ins(op, res, ty, [a, p.value(ty)], pr, line)
    if op == 'select':
        flags()
        c = p.tv()
        p.need(',')
        a = p.tv()
        p.need(',')
        b = p.tv()
        return Ins(op, res, a[0], [c[1], a[1], b[1]], c[0], line)
    if op == 'phi':
        flags()
        ty = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(ty)
            p.need(',')
            b = p.next()[1:].strip('"')
            p.need(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Ins(op, res, ty, inc, None, line)
    if op == 'load':
        flags()
        p.eat('atomic')
        flags()
        ty = p.type()
        p.need(',')
        return Ins(op, res, ty, [p.tv()[1]], None, line)
    if op == 'store':
        flags()
        ty, v = p.tv()
        p.need(',')
        return Ins(op, None, ty, [v, p.tv()[1]], None, line)
    if op == 'getelementptr':
        flags()
        et = p.type()
        p.need(',')
        _, b = p.tv()
        idx = []
        while p.eat(','):
            if p.peek().startswith('!'):
                break
            idx.append(p.tv())
        return Ins(op, res, ('ptr',), [b], (et, idx), line)
    if op == 'br':
        if p.eat('label'):
            return Ins('br', None, None, [], [p.next()[1:].strip('"')], line)
        p.type()
        c = p.value(('i', 1))
        p.need(',')
        p.need('label')
        t = p.next()[1:].strip('"')
        p.need(',')
        p.need('label')
        return Ins('br', None, None, [c], [t, p.next()[1:].strip('"')], line)
    if op == 'switch':
        ty, v = p.tv()
        p.need(',')
        p.need('label')
        d = p.next()[1:].strip('"')
        cs = []
        p.need('[')
        while not p.eat(']'):
            it = p.type()
            k = p.value(it)
            p.need(',')
            p.need('label')
            cs.append((k, p.next()[1:].strip('"')))
        return Ins('switch', None, ty, [v], (d, cs), line)
    if op == 'ret':
        ty = p.type()
        return Ins('ret', None, ty, [] if ty == ('void',) else [p.value(ty)], None, line)
    if op == 'unreachable':
        return Ins(op, None, None, [], None, line)
    if op in ('call', 'invoke'):
        flags()
        while p.peek() in ('fastcc', 'coldcc', 'ccc', 'preserve_mostcc'):
            p.next()
        p.attrs()
        flags()
        ty = p.type()
        if p.peek() == '(':        # function type
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        f = p.next()
        if f == 'asm':
            raise Bad("asm")
        f = f[1:].strip('"')
        p.need('(')
        args = []
        while not p.eat(')'):
            if p.peek() == 'metadata':
                return Ins('call', None, ty, [], ('llvm.metadata', []), line)
            args.append(p.tv())
            p.eat(',')
        x = (f, args)
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.need('label')
            t = p.next()[1:].strip('"')
            p.need('unwind')
            p.need('label')
            return Ins('invoke', res, ty, [], (f, args, t, p.next()[1:].strip('"')), line)
        return Ins('call', res, ty, [], x, line)
    if op == 'insertelement':
        ty, v = p.tv()
        p.need(',')
        _, e = p.tv()
        p.need(',')
        _, i = p.tv()
        return Ins(op, res, ty, [v, e, i], None, line)
    if op == 'extractelement':
        ty, v = p.tv()
        p.need(',')
        _, i = p.tv()
        return Ins(op, res, ty[2], [v, i], ty, line)
    if op == 'shufflevector':
        ty, a = p.tv()
        p.need(',')
        _, b = p.tv()
        p.need(',')
        mt, m = p.tv()
        return Ins(op, res, ('vec', mt[1], ty[2]), [a, b], (ty, mt, m), line)
    if op == 'extractvalue':
        ty, v = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Ins(op, res, None, [v], (ty, ix), line)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.need(',')
        e = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Ins(op, res, ty, [v, e[1]], ix, line)
    if op == 'freeze':
        ty, v = p.tv()
        return Ins(op, res, ty, [v], None, line)
    if op == 'alloca':
        ty = p.type()
        return Ins(op, res, ('ptr',), [], ty, line)
    if op == 'fence':
        return Ins(op, None, None, [], None, line)
    if op in ('landingpad', 'resume', 'cleanup'):
        return Ins(op, res, None, [], None, line)
    raise Bad(f"instruction {op}")


class Func:
    def __init__(self, name, args, ret, blocks, text):
        self.name, self.args, self.ret, self.blocks, self.text = name, args, ret, blocks, text  # args: [(ty,name)]


def parse_function(text):
    lines = text.split('\n')
    h = P(lines[0])
    while h.peek() and not h.peek().startswith('@'):
        h.i += 1
    # return type: re-parse loosely
    name = h.next()[1:].strip('"')
    h.need('(')
    args = []
    while not h.eat(')'):
        ty = h.type()
        h.attrs()
        nm = h.next()[1:].strip('"')
        args.append((ty, nm))
        h.eat(',')
    blocks, cur = {}, None
    buf = ''
    for l in lines[1:]:
        if l.startswith('}'):
            break
        s = l.split(' ; ')[0] if ' ; ' in l and '"' not in l else l
        s = s.rstrip()
        if not s.strip() or s.strip().startswith(';') or s.strip().startswith('#dbg'):
            continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
        if m:
            cur = m.group(1).strip('"')
            blocks[cur] = []
            continue
        if cur is None:
            cur = '%entry'
            blocks[cur] = []
        if buf:
            buf += ' ' + s.strip()
            if s.strip().startswith(']'):
                s, buf = buf, ''
            else:
                continue
        elif s.strip().startswith('switch') and not s.rstrip().endswith(']'):
            buf = s
            continue
        if blocks[cur] and s.strip().startswith('to label') and 'invoke' in blocks[cur][-1]:
            blocks[cur][-1] += ' ' + s.strip()
            continue
        blocks[cur].append(s.strip())
    return name, args, blocks


def load_module(path):
    """-> {symbol: text}, {global: line}"""
    fs, gs = {}, {}
    cur, name = None, None
    for l in open(path, errors='replace'):
        if cur is None:
            if l.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                name = m.group(1).strip('"')
                cur = [l.rstrip('\n')]
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                gs[m.group(1).strip('"')] = m.group(2)
        else:
            cur.append(l.rstrip('\n'))
            if l.startswith('}'):
                fs[name] = '\n'.join(cur)
                cur = None
    return fs, gs


def short(s):
    """v0 mangled symbol -> readable path with const generics kept"""
    m = re.search(r'Cs[0-9a-zA-Z]+_9pic_scale', s)
    if not m:
        return s
    i = m.end()
    ids = []
    while True:
        m = re.match(r'(?:s[0-9a-zA-Z]*_)?(\d+)_?', s[i:])
        if not m:
            break
        n = int(m.group(1))
        st = i + m.end()
        ids.append(s[st:st + n])
        i = st + n
    tail = s[i:]
    tail = re.sub(r'E?B[0-9a-zA-Z]+_$', '', tail)
    return '::'.join(ids) + (('<' + tail + '>') if tail else '')
