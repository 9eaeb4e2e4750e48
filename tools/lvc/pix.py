"""Decide, for every (colour, alpha) of every depth, a per-pixel output term: the term becomes a C function that is run on all of
them.  A reciprocal estimate is run at both ends of its permitted error; the function is shown to be monotone in it."""
import ctypes, hashlib, os, re, subprocess, tempfile
from sym import *
from vc import Fail, Refuted

ERR = {'rcp': 1.5 * 2 ** -12, 'rcp14': 2.0 ** -14}
HEAD = r'''
#include <stdint.h>
#include <math.h>
#include <string.h>
static inline __attribute__((always_inline)) int32_t cvtrn(float x){ float r = rintf(x); return (r >= -2147483648.f && r < 2147483648.f) ? (int32_t)r : INT32_MIN; }
static inline __attribute__((always_inline)) float est(float x, float e){
  float q = (float)((1.0 / (double)x) * (1.0 + (double)e));
  return x == 0.f ? INFINITY : e > 0 ? nextafterf(q, INFINITY) : nextafterf(q, 0.f); }
'''


def cty(w):
    return 'uint32_t' if w <= 32 else 'uint64_t'


class Emit:
    def __init__(self):
        self.memo, self.out, self.pre, self.dep, self.k, self.est, self.col = {}, [], [], set(), 0, set(), {'c'}

    def new(self, t, ctype, e):
        self.k += 1
        n = f"v{self.k}"
        self.put(f"  {ctype} {n} = {e};", n)
        self.memo[t.id] = n
        return n

    def put(self, line, n=None):
        """what does not depend on the colour is computed once for each alpha"""
        if any(x in self.col for x in re.findall(r'\bv\d+\b|\bc\b', line)):
            self.out.append(line)
            if n:
                self.col.add(n)
        else:
            self.pre.append(line if n else line.replace('bad', 'bad0'))

    def trunc(self, e, w):
        return e if w in (32, 64) else f"(({e}) & {hex((1 << w) - 1)}u{'ll' if w > 32 else ''})"

    def s(self, n, w):
        """sign-extended value of an unsigned variable"""
        k = 32 if w <= 32 else 64
        return f"((int{k}_t)({n} << {k - w}) >> {k - w})" if w != k else f"(int{k}_t){n}"

    def guard(self, cond):
        self.put(f"  bad |= {cond};")

    def go(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        op, w = t.op, t.w
        if op == 'const':
            return self.new(t, cty(w), f"{t.x}u" + ('ll' if w > 32 else ''))
        if op == 'fconst':
            if w not in (32, 64):
                raise Fail("a half-float constant")
            v = float(t.x)
            return self.new(t, 'float' if w == 32 else 'double', f"({'float' if w == 32 else 'double'}){v.hex()}")
        if op == 'sym':
            n = {'#in3': 'a', '#c': 'c'}.get(t.x)
            if n is None:
                raise Fail(f"the output depends on {show(t)}")
            self.memo[t.id] = n
            return n
        a = [self.go(x) for x in t.a]
        dep = [x.id in self.dep for x in t.a]
        if any(dep):
            self.dep.add(t.id)
        f32 = lambda: 'float' if w == 32 else 'double' if w == 64 else self.no(t)
        sf = 'f' if w == 32 else ''
        aw = t.a[0].w
        if op in ERR:
            self.dep.add(t.id)
            self.est.add(op)
            if any(dep):
                raise Fail("an estimate of an estimate")
            self.guard(f"!({a[0]} >= 0)")
            return self.new(t, 'float', f"est({a[0]}, END * {ERR[op].hex()}f)")
        if op == 'and' and len(a) == 2 and sum(dep) == 1:
            i = dep.index(True)
            if t.a[1 - i].op == 'sext' and t.a[1 - i].a[0].w == 1:      # a mask that does not depend on the estimate
                return self.new(t, cty(w), f"{a[1 - i]} ? {a[i]} : 0")
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            if any(dep):
                self.nomono(t)
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            return self.new(t, cty(w), self.trunc(f"{a[0]} {o} {a[1]}", w))
        if op in ('shl', 'lshr', 'ashr'):
            if any(dep):
                self.nomono(t)
            e = {'shl': lambda: f"{a[0]} << {a[1]}", 'lshr': lambda: f"{a[0]} >> {a[1]}", 'ashr': lambda: f"({self.s(a[0], aw)} >> {a[1]})"}[op]()
            return self.new(t, cty(w), self.trunc(f"({cty(w)})({e})", w))
        if op == 'zext':
            return self.new(t, cty(w), f"({cty(w)}){a[0]}")
        if op == 'sext':
            if dep[0]:
                self.guard(f"{a[0]} >> {aw - 1} != 0")
            return self.new(t, cty(w), self.trunc(f"({cty(w)})({self.s(a[0], aw)})", w))
        if op == 'ext':
            if dep[0]:
                if t.x:
                    self.nomono(t)
                self.guard(f"{a[0]} >> {w} != 0")
            return self.new(t, cty(w), self.trunc(f"({cty(w)})({a[0]} >> {t.x})", w))
        if op == 'cat':
            if any(dep):
                self.nomono(t)
            e, lo = [], 0
            for x, n in zip(t.a, a):
                e.append(f"(({cty(w)}){n} << {lo})")
                lo += x.w
            return self.new(t, cty(w), " | ".join(e))
        if op == 'select':
            if dep[0]:
                self.nomono(t)
            return self.new(t, self.type(t), f"{a[0]} ? {a[1]} : {a[2]}")
        if op in ('smin', 'smax', 'umin', 'umax'):
            x, y = (self.s(a[0], w), self.s(a[1], w)) if op[0] == 's' else a
            return self.new(t, cty(w), f"{x} {'<' if op.endswith('min') else '>'} {y} ? {a[0]} : {a[1]}")
        if op in ('satu', 'sats'):
            lo, hi = (0, (1 << w) - 1) if op == 'satu' else (-(1 << w - 1), (1 << w - 1) - 1)
            s = self.s(a[0], aw)
            if dep[0]:
                self.guard(f"{s} < 0")
            return self.new(t, cty(w), self.trunc(f"({cty(w)})({s} < {lo} ? {lo} : {s} > {hi} ? {hi} : {s})", w))
        if op == 'cvtrn':
            if dep[0]:
                self.guard(f"!(0.f <= {a[0]} && rintf({a[0]}) < 2147483648.f)")
            return self.new(t, cty(32), f"(uint32_t)cvtrn({a[0]})")
        if op in ('fptoui_sat', 'fptosi_sat'):
            lo, hi = (0, (1 << w) - 1) if op == 'fptoui_sat' else (-(1 << w - 1), (1 << w - 1) - 1)
            if dep[0]:
                self.guard(f"!(0.f <= {a[0]})")
            if w > 32:
                self.no(t)
            return self.new(t, cty(w), self.trunc(f"(uint32_t)({a[0]} != {a[0]} ? 0ll : {a[0]} <= {lo}. ? {lo}ll : {a[0]} >= {hi}. ? {hi}ll : (long long){a[0]})", w))
        if op == 'uitofp':
            if any(dep):
                self.nomono(t)
            k = f"(int32_t){a[0]}" if aw < 32 else a[0]
            return self.new(t, f32(), f"({f32()})({k})")
        if op == 'sitofp':
            if any(dep):
                self.nomono(t)
            return self.new(t, f32(), f"({f32()})({self.s(a[0], aw)})")
        if op == 'fptrunc':
            return self.new(t, f32(), f"({f32()}){a[0]}")
        if op == 'fpext':
            return self.new(t, f32(), f"({f32()}){a[0]}")
        if op in ('fmul', 'fadd', 'fdiv', 'fsub'):
            if all(dep) or op in ('fdiv', 'fsub') and dep[1]:
                self.nomono(t)
            if any(dep) and op in ('fmul', 'fdiv'):
                self.guard(f"!({a[1 - dep.index(True)]} >= 0)")
            o = {'fmul': '*', 'fadd': '+', 'fdiv': '/', 'fsub': '-'}[op]
            return self.new(t, f32(), f"{a[0]} {o} {a[1]}")
        if op == 'fma':
            if any(dep):
                if dep[0] and dep[1]:
                    self.nomono(t)
                if dep[0] or dep[1]:
                    self.guard(f"!({a[1 if dep[0] else 0]} >= 0)")
            return self.new(t, f32(), f"__builtin_fma{sf}({a[0]}, {a[1]}, {a[2]})")
        if op in ('x86min', 'x86max'):
            return self.new(t, f32(), f"{a[0]} {'<' if op == 'x86min' else '>'} {a[1]} ? {a[0]} : {a[1]}")
        if op in ('roundeven', 'rint', 'nearbyint') or op == 'x86round' and t.x in (0, 4, 8, 12):
            return self.new(t, f32(), f"rint{sf}({a[0]})")
        if op == 'round':
            return self.new(t, f32(), f"round{sf}({a[0]})")
        if op == 'floor' or op == 'x86round' and t.x in (1, 9):
            return self.new(t, f32(), f"floor{sf}({a[0]})")
        if op == 'icmp':
            if any(dep):
                self.nomono(t)
            x, y = (self.s(a[0], aw), self.s(a[1], aw)) if t.x[0] == 's' else a
            o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[t.x if t.x in ('eq', 'ne') else t.x[1:]]
            return self.new(t, 'uint32_t', f"{x} {o} {y}")
        self.no(t)

    def type(self, t):
        x = t
        while x.op == 'select':
            x = x.a[1]
        return {32: 'float', 64: 'double'}[t.w] if x.op[0] == 'f' and not x.op.startswith('fpto') or x.op in ('uitofp', 'sitofp', 'rcp', 'rcp14', 'roundeven', 'x86min', 'x86max', 'x86round', 'rint', 'round') else cty(t.w)

    def no(self, t):
        raise Fail(f"a pixel made with {t.op}")

    def nomono(self, t):
        raise Fail(f"not shown monotone in the reciprocal estimate: {t.op}")


PREMUL = '''
    double q = (double)(int)c * k; wrong |= !(fabs((double)(int)o - q) <= TOL);'''
UNPREMUL = '''
    double q = (double)(int)c * k; q = q > m ? m : q; wrong |= !(fabs((double)(int)o - q) <= TOL + 4e-4 * q);'''
FACTOR = {'premultiply': '(double)(int)a / m', 'unpremultiply': 'a ? m / (int)a : 0.', 'identity': '1.'}
SPEC = {'identity': '\n    wrong |= o != c;', 'premultiply': PREMUL, 'unpremultiply': UNPREMUL}
RUN = '''
int run(uint32_t *at, unsigned long long *count) {
  const uint32_t M = %(max)du;
  const double m = (double)(int)M;
  for (uint32_t a = 0; a <= M; a++) {
    const double k = %(factor)s;
    for (int pass = 0; pass < 2; pass++) {
      int any = 0;
%(body)s
      if (!any) { *count += (unsigned long long)M + 1; break; }
    }
  }
  return 0;
}
'''
DONE = {}


def program(t, kind, mx, tol):
    """the C program that tries t on all colours and alphas up to mx"""
    parts = []
    for end in (1, -1):
        e = Emit()
        o = e.go(t)
        pre, out = "\n".join(e.pre), "\n".join(e.out)
        test = f"{out}\n  uint32_t o = {o}; wrong |= o > M;{SPEC[kind]}"
        parts.append(f"""{{ enum {{ END = {end} }}; int bad0 = 0;
{pre}
  if (!pass) for (int c = 0; c <= (int)M; c++) {{ int bad = 0, wrong = 0;
{test}
  any |= wrong | (a ? bad : 0); }}
  else for (int c = 0; c <= (int)M; c++) {{ int bad = 0, wrong = 0;
{test}
  if (wrong || a && (bad | bad0)) {{ at[0] = c; at[1] = a; at[2] = o; return wrong ? 1 : 2; }} }}
  any |= a ? bad0 : 0; }}""")
        if not e.est:
            break
    return HEAD + f'#define TOL {tol}\n' + RUN % dict(max=mx, body="\n".join(parts), factor=FACTOR[kind])


def decide(t, kind, mx, tol):
    """every colour and alpha up to mx: raises when one is wrong, otherwise their number"""
    src = program(t, kind, mx, tol)
    key = hashlib.sha256(src.encode()).hexdigest()
    if key not in DONE:
        DONE[key] = execute(src)
    r, at, n = DONE[key]
    if r == 1:
        raise Refuted(f"colour {at[0]} of alpha {at[1]} (largest {mx}) may become {at[2]}")
    if r:
        raise Fail(f"not shown monotone in the reciprocal estimate at colour {at[0]}, alpha {at[1]}")
    return n


def execute(src):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'p.c')
        open(p, 'w').write(src)
        fast = ['-march=haswell'] if {'avx2', 'fma', 'bmi2'} <= set(open('/proc/cpuinfo').read().split()) else []
        subprocess.run(['gcc', '-O3', *fast, '-ffp-contract=off', '-fno-math-errno', '-fno-trapping-math', '-shared', '-fPIC', '-o', d + '/p.so', p],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        lib = ctypes.CDLL(d + '/p.so')
        at, n = (ctypes.c_uint32 * 3)(), ctypes.c_ulonglong(0)
        r = lib.run(at, ctypes.byref(n))
        return r, list(at), n.value
