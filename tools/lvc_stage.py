"""lvc: contracts of the row kernels, on the LLVM IR that rustc emits for /repo's current source.

The crate is compiled with all instruction sets on (optimised, not vectorised or unrolled by LLVM, so that the loops of the
source are the loops of the IR).  tools/lvc evaluates each function under contract symbolically, finds loop invariants
(Houdini over candidates), and discharges with z3, for all inputs and all iterations:
  invariants, no panic, memory (every access inside its region), every output written once, taps and weights (every output
  is narrow(bias + sum over the whole window of weight * sample), exactly, or over the reals for floats).
"""
import hashlib, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
FLAGS = "--unroll-threshold=2000 --unroll-full-max-count=32 --unroll-runtime=false --unroll-allow-partial=false --unroll-allow-peeling=false"
FEATURES = "sse,avx,nightly_avx512,nightly_f16"
PY = "/opt/veriftools/pyvenv/bin/python3"

ASSUME = [
    "lvc: rustc's and LLVM's optimiser up to the IR that is proved preserve the source; code generation from that IR is trusted",
    "lvc: the meaning given to LLVM instructions and x86 vector intrinsics in tools/lvc/ev.py",
    "lvc: precondition of every row kernel: the layout and lengths of FilterWeights (1 <= size <= aligned size, start + size <= source size, one bound per output), strides of at least a row, slices of at most 2^62 bytes, source, weights and destination do not overlap",
    "lvc: that precondition is proved of what generate_weights and its conversion to i16 return (windows, weights), for axes up to 2^48, and of every call of a row kernel by a pass (ConvolutionPass and the f32 and packed dispatchers) that gets such weights; that the scalers call the passes with such weights and valid images is proved too",
    "lvc: scalers: on every way through them, with integers as mathematical polynomials (each product that may not fit is followed both ways); what resize_nearest, premultiply_alpha, unpremultiply_alpha and get_pool do is assumed here (rows of the alpha pair and nearest positions have contracts of their own, copied_to_mut and is_alpha_premultiplication_needed too); the public methods that only forward to a scaler, resize_ar30 and the colour-space scalers are run natively; a failing allocator is left out",
    "lvc: passes are proved for one thread (no pool); with a pool, rayon's splitting of the destination into rows is trusted and run natively; PasshroughWeightsConverter::prepare_weights is a clone",
    "lvc: passes: images of at most 2^56 bytes; the fields of ImageStore as its constructors check them (C14); a stride field of 0 stands for rows without padding",
    "lvc: generate_weights: filter and window functions called through pointers are pure; unwinding and a failing allocator are left out; enum fields hold a value of their type; no object wraps around the address space",
    "lvc: 8/16-bit fixed-point accumulators stay below 2^30 in magnitude (16-bit accumulators of the low-precision path do not overflow); 16-bit fixed-point kernels get bit depths up to 12",
    "lvc: precondition of the alpha rows: source and destination rows are whole four-sample pixels of equal number, bit depth 1 to 16, samples no larger than the depth allows, distinct source and destination do not overlap; approximate reciprocals are within the error Intel documents (1.5 * 2^-12, 2^-14 for the AVX-512 form)",
    "lvc: constant-alpha test and copy: images of at least one pixel and at most 2^62 bytes whose length is stride times height, as their constructors check (C14); a stride field of 0 stands for rows without padding; which instruction sets the CPU has is arbitrary; the copy is proved for two images of one size that do not overlap",
    "lvc: float kernels: the sum is the exact real sum up to the rounding of each operation (the order of additions is not fixed)",
]

SAMPLES = {"u8": ("C01",), "u1": ("C02",), "f3": ("C03",), "f1": ("C03",)}
ACC = ("C01", "C02", "C03", "C11", "C13")
PASS = ("every row handed on once", "arguments of the kernels")
SCALER = ("calls",)
COPY = ("copied from its place", "every sample copied")
KINDS = {"C05": ("memory", "no panic") + PASS + SCALER, "C06": ("memory", "every output written once") + PASS + ("calls", "what is done") + COPY, "C07": ("memory", "every output written once") + PASS}


def wanted(prop, tier):
    """-> (predicate on registry entries, obligations or None for all)"""
    if prop in ACC:
        return (lambda s, c, p: p == prop or p == "windows" and prop in ("C01", "C02", "C03") or p == "scaler" and (prop in SAMPLES[c["fm"][:2]] if prop != "C11" else c["ch"] == 4)), None
    if prop in ("C08", "C09"):
        return (lambda s, c, p: p == "scaler" or prop == "C09" and p == "copy"), dict(C08=("calls", "errors"), C09=("what is done",) + COPY)[prop]
    if prop == "C12":
        return (lambda s, c, p: p == "C12" or p == "scaler" and c["ch"] == 4), None
    if prop == "C05":
        return (lambda s, c, p: True), KINDS[prop]
    if prop == "C06":
        return (lambda s, c, p: c["rows"] == 4 or "vertical" in s or "fm" in c), KINDS[prop]
    if prop == "C07":       # what a kernel writes is inside its own rows and given by its arguments alone: no order of calls can show
        return (lambda s, c, p: tier == "thorough" or "vertical" in s or "fm" in c), KINDS[prop]
    if prop == "C04":       # narrowing of an exact weighted sum whose weights add up to one keeps a constant and the range
        return (lambda s, c, p: p in ("C01", "C02") and (tier == "thorough" or "vertical" in s)), None
    if prop == "C16":       # the exact kernels of the sets compute one and the same function
        return (lambda s, c, p: "acc" in c.get("exact", "acc") and p in ("C01", "C02") and (tier == "thorough" or c["ch"] == 4 or "vertical" in s)), None
    if prop == "C17":
        return (lambda s, c, p: p != "C12" and c["ch"] > 1 and (tier == "thorough" or c["rows"] == 1)), None
    return None, None


def source_key():
    h = hashlib.sha256()
    for d in ("src",):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update((FLAGS + FEATURES).encode())
    return h.hexdigest()


def emit(target):
    """-> path of the IR of /repo's current source"""
    t = os.path.join(target, "lvc")
    out, stamp = os.path.join(t, "crate.ll"), os.path.join(t, "stamp")
    key = source_key()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(t, exist_ok=True)
    for f in (out, stamp):
        if os.path.exists(f):
            os.remove(f)
    rel = os.path.join(t, "release")
    for r, ds, fs in os.walk(rel):
        for f in fs:
            if f.startswith("pic_scale-") and f.endswith(".ll"):
                os.remove(os.path.join(r, f))
    for r, ds, fs in os.walk(rel):
        for d in list(ds):
            if d.startswith("pic-scale-"):
                shutil.rmtree(os.path.join(r, d), ignore_errors=True)
                ds.remove(d)
    b = os.path.join(rel, "build", "pic-scale")
    if os.path.isdir(b):
        shutil.rmtree(b, ignore_errors=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "rustc", "--offline", "--lib", "--release", "--no-default-features", "--features", FEATURES, "--target-dir", t, "--",
           "--emit=llvm-ir", "-C", "codegen-units=1", "-C", "opt-level=2", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
           "-C", "llvm-args=" + FLAGS, "-C", "debuginfo=0", "-C", "overflow-checks=off"]
    p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=600)
    lls = [os.path.join(r, f) for r, _, fs in os.walk(rel) for f in fs if f.startswith("pic_scale-") and f.endswith(".ll")]
    if p.returncode or len(lls) != 1:
        raise RuntimeError(f"IR of the crate: {len(lls)} files, {p.stderr[-600:]}")
    shutil.move(lls[0], out)
    open(stamp, "w").write(key)
    return out


def run(prop, tier, target):
    pred, only = wanted(prop, tier)
    if pred is None:
        return [], 0.0, ""
    ll = emit(target)
    r = subprocess.run([PY, os.path.abspath(__file__), prop, tier, ll], capture_output=True, text=True, timeout=800,
                       env=dict(os.environ, PYTHONHASHSEED="0"))
    import json
    if r.returncode:
        raise RuntimeError("lvc: " + r.stderr[-800:])
    d = json.loads(r.stdout)
    return d["obs"], d["secs"], f"cargo rustc --emit=llvm-ir (features {FEATURES}); tools/lvc on {d['kernels']} functions"


# ---------------------------------------------------------------- the worker process
_M = {}


def one(job):
    import ir, sym, ev, bv, registry, passes
    name, only, limit = job
    s = ir.short(name)
    cls, cfg, prop = registry.find(s)
    sym.clear()
    bv.PROVED.clear()

    def bye(*a):
        raise ir.Bad("out of time")
    signal.signal(signal.SIGPROF, bye)          # processor time: a loaded machine does not change what is discharged
    t0 = time.time()
    try:
        signal.setitimer(signal.ITIMER_PROF, limit)
        text, globs = _M["fns"][name], _M["globs"]
        if getattr(cls, 'WHOLE', False):
            ob = cls(name, text, globs, cfg).prove(only)
        else:
            ob = cls(getattr(cls, 'FN', ev.Fn)(passes.left(name, text, cfg) if cls.__module__ == 'spec' else text, globs), cfg).prove(only)
        res = ob.ok, ob.bad
    except (sym.Unsupported, ir.Bad) as e:
        res = [], [("contract", str(e)[:300], False)]
    except Exception as e:
        res = [], [("contract", "lvc: " + repr(e)[:300], False)]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return s, time.time() - t0, res


def formats(s):
    """where the native driver can meet the function: fmt or fmt:channels"""
    import registry
    f = registry.find(s)
    if not f:
        return None
    c = f[1]
    if f[2] == "windows":
        return None
    if "fm" in c:
        return c["fm"]
    if "ar30" in s:
        return "ar30,ra30"
    if f[2] == "C12":
        return {1: "u8:4", 2: "u16:4", 4: "f32:4"}[c["es"]]
    if registry.alpha(s):
        return "u8:4" if c["es"] == 1 else "u16:4"
    fm = {(1, 2): "u8", (2, 2): "u16", (4, 4): "f32"}.get((c["ed"], c["ew"]), "f16" if "f16" in s else "u16")
    return fm if "vertical" in s or "column" in s else f"{fm}:{c['ch']}"


def main():
    import json
    sys.path.insert(0, os.path.join(HERE, "lvc"))
    sys.setrecursionlimit(20000)
    import ir, registry, passes
    prop, tier, ll = sys.argv[1:4]
    pred, only = wanted(prop, tier)
    if only:
        only = ("not vacuous",) + tuple(only)
    _M["fns"], _M["globs"] = ir.load_module(ll)
    passes.MODULE = passes.Module(_M["fns"], registry.find)
    jobs, obs, secs = [], [], 0.0
    for n in _M["fns"]:
        s = ir.short(n)
        f = registry.find(s)
        if f and pred(s, f[1], f[2]):
            if tier == "quick" and registry.slow(s):
                s = registry.shown(s)
                obs.append(dict(name=f"{s} :: contract", backend="lvc/z3", functions=[s], status="undecided", why="attempted at the thorough tier only"))
                continue
            jobs.append(n)
    jobs = [(n, only, (90 if tier == "quick" else 300) * (2 if "alpha" in n else 1))
            for n in sorted(jobs, key=lambda x: ("alpha_u16" not in x, "vertical" not in x, "_4_" not in x and "rows_4" not in x, x))]
    with mp.Pool(min(8, os.cpu_count() or 8), maxtasksperchild=6) as p:
        for s, t, (ok, bad) in p.imap_unordered(one, jobs, 1):
            secs += t
            fm, s = formats(s), registry.shown(s)
            for k, n in ok:
                obs.append(dict(name=f"{s} :: {k}", backend="lvc/z3", functions=[s], formats=fm, status="proved", n=n))
            for k, why, refuted in bad:
                obs.append(dict(name=f"{s} :: {k}", backend="lvc/z3", functions=[s], formats=fm, status="refuted" if refuted else "undecided", why=why))
    obs.sort(key=lambda o: o["name"])
    json.dump(dict(obs=obs, secs=secs, kernels=len(jobs)), sys.stdout)


if __name__ == "__main__":
    main()
