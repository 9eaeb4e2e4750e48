"""Deductive stage: obligations over the real code, by back end.

kani_stage   contracts and contract harnesses on scalar functions          (CBMC, SAT)
verus_stage  nonlinear integer contracts on functions extracted verbatim    (z3)
lvc          contracts on the SIMD and scalar row kernels, on the LLVM IR rustc emits for /repo (z3)
"""
import concurrent.futures as cf
import kani_stage, verus_stage
try:
    import lvc_stage
except ImportError:
    lvc_stage = None

LEVEL = {"C18": "proof"}
from notes import NOTES as EXPLAIN


def run(prop, tier, target):
    stages = [("Kani/CBMC", kani_stage), ("Verus/z3", verus_stage)] + ([("lvc/z3", lvc_stage)] if lvc_stage else [])
    obs, by, secs, cmds, trusted, assume, vac = [], {}, {}, [], [], [], {}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [(n, m, ex.submit(m.run, prop, tier, target)) for n, m in stages]
        for n, m, f in fs:
            try:
                o, s, c = f.result()
            except Exception as e:      # a broken back end decides nothing
                o, s, c = [dict(name=f"{n} stage", backend=n, status="undecided", why=repr(e), functions=[])], 0.0, ""
            if not o:
                continue
            obs += o
            by[n] = dict(obligations=len(o), discharged=sum(x["status"] == "proved" for x in o),
                         vcs=sum(x.get("n", 1) for x in o if x["status"] == "proved"))
            secs[n] = round(s, 1)
            cmds.append(c)
            assume += m.ASSUME
    return dict(obligations=obs, by_backend=by, solver_s=secs, cmd="; ".join(c for c in cmds if c)[:3000],
                trusted=["rustc front end", "LLVM IR semantics as read by lvc", "CBMC, z3, Verus"], assumptions=assume, vacuity=vac)
