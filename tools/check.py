#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property of /verif/properties.jsonl on /repo's current working tree:
  1. deductive stage   contracts over the real code, discharged by Kani/CBMC and by lvc
                       (tools/lvc: LLVM IR of the compiled crate, own VC generator + z3)
  2. native stage      replay of counterexamples and bounded stand-in for the functions no
                       verifier here reaches (four feature builds of the real crate)
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (nothing could be built).
"""
import json, os, subprocess, sys, time, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
CFGS = {
    "scalar": "colorspaces",
    "sse": "sse,colorspaces",
    "avx": "sse,avx,colorspaces",
    "night": "sse,avx,colorspaces,avx512,f16",
}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
KNOWN = "KNOWN:weight-saturation"


def sh(cmd, timeout=None, env=None, cwd=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


# ------------------------------------------------------------------ native stage
def build_native(cfg):
    t = os.path.join(TARGET, "n-" + cfg)
    os.makedirs(t, exist_ok=True)
    rc, o, e = sh(["cargo", "build", "--offline", "--features", CFGS[cfg], "--target-dir", t],
                  timeout=800, cwd=os.path.join(VERIF, "native"))
    exe = os.path.join(t, "debug", "native")
    return (exe if rc == 0 and os.path.exists(exe) else None), e


def run_one(exe, cfg, prop, seed, cases, secs, tag, only=None):
    cur = os.path.join(TARGET, f"cur-{prop}-{tag}")
    # a single case never takes more than a few seconds; the slack covers a loaded machine
    rc, o, e = sh([exe, "run", "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs),
                   "--cur", cur, "--max", "3"] + (["--only", only] if only else []), timeout=secs + 150)
    r = dict(cfg=cfg, fails=[], known=[], cases=0, distinct=0, note="", fmts="")
    for l in o.splitlines():
        if l.startswith("FAIL "):
            c, _, m = l[5:].partition(" :: ")
            r["fails"].append((c, m))
        elif l.startswith("KNOWN "):
            c, _, m = l[6:].partition(" :: ")
            r["known"].append((c, m))
        elif l.startswith("DONE "):
            r["cases"] = int(re.search(r"cases=(\d+)", l).group(1))
            m = re.search(r"distinct=(\d+)", l)
            r["distinct"] = int(m.group(1)) if m else r["cases"]
            r["fmts"] = l.split(" ", 5)[-1]
    if rc != 0:
        try:
            c = open(cur).read()
        except OSError:
            c = ""
        why = "did not finish" if rc is None else (f"was ended by signal {-rc}" if rc < 0 else f"ended with status {rc}")
        if c and rc is not None:
            r["fails"].append((c, f"the process {why} (memory fault or abort) while running this case"))
        elif c:
            # a hang counts only when the case alone does not finish either
            rc2, _, _ = sh([exe, "replay", "--prop", prop, c], timeout=120)
            if rc2 is None:
                r["fails"].append((c, "this case does not finish"))
            else:
                r["note"] = f"run stopped at its time limit"
        else:
            r["note"] = f"the driver {why}: {e[-200:]}"
    if os.path.exists(cur):
        os.remove(cur)
    return r


def run_c16(exes, seed, cases, secs):
    d = os.path.join(TARGET, "c16")
    os.makedirs(d, exist_ok=True)
    jobs = [(c, x, s) for s in (2 * seed, 2 * seed + 1) for c, x in exes.items()]
    out = []

    def dump(j):
        c, x, s = j
        f, cur = os.path.join(d, f"{c}-{s}"), os.path.join(d, f"cur-{c}-{s}")
        rc, o, e = sh([x, "dump", "--seed", str(s), "--cases", str(cases), "--secs", str(secs), "--out", f, "--cur", cur], timeout=secs + 150)
        return rc, f, cur
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(jobs, ex.map(dump, jobs)))
    order = [c for c in CFGS if c in exes]
    for s in (2 * seed, 2 * seed + 1):
        for j, (rc, f, cur) in res.items():
            if j[2] == s and rc not in (0, None):
                c = open(cur).read() if os.path.exists(cur) else "?"
                out.append(dict(cfg=j[0], fails=[(c, f"the process ended with status {rc} while running this case")], known=[], cases=0, note="", fmts=""))
        for i, a in enumerate(order):
            for b in order[i + 1:]:
                ja, jb = (a, exes[a], s), (b, exes[b], s)
                if res[ja][0] != 0 or res[jb][0] != 0:
                    continue
                rc, o, e = sh([exes[a], "cmp", res[ja][1], res[jb][1]], timeout=200)
                r = dict(cfg=f"{a}/{b}", fails=[], known=[], cases=0, note="" if rc == 0 else e[-200:], fmts="")
                for l in o.splitlines():
                    if l.startswith("FAIL "):
                        c, _, m = l[5:].partition(" :: ")
                        r["fails"].append((c, m))
                    elif l.startswith("DONE "):
                        r["cases"] = int(re.search(r"cases=(\d+)", l).group(1))
                out.append(r)
    return out


def native(prop, tier, seed, hunt=None):
    t0 = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        built = dict(zip(CFGS, ex.map(build_native, CFGS)))
    exes = {c: x for c, (x, _) in built.items() if x}
    errs = {c: e[-2000:] for c, (x, e) in built.items() if not x}
    bt = time.time() - t0
    if not exes:
        return dict(ok=False, error=errs, build_s=bt)
    secs, cases = (40, 20000) if tier == "quick" else (420, 200000)
    if prop == "C16":
        res = run_c16(exes, seed, 1500 if tier == "quick" else 20000, secs)
    else:
        jobs = [(c, x, k) for k in range(2) for c, x in exes.items()]
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: run_one(j[1], j[0], prop, seed * 2 + j[2], cases, secs, f"{j[0]}-{j[2]}"), jobs))
            if hunt and not any(r["fails"] for r in res):
                # an obligation that is discharged on the pinned tree is not: look longer for an input, in its formats
                res += list(ex.map(lambda j: run_one(j[1], j[0], prop, (seed + 77) * 2 + j[2], 10 * cases, 110, f"{j[0]}-{j[2]}", hunt), jobs))
        corpus(prop, exes, res)
    return dict(ok=True, exes=exes, errs=errs, res=res, build_s=bt, run_s=time.time() - t0 - bt)


def corpus(prop, exes, res):
    """inputs that once failed (native/corpus.txt: PROP CFG CASE), replayed in every build that has them"""
    p = os.path.join(VERIF, "native", "corpus.txt")
    if not os.path.exists(p):
        return
    jobs = []
    for l in open(p):
        f = l.rstrip("\n").split(" ", 2)
        if len(f) == 3 and f[0] == prop and f[1] in exes:
            jobs.append((f[1], f[2]))

    def one(j):
        rc, o, e = sh([exes[j[0]], "replay", "--prop", prop, j[1]], timeout=120)
        r = dict(cfg=j[0], fails=[], known=[], cases=1, note="corpus", fmts="")
        if rc != 0:
            m = o.partition(" :: ")[2].strip() or f"status {rc}"
            (r["known"] if m.startswith(KNOWN) else r["fails"]).append((j[1], m))
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        res.extend(ex.map(one, jobs))


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) cfg=(\S+) input="([^"]*)" (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def regressed(prop, obs):
    """functions whose obligations are all discharged on the pinned tree (tools/expected.txt) and are not here
    -> ([obligation], formats to look for an input in)"""
    p = os.path.join(VERIF, "tools", "expected.txt")
    want = set(open(p).read().split("\n")) if os.path.exists(p) else set()
    lost = [o for o in obs if o["status"] == "undecided" and any(f in want for f in o.get("functions", []))]
    fm = {o.get("formats") for o in lost}
    return lost, (None if not lost or None in fm else ",".join(sorted(fm)))


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    import deduct
    with cf.ThreadPoolExecutor(2) as ex:
        fd = ex.submit(deduct.run, prop, tier, TARGET)
        ded = fd.result()
    lost, hunt = regressed(prop, ded["obligations"])
    nat = native(prop, tier, seed, hunt)
    violations = []      # (what, detail, case, cfg)
    known_lines = []
    if nat["ok"]:
        for r in nat["res"]:
            for c, m in r["fails"]:
                violations.append((m, r["cfg"], c))
        kf = known_findings(prop)
        nk = sum(len(r["known"]) for r in nat["res"])
        for cfg, case, text in kf:
            if cfg in nat["exes"]:
                rc, o, e = sh([nat["exes"][cfg], "replay", "--prop", prop, case], timeout=120)
                if rc != 0 and KNOWN in o:
                    known_lines.append(f"KNOWN-FINDING: property={prop} {text} [{case}]")
                elif rc != 0:
                    violations.append((o.partition(" :: ")[2].strip(), cfg, case))
        if nk and not kf:
            for r in nat["res"]:
                for c, m in r["known"]:
                    violations.append((m, r["cfg"], c))

    refuted = [o for o in ded["obligations"] if o["status"] == "refuted"]
    undecided = [o for o in ded["obligations"] if o["status"] == "undecided"]
    proved = [o for o in ded["obligations"] if o["status"] == "proved"]
    # ---------------------------------------------------------------- evidence
    ev = dict(property=prop, tier=tier, seed=seed, level=deduct.LEVEL.get(prop, "other"))
    runs = nat.get("res", [])
    nat_ev = dict(
        label="bounded stand-in and replay, not counted as proved",
        evaluations=sum(r["cases"] for r in runs),
        distinct_nontrivial=sum(r.get("distinct", r["cases"]) for r in runs if "/" not in r["cfg"]) or sum(r["cases"] for r in runs),
        rule="every case is drawn from VERIF_SEED by the generator of this property in native/src (format, sizes, strides, kernel, content, threads); each is a public call on fresh buffers compared with the oracle, trivial ones are not drawn",
        by_build={c: sum(r["cases"] for r in runs if r["cfg"].split("/")[0] == c) for c in CFGS},
        known_class_hits=sum(len(r["known"]) for r in runs),
        notes=[r["note"] for r in runs if r["note"] and r["note"] != "corpus"],
        builds_failed=nat.get("errs", nat.get("error", {})),
        build_s=round(nat.get("build_s", 0), 1), run_s=round(nat.get("run_s", 0), 1),
    )
    samples = []
    if nat["ok"]:
        x = next(iter(nat["exes"].values()))
        if prop != "C16":
            rc, o, e = sh([x, "gen", "--prop", prop, "--seed", str(seed), "--cases", "4"], timeout=30)
            samples = o.splitlines()[:4]
        else:
            samples = [open(os.path.join(TARGET, "c16", f)).readline().strip() for f in sorted(os.listdir(os.path.join(TARGET, "c16")))[:1]]
    nat_ev["samples"] = samples
    cov = dict(
        obligations=len(ded["obligations"]), discharged=len(proved),
        undecided=[dict(name=o["name"], why=o.get("why", "")[:300]) for o in undecided],
        refuted=[o["name"] for o in refuted],
        discharged_on_pinned_tree_only=[o["name"] for o in lost],
        functions_under_contract=sorted({f for o in ded["obligations"] for f in o.get("functions", [])}),
        functions_proved=sorted({f for o in proved for f in o.get("functions", [])} - {f for o in undecided + refuted for f in o.get("functions", [])}),
        by_backend=ded.get("by_backend", {}), solver_s=ded.get("solver_s", {}),
        checker_cmd=ded.get("cmd", ""), trusted_base=ded.get("trusted", []),
        vacuity=ded.get("vacuity", {}),
        obligation_names=[f'{o["name"]} [{o["backend"]}{", bounded" if o.get("bounded") else ""}] {o["status"]}' for o in ded["obligations"]],
        bounded_native=nat_ev,
        evaluations=nat_ev["evaluations"], distinct_nontrivial=nat_ev["distinct_nontrivial"], rule=nat_ev["rule"], samples=samples,
        explanation=deduct.EXPLAIN.get(prop, "contracts over the real code; remaining functions by the bounded native stand-in"),
    )
    ev["coverage"] = cov
    ev["assumptions"] = ded.get("assumptions", [])

    rc = 0
    lines = []
    if violations:
        m, cfg, case = violations[0]
        path = os.path.join(VERIF, "evidence", f"replay-{prop}.json")
        rep = dict(property=prop, build=cfg, case=case, what=m,
                   command=f"cd /verif && python3 tools/check.py --replay {prop} {cfg} '{case}'",
                   all=[dict(build=b, case=c, what=w) for w, b, c in violations[:20]],
                   failed_obligations=[dict(name=o["name"], backend=o["backend"], output=o.get("why", "")[-4000:]) for o in refuted + lost])
        json.dump(rep, open(path, "w"), indent=1)
        for o in (refuted + lost)[:6]:
            lines.append(f"{prop}: obligation not discharged: {o['name']} ({o['backend']}): {o.get('why', '')[:160]}")
        lines.append(f"{prop}: {m}\n  build {cfg}, input {case}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif refuted:
        path = os.path.join(VERIF, "evidence", f"replay-{prop}.json")
        rep = dict(property=prop, failed_obligations=[dict(name=o["name"], backend=o["backend"], functions=o.get("functions", []),
                                                            counterexample=o.get("cex"), output=o.get("why", "")[-8000:]) for o in refuted])
        json.dump(rep, open(path, "w"), indent=1)
        concrete = any(o.get("replayed") for o in refuted)
        for o in refuted:
            lines.append(f"{prop}: obligation {o['name']} failed ({o['backend']})")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if concrete else " no-failing-input-found"))
        rc = 1
    elif not nat["ok"] and not proved:
        lines.append(f"{prop}: no answer, the crate could not be built: {json.dumps(nat.get('error'))[:1500]}")
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(violations) + len(refuted)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for l in known_lines:
        print(l)
    print(f"{prop} [{tier}, seed {seed}]: {len(proved)}/{len(ded['obligations'])} obligations discharged"
          f" ({len(undecided)} undecided, {len(refuted)} refuted); bounded native stand-in: {nat_ev['evaluations']} cases; {ev['wall_s']} s")
    for l in lines:
        print(l)
    sys.exit(rc)


def replay():
    prop, cfg, case = sys.argv[2:5]
    if "/" in cfg:
        fs = []
        for c in cfg.split("/"):
            x, e = build_native(c)
            f = os.path.join(TARGET, "replay-" + c)
            sh([x, "dump", "--out", f, "--case", case, "--cases", "1"])
            fs.append(f)
        rc, o, e = sh([x, "cmp"] + fs)
        print(o)
        sys.exit(1 if "FAIL" in o else 0)
    x, e = build_native(cfg)
    rc, o, e = sh([x, "replay", "--prop", prop, case], timeout=120)
    print(o, e)
    sys.exit(0 if rc == 0 else 1)


if __name__ == "__main__":
    replay() if sys.argv[1] == "--replay" else main()
