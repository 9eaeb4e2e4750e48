#!/bin/bash
# builds the four feature variants of the native driver and the dependencies of the Kani build
# (checks rebuild what is missing or stale)
cd "$(dirname "$0")/.."
exec python3 - <<'P'
import sys; sys.path.insert(0, "tools"); sys.argv = ["x", "C01"]
import check, kani_stage, lvc_stage, concurrent.futures as cf
with cf.ThreadPoolExecutor(5) as ex:
    k = ex.submit(kani_stage.prebuild, check.TARGET)
    l = ex.submit(lvc_stage.emit, check.TARGET)
    r = list(ex.map(check.build_native, check.CFGS))
    k.result()
    l.result()
sys.exit(0 if all(x for x, _ in r) else 1)
P
