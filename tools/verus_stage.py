"""Contracts discharged by Verus on functions cut mechanically out of /repo on every run.

The extraction takes the text from `fn` to the matching brace unchanged and drops doc comments,
attributes and visibility; a contract is put between signature and body, and one lemma call is put
in front of the body. When Verus does not accept, the extracted text is compiled and searched for
an input that breaks the contract; only such an input makes the obligation refuted.
"""
import json, os, re, shutil, subprocess, tempfile, time

REPO = "/repo"


def extract(path, name):
    t = open(os.path.join(REPO, "src", path)).read()
    m = re.search(r"\bfn\s+" + name + r"\s*\(", t)
    if not m:
        return None
    i = t.index("{", m.end())
    d, j = 0, i
    while True:
        c = t[j]
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d == 0:
                break
        j += 1
    sig, body = t[m.start():i], t[i + 1:j]
    args = [a.split(":")[0].strip() for a in sig[sig.index("(") + 1:sig.rindex(")")].split(",") if ":" in a]
    return sig.strip(), body, args


LEMMAS_NEAREST = """
proof fn lemma_nearest(p: int, s: int, d: int)
    requires 0 <= p < d, 0 < s, d <= isize::MAX, s <= isize::MAX,
    ensures 1 <= (2 * p + 1) * s <= u128::MAX, 0 <= ((2 * p + 1) * s - 1) / (2 * d) < s,
      2 * d * (((2 * p + 1) * s - 1) / (2 * d)) <= (2 * p + 1) * s - 1 < 2 * d * (((2 * p + 1) * s - 1) / (2 * d) + 1),
{
    assert(1 <= (2 * p + 1) * s) by (nonlinear_arith) requires 0 <= p, 0 < s;
    assert((2 * p + 1) * s <= (2 * d - 1) * s) by (nonlinear_arith) requires 0 <= p < d, 0 < s;
    assert((2 * d - 1) * s <= u128::MAX) by (nonlinear_arith) requires 0 < d <= isize::MAX, 0 < s <= isize::MAX;
    let n = (2 * p + 1) * s - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, 2 * d);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, 2 * d);
    let q = n / (2 * d);
    assert(2 * d * (q + 1) == 2 * d * q + 2 * d) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires n >= 0, d > 0, n < 2 * d * q + 2 * d;
    assert(q < s) by (nonlinear_arith) requires 2 * d * q <= n, n < (2 * d - 1) * s, d > 0, s > 0;
}
// what C09 says, from the contract alone
proof fn nearest_is_identity_on_equal_sizes(p: int, s: int, r: int)
    requires 0 <= p < s, 2 * s * r <= (2 * p + 1) * s - 1 < 2 * s * (r + 1),
    ensures r == p,
{
    assert(r <= p) by (nonlinear_arith) requires 2 * s * r <= (2 * p + 1) * s - 1, s > 0;
    assert(r >= p) by (nonlinear_arith) requires (2 * p + 1) * s - 1 < 2 * s * (r + 1), s > 0;
}
proof fn nearest_is_monotone(p: int, q: int, s: int, d: int, rp: int, rq: int)
    requires 0 <= p <= q < d, s > 0, 2 * d * rp <= (2 * p + 1) * s - 1, (2 * q + 1) * s - 1 < 2 * d * (rq + 1),
    ensures rp <= rq,
{
    assert((2 * p + 1) * s <= (2 * q + 1) * s) by (nonlinear_arith) requires p <= q, s > 0;
    assert(rp < rq + 1) by (nonlinear_arith) requires 2 * d * rp < 2 * d * (rq + 1), d > 0;
}
// |(r + 1/2) d - (p + 1/2) s| <= |(t + 1/2) d - (p + 1/2) s| for every other pixel t
proof fn nearest_is_closest(p: int, s: int, d: int, r: int, t: int)
    requires 0 <= p < d, s > 0, 2 * d * r <= (2 * p + 1) * s - 1 < 2 * d * (r + 1), t != r,
    ensures ({ let c = (2 * p + 1) * s; let a = (2 * r + 1) * d - c; let b = (2 * t + 1) * d - c; a * a <= b * b }),
{
    let c = (2 * p + 1) * s;
    let a = (2 * r + 1) * d - c;
    let b = (2 * t + 1) * d - c;
    assert(2 * r * d == 2 * d * r) by (nonlinear_arith);
    assert((2 * r + 1) * d == 2 * r * d + d) by (nonlinear_arith);
    assert(2 * d * (r + 1) == 2 * d * r + 2 * d) by (nonlinear_arith);
    assert(a <= d && a >= -d);
    assert(b - a == 2 * (t - r) * d) by (nonlinear_arith)
        requires a == (2 * r + 1) * d - c, b == (2 * t + 1) * d - c;
    if t > r {
        assert(2 * (t - r) * d >= 2 * d) by (nonlinear_arith) requires t - r >= 1, d > 0;
        assert(b >= d);
    } else {
        assert(2 * (t - r) * d <= -2 * d) by (nonlinear_arith) requires t - r <= -1, d > 0;
        assert(b <= -d);
    }
    assert(a * a <= d * d) by (nonlinear_arith) requires -d <= a <= d;
    assert(b * b >= d * d) by (nonlinear_arith) requires b >= d || b <= -d, d > 0;
}
"""

ITEMS = [
    dict(name="nearest_sampler::nearest_position", props="C09 C05", path="nearest_sampler.rs", fn="nearest_position", nargs=3,
         ret="r: usize",
         requires="{0} < {2}, {1} > 0, {1} <= isize::MAX, {2} <= isize::MAX",
         ensures="r < {1}, 2 * {2} * r <= (2 * {0} + 1) * {1} - 1, (2 * {0} + 1) * {1} - 1 < 2 * {2} * (r + 1)",
         ghost="proof {{ lemma_nearest({0} as int, {1} as int, {2} as int); }}",
         lemmas=LEMMAS_NEAREST,
         search="""
    for d in 1..60u128 { for s in 1..60u128 { for p in 0..d { one(p, s, d); } } }
    let big = [1u128, 2, 3, 1000, 65535, 65536, 1 << 20, (1 << 31) - 1, 1 << 32, (1 << 40) + 7, (1 << 62) + 1, (1 << 63) - 1];
    for &d in &big { for &s in &big { for p in [0, 1, d / 3, d / 2, d - 1] { if p < d { one(p, s, d); } } } }
""", check="""
fn one(p: u128, s: u128, d: u128) {
    let r = std::panic::catch_unwind(|| nearest_position(p as usize, s as usize, d as usize) as u128);
    let n = (2 * p + 1) * s - 1;
    match r {
        Ok(r) if r < s && 2 * d * r <= n && n < 2 * d * (r + 1) => {}
        r => { println!("FAILING nearest_position({p}, {s}, {d}) = {r:?}"); std::process::exit(1) }
    }
}
"""),
    dict(name="support::check_image_size_overflow", props="C08 C05", path="support.rs", fn="check_image_size_overflow", nargs=3,
         ret="r: bool",
         requires="{0} > 0, {1} > 0",
         ensures="r == ({0} * {2} > usize::MAX || {0} * {2} * {1} > usize::MAX)",
         ghost="proof {{ assert({1} * ({0} * {2}) == {0} * {2} * {1}) by (nonlinear_arith); }}",
         lemmas="""
// the standard library function, by its documentation
pub assume_specification[ usize::overflowing_mul ](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a * b > usize::MAX), !r.1 ==> r.0 == a * b;
""",
         search="""
    let v = [0u128, 1, 2, 3, 4, 7, 255, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) / 3, (1 << 64) / 3 + 1, (1 << 64) - 1];
    for &w in &v { for &h in &v { for &c in &v { one(w, h, c); } } }
""", check="""
fn one(w: u128, h: u128, c: u128) {
    let r = std::panic::catch_unwind(|| check_image_size_overflow(w as usize, h as usize, c as usize));
    if w == 0 || h == 0 { return }
    let m = (1u128 << 64) - 1;
    let want = w * c > m || w * c * h > m;
    match r {
        Ok(r) if r == want => {}
        r => { println!("FAILING check_image_size_overflow({w}, {h}, {c}) = {r:?}, must be {want}"); std::process::exit(1) }
    }
}
"""),
]
ASSUME = ["Verus: usize::overflowing_mul is taken at its documented contract; sizes are at most isize::MAX, which every allocation satisfies"]


def run(prop, tier, target):
    obs, secs, cmd = [], 0.0, ""
    for it in ITEMS:
        if prop not in it["props"].split():
            continue
        o = dict(name=f'verus::{it["name"]}', backend="Verus/z3", functions=[it["name"]], status="undecided")
        obs.append(o)
        x = extract(it["path"], it["fn"])
        if not x or len(x[2]) != it["nargs"]:
            o["why"] = "function not found with this signature"
            continue
        sig, body, args = x
        sig2 = re.sub(r"->\s*([^\s{]+)\s*$", lambda m: f'-> ({it["ret"]})', sig)
        src = ("use vstd::prelude::*;\nverus! {\n" + it["lemmas"] + "\n" + sig2 +
               "\n    requires " + it["requires"].format(*args) + ",\n    ensures " + it["ensures"].format(*args) + ",\n{\n    " +
               it["ghost"].format(*args) + "\n" + body + "}\n}\nfn main() {}\n")
        d = tempfile.mkdtemp(prefix="verus-", dir=target)
        try:
            f = os.path.join(d, "x.rs")
            open(f, "w").write(src)
            t0 = time.time()
            try:
                p = subprocess.run(["verus", f, "--output-json", "--rlimit", "60"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                o["why"] = "timeout"
                continue
            secs += time.time() - t0
            cmd = "verus <extracted " + it["fn"] + ">.rs"
            try:
                r = json.loads(p.stdout)["verification-results"]
            except (ValueError, KeyError):
                r = {}
            if r.get("success") and r.get("errors") == 0 and r.get("verified", 0) > 0:
                o["status"] = "proved"
                o["n"] = r["verified"]
                continue
            o["why"] = p.stderr[-2500:]
            g = os.path.join(d, "s.rs")
            open(g, "w").write(sig + " {" + body + "}\n" + it["check"] + "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));" + it["search"] + "}\n")
            c = subprocess.run(["rustc", "+nightly", "-C", "overflow-checks=on", "-o", os.path.join(d, "s"), g], cwd=d, capture_output=True, text=True, timeout=120)
            if c.returncode == 0:
                s = subprocess.run([os.path.join(d, "s")], capture_output=True, text=True, timeout=60)
                m = re.search(r"FAILING (.*)", s.stdout)
                if m:
                    o.update(status="refuted", cex=m.group(1), replayed=True, why="contract broken by the real function: " + m.group(1) + "\n" + o["why"])
        except subprocess.TimeoutExpired:
            pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return obs, secs, cmd
