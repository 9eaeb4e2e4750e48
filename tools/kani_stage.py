"""Contracts discharged by Kani/CBMC on the real crate.

The contracts are attributes in /repo (cfg(kani)) and the modules of /verif/contracts, which the
hook lines in /repo include, so that they see private items. A harness is a complete proof over
its full input domain unless its name starts with bounded_.
"""
import os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(VERIF, "contracts")
REPO = "/repo"

# module, harness, properties, function(s), tier, bound
H = [
    ("alpha_handle_u8", "c11_div_by_255", "C11", "alpha_handle_u8::div_by_255", "quick", ""),
    ("alpha_handle_u8", "c11_premultiply_pixel", "C11", "alpha_handle_u8::premultiply_alpha_rgba_row_impl", "quick", ""),
    ("alpha_handle_u8", "c11_unpremultiply_table", "C11", "alpha_handle_u8::make_unpremultiplication_table", "quick", ""),
    ("alpha_handle_u8", "bounded_c11_premultiply_row", "C11 C17", "alpha_handle_u8::premultiply_alpha_rgba_row_impl", "quick", "rows of at most 2 pixels"),
    ("alpha_handle_u16", "c11_div_by_1023", "C11", "alpha_handle_u16::div_by_1023", "quick", ""),
    ("alpha_handle_u16", "c11_div_by_4095", "C11", "alpha_handle_u16::div_by_4095", "quick", ""),
    ("alpha_handle_u16", "c11_div_by_65535", "C11", "alpha_handle_u16::div_by_65535", "quick", ""),
    ("alpha_handle_u16", "c11_premultiply_pixel_1023", "C11", "alpha_handle_u16::premultiply_alpha_rgba_row", "quick", ""),
    ("alpha_handle_u16", "c11_premultiply_pixel_65535", "C11", "alpha_handle_u16::premultiply_alpha_rgba_row", "quick", ""),
    ("alpha_handle_u16", "c11_premultiply_pixel_depth", "C11 C04", "alpha_handle_u16::premultiply_alpha_rgba_row", "quick", ""),
    ("alpha_handle_u16", "c11_unpremultiply_pixel_depth", "C11 C04", "alpha_handle_u16::unpremultiply_alpha_rgba_row", "quick", ""),
    ("nearest_sampler", "bounded_c09_nearest_position", "C09", "nearest_sampler::nearest_position", "quick", "sizes up to 64"),
    ("nearest_sampler", "bounded_c09_sample_row_rgb", "C09 C05 C06", "nearest_sampler::sample_row", "quick", "rows of 3 pixels"),
    ("nearest_sampler", "bounded_c09_sample_row_rgba16", "C09 C05 C06", "nearest_sampler::sample_row", "quick", "rows of 2 pixels"),
    ("ar30", "c13_ar30_host", "C13", "Rgb30::pack_w_a Rgb30::unpack", "quick", ""),
    ("ar30", "c13_ar30_network", "C13", "Rgb30::pack_w_a Rgb30::unpack", "quick", ""),
    ("ar30", "c13_ra30_host", "C13", "Rgb30::pack_w_a Rgb30::unpack", "quick", ""),
    ("ar30", "c13_ra30_network", "C13", "Rgb30::pack_w_a Rgb30::unpack", "quick", ""),
    ("ar30", "c13_repack", "C13 C09", "Rgb30::pack_w_a Rgb30::unpack", "quick", ""),
    ("ar30", "c13_selectors", "C13 C18", "Rgb30::from Ar30ByteOrder::from", "quick", ""),
    ("saturate_narrow", "c04_narrow_i32_u8", "C01 C04", "<i32 as SaturateNarrow<u8>>::saturate_narrow", "quick", ""),
    ("saturate_narrow", "c04_narrow_i64_u8", "C01 C04", "<i64 as SaturateNarrow<u8>>::saturate_narrow", "quick", ""),
    ("saturate_narrow", "c04_narrow_i32_u16", "C02 C04 C13", "<i32 as SaturateNarrow<u16>>::saturate_narrow", "quick", ""),
    ("saturate_narrow", "c04_narrow_i64_u16", "C02 C04", "<i64 as SaturateNarrow<u16>>::saturate_narrow", "quick", ""),
    ("mixed_storage", "c04_mixed_f32_u8", "C04", "<f32 as MixedStorage<u8>>::to_mixed", "quick", ""),
    ("mixed_storage", "c04_mixed_f32_u16", "C02 C04", "<f32 as MixedStorage<u16>>::to_mixed", "quick", ""),
    ("mixed_storage", "c04_mixed_f64_u16", "C02 C04", "<f64 as MixedStorage<u16>>::to_mixed", "quick", ""),
    ("mixed_storage", "c03_mixed_f32_f32", "C03", "<f32 as MixedStorage<f32>>::to_mixed", "quick", ""),
    ("pic_scale_error", "c18_error_codes", "C18 C08", "PicScaleError::code", "quick", ""),
    ("threading_policy", "c18_thread_count", "C18 C07", "ThreadingPolicy::thread_count", "quick", ""),
    ("sampler", "c18_from_u32", "C18", "<ResamplingFunction as From<u32>>::from", "quick", ""),
    ("sampler", "c10_filter_table", "C10 C18", "ResamplingFunction::get_resampling_filter", "quick", ""),
    ("alpha_check", "bounded_c12_scalar_u8", "C12", "alpha_check::has_non_constant_cap_alpha", "quick", "2 x 2 pixels"),
    ("alpha_check", "bounded_c12_scalar_f32", "C12", "alpha_check::has_non_constant_cap_alpha_f32_impl", "quick", "2 x 2 pixels"),
    ("image_store", "c14_make_1", "C14", "ImageStore::borrow ImageStore::from_slice ImageStoreMut::borrow ImageStoreMut::from_slice", "quick", ""),
    ("image_store", "c14_make_3", "C14", "ImageStore::borrow ImageStore::from_slice ImageStoreMut::borrow ImageStoreMut::from_slice", "quick", ""),
    ("image_store", "c14_make_4", "C14", "ImageStore::borrow ImageStore::from_slice ImageStoreMut::borrow ImageStoreMut::from_slice", "quick", ""),
    ("image_store", "c14_make_2", "C14", "ImageStore::borrow ImageStore::from_slice ImageStoreMut::borrow ImageStoreMut::from_slice", "thorough", ""),
    ("image_store", "c08_validate_1", "C08 C05", "ImageStore::validate ImageStoreMut::validate ImageStore::stride ImageStoreMut::stride", "quick", ""),
    ("image_store", "c08_validate_3", "C08 C05", "ImageStore::validate ImageStoreMut::validate ImageStore::stride ImageStoreMut::stride", "quick", ""),
    ("image_store", "c08_validate_4", "C08 C05", "ImageStore::validate ImageStoreMut::validate ImageStore::stride ImageStoreMut::stride", "quick", ""),
    ("image_store", "bounded_c14_copies", "C14", "ImageStore::copied", "quick", "2 x 2 pixels"),
    ("image_store", "bounded_c14_copied_to_mut", "C14 C06", "ImageStore::copied_to_mut", "quick", "2 x 2 pixels"),
    ("scaler", "c05_clamp_window", "C05 C04 C01", "Scaler::clamp_window", "quick", ""),
    ("filter_weights", "bounded_c04_numerical_approximation", "C01 C02 C04", "FilterWeights::numerical_approximation", "thorough", "2 rows of one tap"),
    ("filter_weights", "bounded_c04_numerical_approximation_aligned", "C01 C02 C04", "FilterWeights::numerical_approximation", "thorough", "2 rows of one tap"),
]

ASSUME = [
    "Kani/CBMC: a bounded_ harness is a bounded stand-in for its function, not a proof of it",
    "ThreadingPolicy::available_parallelism (operating system) is replaced by its contract: at least one",
    "Kani compiles the crate without SIMD features; the scalar bodies are the same source the other builds compile",
]


def env(contracts):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", PIC_SCALE_CONTRACTS=contracts)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    return e


def cargo(args, contracts, target, timeout):
    cmd = ["cargo", "kani", "--lib", "--no-default-features", "--target-dir", os.path.join(target, "kani"),
           "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options"] + args
    p = subprocess.Popen(cmd, cwd=REPO, env=env(contracts), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o, cmd
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return None, o, cmd


def parse(out):
    """-> {harness: (status, seconds, text)}"""
    cur, buf, res, t = {}, {}, {}, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            t = m.group(1) or "0"
            cur[t], buf[t] = m.group(2), []
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            t = m.group(1)
            continue
        if t is None or t not in cur:
            continue
        buf[t].append(l)
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            res[cur[t]] = [m.group(1), 0.0, buf[t]]
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m and cur[t] in res:
            res[cur[t]][1] = float(m.group(1))
    return {k: (s, d, "\n".join(b)) for k, (s, d, b) in res.items()}


def run(prop, tier, target):
    mine = [h for h in H if prop in h[2].split() and (tier == "thorough" or h[4] == "quick")]
    if not mine:
        return [], 0.0, ""
    tmp = tempfile.mkdtemp(prefix="contracts-", dir=target)
    try:
        return run_in(mine, tier, target, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(mine, tier, target, tmp):
    # only the modules this property needs are compiled in, so that one contract the code has
    # moved away from leaves the others alone
    need = {h[0] for h in mine}
    use = os.path.join(target, "kani-contracts-" + "-".join(sorted(need))[:150])
    dead = {}
    out, rc, cmd = "", None, []
    for _ in range(4):
        os.makedirs(use, exist_ok=True)
        for f in os.listdir(CONTRACTS):
            if f.endswith(".rs"):
                src = open(os.path.join(CONTRACTS, f)).read() if f[:-3] in need and f[:-3] not in dead else ""
                dst = os.path.join(use, f)
                if not os.path.exists(dst) or open(dst).read() != src:
                    open(dst, "w").write(src)
        hs = [h for h in mine if h[0] not in dead]
        if not hs:
            break
        args = ["-j", "8", "--output-format", "terse", "--harness-timeout", "200s" if tier == "quick" else "600s", "--exact"]
        for h in hs:
            args += ["--harness", f"{h[0]}::contracts::{h[1]}"]
        rc, out, cmd = cargo(args, use, target, 420 if tier == "quick" else 800)
        if "Checking harness" in out or rc is None:
            break
        bad = {m for m in re.findall(re.escape(use) + r"/(\w+)\.rs", "\n".join(
            b for b in re.split(r"\n(?=error)", out) if b.startswith("error")))}
        bad -= set(dead)
        if not bad:
            for h in hs:
                dead[h[0]] = "the crate does not compile under Kani: " + err(out)
            break
        for b in bad:
            dead[b] = "the contract no longer fits the code: " + err(out)
    res = parse(out)
    obs, total = [], 0.0
    for mod, name, props, funcs, _, bound in mine:
        o = dict(name=f"{mod}::{name}", backend="Kani/CBMC", functions=funcs.split(" ") if not funcs.startswith("<") else [funcs])
        if bound:
            o["bounded"] = bound
        full = f"{mod}::contracts::{name}"
        if full in res:
            st, sec, txt = res[full]
            total += sec
            failed = re.findall(r"Failed Checks: (.*)", txt)
            if st == "SUCCESSFUL":
                o["status"] = "proved"
            elif "timed out" in txt or not failed or any("unwinding assertion" in f or "unsupported" in f or "not currently supported" in f for f in failed):
                o["status"] = "undecided"
                o["why"] = txt[-600:]
            else:
                o["status"] = "refuted"
                o["why"] = txt[-4000:]
                replay(o, full, use, target)
        else:
            o["status"] = "undecided"
            o["why"] = dead.get(mod, "no result: " + out[-300:])
        obs.append(o)
    return obs, total, " ".join(cmd)


def err(out):
    m = re.findall(r"^error.*(?:\n.*){0,3}", out, re.M)
    return (m[0] if m else out[-300:])[:400]


def replay(o, full, use, target):
    """the counterexample of a refuted harness, run as a unit test against the real code"""
    rc, out, _ = cargo(["--exact", "--harness", full, "-Z", "concrete-playback", "--concrete-playback=print",
                        "--harness-timeout", "200s"], use, target, 300)
    m = re.search(r"```\n(.*?)```", out, re.S)
    if not m:
        return
    test = m.group(1)
    o["cex"] = test
    name = re.search(r"fn (kani_concrete_playback_\w+)", test)
    if not name:
        return
    mod = full.split("::")[0]
    d = use + "-replay"
    try:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(use, d)
        with open(os.path.join(d, mod + ".rs"), "a") as f:
            f.write("\n" + test + "\n")
        p = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--lib", "--no-default-features",
                            "--", name.group(1)],
                           cwd=REPO, env=dict(env(d), CARGO_TARGET_DIR=os.path.join(target, "kani-playback")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        o["why"] += "\n--- replay of the counterexample on the real code ---\n" + p.stdout[-1500:]
        if re.search(r"test result: FAILED", p.stdout):
            o["replayed"] = True
    except (subprocess.TimeoutExpired, OSError):
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prebuild(target):
    rc, out, _ = cargo(["--only-codegen"], CONTRACTS, target, 600)
    return rc
