//! One generator and one checker per property.  `check(prop, case)` is a pure function of the
//! case, so a printed case replays exactly.
use crate::dispatch;
use crate::oracle::{overshoots, resize_ref, Q};
use crate::run::*;
use crate::util::*;
use pic_scale::*;
use std::borrow::Cow;

pub type R = Result<(), String>;
/// Marks a deviation that is exactly the recorded finding (weights above 1 saturate).
pub const KNOWN: &str = "KNOWN:weight-saturation";

pub const FMTS: &[&str] = if cfg!(feature = "f16") { &["u8", "u16", "f32", "f16"] } else { &["u8", "u16", "f32"] };
const COMMON: &[u32] = &[0, 2, 3, 4, 6, 17, 20, 27, 28, 44];
/// all ids with a convolution kernel
pub fn any_filter(r: &mut Rng) -> u32 {
    if r.chance(0.75) {
        r.pick(COMMON)
    } else {
        loop {
            let f = r.below(49) as u32;
            if f != 1 {
                return f;
            }
        }
    }
}
fn side(r: &mut Rng) -> (usize, usize) {
    match r.below(20) {
        0..=9 => (r.range(1, 48), r.range(1, 48)),
        10..=12 => (r.range(1, 140), r.range(1, 140)),
        13 => (r.range(150, 900), r.range(1, 9)),
        14 => (r.range(1, 5), r.range(40, 300)),
        15 => (r.range(200, 1300), r.range(200, 1300)),
        16 => {
            let a = r.range(1, 64);
            (a, a)
        }
        17 => {
            let a = r.range(2, 64);
            (a, a - 1)
        }
        18 => {
            let a = r.range(1, 30);
            (a * 2, a)
        }
        _ => (r.range(1, 12), r.range(1, 12)),
    }
}
pub fn dims(c: &mut Case, r: &mut Rng, cap: usize) {
    if r.chance(0.006) {
        // long rows and columns, far outside the usual range
        let long = |r: &mut Rng| if r.chance(0.3) { r.range(30_000, 70_000) } else { r.range(1_300, 10_000) };
        let a = long(r);
        let b = if r.chance(0.5) { (a as f64 * (0.4 + 1.2 * r.unit())) as usize } else { r.range(1, 2 * a.min(4000)) };
        let (d, e) = (r.range(1, 3), r.range(1, 3));
        (c.iw, c.ow, c.ih, c.oh) = if r.chance(0.6) { (a, b, d, e) } else { (d, e, a, b) };
        if r.chance(0.2) {
            c.ow = c.iw;
        }
        // smooth kernels: positions far from the origin carry the rounding of f32
        if c.filter != 1 {
            c.filter = r.pick(&[0, 3, 4, 5, 6, 8]);
        }
        return;
    }
    loop {
        let (a, b) = side(r);
        let (d, e) = side(r);
        c.iw = a;
        c.ow = b;
        c.ih = d;
        c.oh = e;
        match r.below(6) {
            0 => c.ow = c.iw,
            1 => c.oh = c.ih,
            _ => {}
        }
        let w = c.n * (c.iw * c.ih).max(c.ow * c.oh).max(c.iw * c.oh);
        if w <= cap {
            return;
        }
    }
}
fn pads(c: &mut Case, r: &mut Rng) {
    if r.chance(0.5) {
        c.sp = r.range(0, 37);
    }
    if r.chance(0.5) {
        c.dp = r.range(0, 37);
    }
}
fn base(r: &mut Rng) -> Case {
    let fmt = r.pick(FMTS).to_string();
    let depth = if fmt == "u16" { r.pick(&[1, 2, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15, 16, 16]) } else { 8 };
    Case { fmt, n: r.range(1, 4), depth, filter: any_filter(r), quality: r.chance(0.5), seed: r.below(1 << 30), kind: r.below(8) as usize, ..Default::default() }
}
fn fixed(c: &Case) -> bool {
    c.fmt == "u8" || (c.fmt == "u16" && c.depth <= 12)
}
/// Largest admissible deviation of one pass from the real-valued convolution.
fn pass_err(c: &Case, maxabs: f64) -> impl Fn(usize, f64, f64) -> f64 + '_ {
    // sampling positions are computed in f32: on long axes they are off by more than the hull of
    // perturbed positions covers where a kernel is discontinuous
    let long = (c.iw.max(c.ih) as f64 - 1300.0).max(0.0) * 1.2e-6;
    move |taps: usize, g: f64, scale: f64| {
        // when the taps of a window nearly cancel, the rounding of their sum is amplified twice
        let gg = g * g * if g > 6.0 { 2e-5 } else { 5e-6 };
        match c.fmt.as_str() {
            // fast u8 kernels: 16-bit multiply-high per tap
            "u8" if !c.quality && scale < 8.001 => 1.75 + (2.0 + 0.1 * taps as f64) * 255.0 / 32768.0 + long * 255.0,
            "u8" | "ar30" | "ra30" => 0.55 + (2.0 + 0.1 * taps as f64) * c.max() / 32768.0 + long * c.max(),
            "u16" if c.depth <= 12 => 0.55 + (2.0 + 0.1 * taps as f64) * c.max() / 32768.0 + long * c.max(),
            "u16" => 0.51 + (4.0 + taps as f64) * 2e-7 * g.max(1.0) * c.max() + (g * 4e-6 + gg) * c.max() + long * c.max(),
            "f32" => ((2e-5 + taps as f64 * 3e-7) * g.max(1.0) + gg + long) * maxabs,
            _ => (1.5e-3 * g.max(1.0) + gg + long) * maxabs,
        }
    }
}
fn src_of<T: Px>(c: &Case) -> Vec<T> {
    let mut v = content::<T>(c, c.iw, c.ih, c.n, c.seed);
    if !T::INT && c.x == 3 {
        // floats are not confined to [0,1]
        v.iter_mut().for_each(|p| *p = T::of(p.f() * 40.0 - 15.0));
    }
    if c.kind == 11 && c.n == 4 {
        let mut r = Rng::new(c.seed ^ 0xA1FA);
        let m = c.max();
        let a0 = if r.chance(0.5) { m } else if T::INT { 1.0 + r.below(m as u64) as f64 } else { 0.1 + 0.9 * r.unit() };
        let at = match r.below(4) {
            0 => c.iw * c.ih - 1,
            1 => 0,
            _ => r.below((c.iw * c.ih) as u64) as usize,
        };
        let mut a1 = a0;
        while a1 == a0 {
            a1 = if r.chance(0.4) { 0.0 } else if T::INT { r.below(m as u64 + 1) as f64 } else { r.unit() };
        }
        for i in 0..c.iw * c.ih {
            v[i * 4 + 3] = T::of(if i == at { a1 } else { a0 });
        }
    }
    v
}
fn accuracy<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let out = run_tight::<T, N>(c, &src, c.seed)?;
    compare::<T, N>(c, &src, &out)
}
fn compare<T: Px, const N: usize>(c: &Case, src: &[T], out: &[T]) -> R {
    let s64: Vec<f64> = src.iter().map(|x| x.f()).collect();
    let maxabs = s64.iter().fold(1e-3f64, |a, b| a.max(b.abs()));
    let clamp = if T::INT { Some(c.max()) } else { None };
    let err = pass_err(c, maxabs);
    let test = |q: Q| -> R {
        let (lo, hi) = resize_ref(&s64, (c.iw, c.ih), (c.ow, c.oh), N, c.filter, clamp, q, &err);
        for i in 0..out.len() {
            let o = out[i].f();
            // final storage rounding of the intermediate f16
            let e = 1e-9 + if T::INT { 0.0 } else { maxabs * 1e-6 };
            if !(o >= lo[i] - e && o <= hi[i] + e) {
                return Err(format!(
                    "output row {} column {} channel {} is {}, the {} convolution admits [{:.4}, {:.4}]",
                    i / (c.ow * N), i / N % c.ow, i % N, o, if q == Q::Sat { "saturated" } else { "documented" }, lo[i], hi[i]
                ));
            }
        }
        Ok(())
    };
    if !fixed(c) {
        return test(Q::No);
    }
    match test(Q::Fixed) {
        Ok(()) => Ok(()),
        Err(e) => {
            let over = (c.iw != c.ow && overshoots(c.filter, c.iw, c.ow)) || (c.ih != c.oh && overshoots(c.filter, c.ih, c.oh));
            if over && test(Q::Sat).is_ok() {
                Err(format!("{KNOWN} {e}"))
            } else {
                Err(e)
            }
        }
    }
}

// ---------------------------------------------------------------- C01..C03
fn gen_acc(r: &mut Rng, fmts: &[&str]) -> Case {
    let mut c = base(r);
    c.fmt = r.pick(fmts).to_string();
    c.depth = if c.fmt == "u16" { r.pick(&[1, 4, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15, 16, 16]) } else { 8 };
    c.kind = r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 7]);
    c.x = r.below(4) as usize;
    c.th = if r.chance(0.25) { r.range(1, 4) } else { 0 };
    c.api = r.chance(0.1) as usize;
    if c.api == 1 {
        c.quality = false;
        c.th = c.th.min(1);
    }
    dims(&mut c, r, 24_000);
    if r.chance(0.05) {
        // strong downscaling along one axis
        let (long, short, out) = (r.range(200, 3000), r.range(1, 6), r.range(1, 7));
        (c.iw, c.ih, c.ow, c.oh) = if r.chance(0.5) { (long, short, out, short) } else { (short, long, short, out) };
    }
    pads(&mut c, r);
    c
}

// ---------------------------------------------------------------- C04
fn c04<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let out = run_tight::<T, N>(c, &src, c.seed)?;
    if T::INT {
        if let Some(i) = out.iter().position(|o| o.f() > c.max()) {
            return Err(format!("sample {} is {} above the maximum {}", i, out[i].f(), c.max()));
        }
    }
    if (4..=6).contains(&c.kind) {
        let axis = |i: usize, o: usize| -> (usize, f64) {
            if i == o {
                return (0, 1.0);
            }
            crate::oracle::weights(c.filter, i, o).iter().fold((0, 1.0), |(t, g), w| (t.max(w.w.len()), w.w.iter().map(|x| x.abs()).sum::<f64>().max(g)))
        };
        let ((tv, gv), (th, gh)) = (axis(c.ih, c.oh), axis(c.iw, c.ow));
        let tol = |v: f64| {
            let pe = pass_err(c, v.abs());
            let q = if fixed(c) { 0.5 * v / 32768.0 } else { 0.0 };
            let e = |t: usize, g: f64, s: f64| if t == 0 { 0.0 } else { pe(t, g, s) + q * t as f64 };
            // the float path of 16-bit samples: both passes round to nearest, so what stays below half
            // a level vanishes and the constant comes back exactly
            let f = |t: usize, g: f64| if t == 0 { 0.0 } else { (8.0 + t as f64) * 2e-7 * g * g * v };
            if v == 0.0 || c.fmt == "u16" && !fixed(c) && f(tv, gv).max(f(th, gh)) < 0.45 {
                0.0
            } else {
                0.5 * T::INT as u8 as f64 + e(tv, gv, c.ih as f64 / c.oh as f64) * gh + e(th, gh, c.iw as f64 / c.ow as f64)
            }
        };
        for i in 0..out.len() {
            let (o, v) = (out[i].f(), src[i % N].f());
            if !((o - v).abs() <= tol(v)) {
                let e = format!("constant {} became {} at row {} column {} channel {}", v, o, i / (c.ow * N), i / N % c.ow, i % N);
                return match compare::<T, N>(c, &src, &out) {
                    Err(k) if k.starts_with(KNOWN) => Err(format!("{KNOWN} {e}")),
                    _ => Err(e),
                };
            }
        }
    }
    Ok(())
}
/// kernels that are not centred on the sampling position or vanish there do not reach every
/// source sample at every scale; constants are only promised for kernels whose weights sum to 1
fn gen04(r: &mut Rng) -> Case {
    let mut c = gen_acc(r, FMTS);
    c.kind = r.pick(&[4, 4, 4, 5, 6, 1, 1, 0]);
    c.x = 0;
    if r.chance(0.0004) {
        // positions beyond the exact integers of f32
        (c.fmt, c.n, c.kind, c.ih, c.oh) = ("u8".into(), 1, 4, 1, 1);
        c.filter = r.pick(&[48, 0, 2]);
        (c.iw, c.ow) = if c.filter == 48 || r.chance(0.5) { (r.range(1, 9), r.range(9_000_000, 17_000_000)) } else { (r.range(1 << 24, (1 << 24) + 99), r.range(1, 2000)) };
    }
    c
}
/// an axis longer than the integers f32 holds exactly
fn giant(c: &mut Case, r: &mut Rng) {
    (c.fmt, c.n, c.th, c.sp, c.dp) = ("u8".into(), 1, 1, 0, 0);
    c.filter = r.pick(&[0, 2, 28, 3, 48]);
    let (a, b) = ((1 << 24) + r.range(1, 99), r.range(500, 5000));
    (c.iw, c.ow, c.ih, c.oh) = if r.chance(0.7) { (a, b, 1, 1) } else { (1, 1, a, b) };
}

// ---------------------------------------------------------------- C05
fn c05<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    crate::galloc::ON.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = run_tight::<T, N>(c, &src, c.seed);
    crate::galloc::ON.store(false, std::sync::atomic::Ordering::SeqCst);
    r.map(|_| ())
}
fn gen05(r: &mut Rng) -> Case {
    let packed = r.chance(0.15);
    let mut c = gen_acc(r, if packed { &["ar30", "ra30"] } else { FMTS });
    c.pm = r.chance(0.5);
    c.kind = r.pick(&[0, 1, 8, 9, 10, 11]);
    if r.chance(0.1) {
        c.filter = 1;
    }
    if c.fmt.ends_with("30") {
        c.n = 4;
        c.x = r.below(2) as usize;
    } else if r.chance(0.1) && cfg!(feature = "colorspaces") {
        c.fmt = "u8".into();
        c.n = r.range(3, 4);
        c.api = 2 + r.below(9) as usize;
    }
    c
}

// ---------------------------------------------------------------- C06
fn c06<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let padded = run_tight::<T, N>(c, &src, c.seed)?;
    let mut t = c.clone();
    t.sp = 0;
    t.dp = 0;
    let tight = run_tight::<T, N>(&t, &src, c.seed)?;
    same(&tight, &padded, c.ow, N, "tight rows", "padded rows")?;
    // other padding content
    let other = run_tight::<T, N>(c, &src, c.seed ^ 0xDEAD)?;
    same(&padded, &other, c.ow, N, "one padding content", "another padding content")
}
pub fn same<T: Px>(a: &[T], b: &[T], w: usize, n: usize, an: &str, bn: &str) -> R {
    for i in 0..a.len().max(b.len()) {
        if a[i].bits() != b[i].bits() {
            return Err(format!("row {} column {} channel {}: {} with {an}, {} with {bn}", i / (w * n), i / n % w, i % n, a[i].f(), b[i].f()));
        }
    }
    Ok(())
}
fn gen06(r: &mut Rng) -> Case {
    let mut c = gen05(r);
    c.sp = if r.chance(0.7) { r.range(1, 40) } else { 0 };
    c.dp = if r.chance(0.7) || c.sp == 0 { r.range(1, 40) } else { 0 };
    if r.chance(0.1) {
        c.ow = c.iw;
        c.oh = c.ih;
    }
    c
}

// ---------------------------------------------------------------- C07
fn c07<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let mut s = c.clone();
    s.th = 0;
    let single = run_tight::<T, N>(&s, &src, c.seed)?;
    let multi = run_tight::<T, N>(c, &src, c.seed)?;
    same(&single, &multi, c.ow, N, "a single thread", &format!("{:?}", policy(c.th)))?;
    let again = run_tight::<T, N>(c, &src, c.seed ^ 5)?;
    same(&multi, &again, c.ow, N, "the first call", "a repeated call")?;
    // histories: one scaler reused after other work and after option changes, from two threads
    let sc = scaler(c);
    let keep = src.clone();
    let work = |c2: &Case, sc: &Scaler| -> Result<Vec<T>, String> {
        let img = content::<T>(c2, c2.iw, c2.ih, N, c2.seed);
        let st = ImageStore::<T, N> { buffer: Cow::Borrowed(&img), channels: N, width: c2.iw, height: c2.ih, stride: c2.iw * N, bit_depth: c2.depth };
        let mut dt = ImageStoreMut::<T, N>::alloc_with_depth(c2.ow, c2.oh, c2.depth);
        guarded(|| T::rz(sc, &st, &mut dt, c2.pm)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| format!("error {e}"))?;
        Ok(dt.buffer.borrow().to_vec())
    };
    let mut o = c.clone();
    o.kind = 0;
    o.iw = c.ow;
    o.ow = c.iw;
    o.ih = c.oh;
    o.oh = c.ih;
    let fresh = work(&o, &scaler(c))?;
    let (p, q) = std::thread::scope(|sp| {
        let a = sp.spawn(|| work(&o, &sc));
        let b = sp.spawn(|| work(&o, &sc));
        (a.join().unwrap(), b.join().unwrap())
    });
    same(&fresh, &p?, o.ow, N, "a fresh scaler", "a scaler shared by two threads")?;
    same(&fresh, &q?, o.ow, N, "a fresh scaler", "a scaler shared by two threads")?;
    let mut sc2 = scaler(c);
    sc2.set_threading_policy(ThreadingPolicy::Fixed(2));
    sc2.set_workload_strategy(if c.quality { WorkloadStrategy::PreferSpeed } else { WorkloadStrategy::PreferQuality });
    let _ = work(&o, &sc2)?;
    sc2.set_workload_strategy(if c.quality { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
    sc2.set_threading_policy(policy(c.th));
    same(&fresh, &work(&o, &sc2)?, o.ow, N, "a fresh scaler", "a scaler with an option history")?;
    if keep.iter().zip(&src).any(|(a, b)| a.bits() != b.bits()) {
        return Err("the source image was modified".into());
    }
    Ok(())
}
fn gen07(r: &mut Rng) -> Case {
    let mut c = gen05(r);
    if c.fmt.ends_with("30") || c.api >= 2 {
        c.fmt = "u8".into();
        c.api = 0;
    }
    c.api = 0;
    c.th = r.pick(&[1, 2, 3, 4, 5, 7, 8, 999]);
    if r.chance(0.04) {
        // large enough for the adaptive policy to use several threads
        c.th = 999;
        c.n = r.range(1, 4);
        c.iw = r.range(400, 600);
        c.ih = r.range(300, 500);
        c.ow = r.range(400, 600);
        c.oh = r.range(400, 600);
        c.filter = r.pick(&[0, 4, 17]);
    }
    c
}

// ---------------------------------------------------------------- C09
fn c09<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let out = run_tight::<T, N>(c, &src, c.seed)?;
    let same_size = c.iw == c.ow && c.ih == c.oh;
    let at = |p: usize, s: usize, d: usize| if same_size { p } else { ((2 * p + 1) * s - 1) / (2 * d) };
    for y in 0..c.oh {
        for x in 0..c.ow {
            let (sx, sy) = (at(x, c.iw, c.ow), at(y, c.ih, c.oh));
            for k in 0..N {
                let (o, s) = (out[(y * c.ow + x) * N + k], src[(sy * c.iw + sx) * N + k]);
                if o.bits() != s.bits() {
                    return Err(format!("output ({x},{y}) channel {k} is {} but the {} source pixel ({sx},{sy}) is {}", o.f(), if same_size { "same" } else { "closest" }, s.f()));
                }
            }
        }
    }
    Ok(())
}
fn gen09(r: &mut Rng) -> Case {
    let mut c = gen05(r);
    if c.fmt.ends_with("30") && c.n != 4 {
        c.n = 4;
    }
    if c.api >= 2 {
        // colour-space scalers: the same-size path is a copy
        c.ow = c.iw;
        c.oh = c.ih;
    } else if r.chance(0.45) {
        c.ow = c.iw;
        c.oh = c.ih;
    } else {
        c.filter = 1;
    }
    c.kind = 0;
    c
}

// ---------------------------------------------------------------- C11 / C12
fn alpha<T: Rz<N>, const N: usize>(c: &Case) -> R {
    if N != 4 {
        return Ok(());
    }
    let src = src_of::<T>(c);
    let out = run_tight::<T, N>(c, &src, c.seed)?;
    let m = c.max();
    let a0 = src[3].bits();
    let is_const = src.chunks_exact(4).all(|p| p[3].bits() == a0);
    if !c.pm || c.iw == c.ow && c.ih == c.oh {
        return Ok(());
    }
    if is_const && T::NAME != "f16" {
        // C12: constant alpha is passed through the plain path, bit for bit
        let mut p = c.clone();
        p.pm = false;
        let plain = run_tight::<T, N>(&p, &src, c.seed)?;
        return same(&plain, &out, c.ow, N, "premultiply off", "premultiply on and constant alpha");
    }
    // reference: associate, resize, dissociate
    let mut lo = vec![0.0; src.len()];
    let mut hi = vec![0.0; src.len()];
    let assoc = if T::INT { 1.0 } else { 0.0 };
    let frel = match T::NAME {
        "f32" => 4e-6,
        "f16" => 4e-3,
        _ => 0.0,
    };
    for (i, p) in src.chunks_exact(4).enumerate() {
        for k in 0..4 {
            let (a, v) = (p[3].f(), p[k].f());
            let q = if k == 3 { v } else if T::INT { v * a / m } else { v * a };
            let e = if k == 3 { 0.0 } else { assoc + frel * q.abs() };
            lo[i * 4 + k] = if T::INT { (q - e).max(0.0) } else { q - e };
            hi[i * 4 + k] = q + e;
        }
    }
    // where the kernel nearly cancels on a window (sum of |w| of dozens) the quotient of two
    // such sums is not promised any digits
    if wsum(c) > 12.0 {
        return Ok(());
    }
    let err = pass_err(c, 1.0);
    let clamp = if T::INT { Some(m) } else { None };
    let test = |q: Q| -> R {
        let (l, _) = resize_ref(&lo, (c.iw, c.ih), (c.ow, c.oh), 4, c.filter, clamp, q, &err);
        let (_, h) = resize_ref(&hi, (c.iw, c.ih), (c.ow, c.oh), 4, c.filter, clamp, q, &err);
        // negative weights swap the ends: enclose the association error separately
        let spread = |g: f64| assoc * g;
        let gmax = wsum(c);
        for i in 0..c.ow * c.oh {
            let a = out[i * 4 + 3].f();
            let (al, ah) = (l[i * 4 + 3] - 1e-9, h[i * 4 + 3] + 1e-9 + frel);
            if !(a >= al.min(ah) - frel && a <= ah) {
                return Err(format!("alpha at ({},{}) is {a}, its own resize admits [{al:.7}, {ah:.7}]", i % c.ow, i / c.ow));
            }
            if a == 0.0 {
                if let Some(k) = (0..3).find(|k| out[i * 4 + k].f() != 0.0) {
                    return Err(format!("colour {k} at ({},{}) is {} although the pixel is fully transparent", i % c.ow, i / c.ow, out[i * 4 + k].f()));
                }
            }
            if a <= 0.0 || (!T::INT && a < 0.02) {
                continue; // the quotient of two values next to nothing is not promised any digits
            }
            for k in 0..3 {
                let (pl, ph) = (l[i * 4 + k].min(h[i * 4 + k]) - spread(gmax), l[i * 4 + k].max(h[i * 4 + k]) + spread(gmax));
                let s = if T::INT { m / a } else { 1.0 / a };
                let (mut cl, mut ch) = (pl * s, ph * s);
                let e = if T::INT { 1.0 + 4.5e-4 * ch.abs().max(cl.abs()).min(2.0 * m) } else { (frel + 1e-5) * ch.abs().max(cl.abs()).max(1.0) / a };
                cl -= e;
                ch += e;
                if T::INT {
                    cl = cl.min(m);
                    ch = ch.max(0.0);
                }
                let o = out[i * 4 + k].f();
                if !(o >= cl - 1e-9 && o <= ch + 1e-9) {
                    return Err(format!(
                        "colour {k} at ({},{}) is {o} (alpha {a}), alpha-weighted resampling admits [{cl:.4}, {ch:.4}]",
                        i % c.ow, i / c.ow
                    ));
                }
                if T::INT && o > m {
                    return Err(format!("colour {o} above the maximum {m}"));
                }
            }
        }
        Ok(())
    };
    if !fixed(c) {
        return test(Q::No);
    }
    test(Q::Fixed).or_else(|e| {
        let over = (c.iw != c.ow && overshoots(c.filter, c.iw, c.ow)) || (c.ih != c.oh && overshoots(c.filter, c.ih, c.oh));
        if over && test(Q::Sat).is_ok() {
            Err(format!("{KNOWN} {e}"))
        } else {
            Err(e)
        }
    })
}
fn wsum(c: &Case) -> f64 {
    let g = |i: usize, o: usize| {
        if i == o {
            1.0
        } else {
            crate::oracle::weights(c.filter, i, o).iter().map(|w| w.w.iter().map(|x| x.abs()).sum::<f64>()).fold(1.0, f64::max)
        }
    };
    g(c.iw, c.ow) * g(c.ih, c.oh)
}
fn gen11(r: &mut Rng) -> Case {
    let mut c = gen_acc(r, FMTS);
    c.n = 4;
    c.pm = true;
    c.x = 0;
    c.kind = r.pick(&[8, 8, 0, 11, 11, 1]);
    if c.api == 1 {
        c.api = r.below(2) as usize;
    }
    if c.iw * c.ih > 6000 || c.ow * c.oh > 6000 {
        dims(&mut c, r, 24_000);
    }
    c
}
fn gen12(r: &mut Rng) -> Case {
    let mut c = gen11(r);
    c.kind = r.pick(&[9, 9, 10, 11, 11, 11]);
    c
}

// ---------------------------------------------------------------- C17
fn c17<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let src = src_of::<T>(c);
    let out = run_tight::<T, N>(c, &src, c.seed)?;
    let mut r = Rng::new(c.seed ^ 0x17);
    let k = r.below(N as u64) as usize;
    let mut alt = src.clone();
    for i in 0..c.iw * c.ih {
        alt[i * N + k] = if r.chance(0.5) { T::of(0.0) } else { T::of(c.max() * if T::INT { 1.0 } else { r.unit() }) };
    }
    let out2 = run_tight::<T, N>(c, &alt, c.seed)?;
    for i in 0..out.len() {
        if i % N != k && out[i].bits() != out2[i].bits() {
            return Err(format!(
                "changing only channel {k} changed channel {} at ({},{}) from {} to {}",
                i % N, i / N % c.ow, i / N / c.ow, out[i].f(), out2[i].f()
            ));
        }
    }
    // spatial locality: a source row/column outside every window has no influence
    let vs = |i: usize, o: usize| -> Vec<(usize, usize)> {
        if i == o {
            (0..o).map(|p| (p, p + 1)).collect()
        } else {
            crate::oracle::weights(c.filter, i, o).iter().map(|w| (w.start.saturating_sub(1), w.start + w.w.len() + 1)).collect()
        }
    };
    let (wx, wy) = (vs(c.iw, c.ow), vs(c.ih, c.oh));
    let (px, py) = (r.below(c.iw as u64) as usize, r.below(c.ih as u64) as usize);
    let mut alt = src.clone();
    for q in 0..N {
        let i = (py * c.iw + px) * N + q;
        alt[i] = T::of(if src[i].f() > c.max() / 2.0 { 0.0 } else { c.max() });
    }
    let out3 = run_tight::<T, N>(c, &alt, c.seed)?;
    for i in 0..out.len() {
        let (x, y) = (i / N % c.ow, i / N / c.ow);
        let inside = (wx[x].0..wx[x].1).contains(&px) && (wy[y].0..wy[y].1).contains(&py);
        if !inside && out[i].bits() != out3[i].bits() {
            return Err(format!("source pixel ({px},{py}) lies outside the window of output ({x},{y}) and yet changes it from {} to {}", out[i].f(), out3[i].f()));
        }
    }
    Ok(())
}
fn gen17(r: &mut Rng) -> Case {
    let mut c = gen_acc(r, FMTS);
    c.n = r.pick(&[2, 3, 3, 4, 4]);
    c.x = 0;
    c.kind = r.pick(&[0, 1, 7]);
    if c.n * c.iw * c.ih > 12000 || c.n * c.ow * c.oh > 12000 {
        dims(&mut c, r, 12_000);
    }
    c
}

// ---------------------------------------------------------------- C13
pub fn src30(c: &Case) -> Vec<u8> {
    let mut r = Rng::new(c.seed ^ 0x30);
    let ra = c.fmt == "ra30";
    let net = c.x & 1 == 1;
    let k0 = [r.below(1024) as u32, r.below(1024) as u32, r.below(1024) as u32];
    let mut v = Vec::new();
    for _ in 0..c.iw * c.ih {
        let rgb = match c.kind {
            4 => k0,
            5 => [1023; 3],
            6 => [0; 3],
            1 => [0; 3].map(|_: u32| if r.chance(0.5) { 1023 } else { 0 }),
            _ => [0; 3].map(|_: u32| r.below(1024) as u32),
        };
        let a = if c.kind == 2 { r.below(4) as u32 } else { 3 };
        v.extend_from_slice(&pack30(ra, net, rgb, a));
    }
    v
}
pub fn run30_tight(c: &Case, src: &[u8], pseed: u64) -> Result<Vec<u8>, String> {
    let (sp, dp) = (c.sp / 4 * 4, c.dp / 4 * 4);
    let sb = with_pad(src, c.iw * 4, c.ih, sp, pseed ^ 0x51);
    let ds = c.ow * 4 + dp;
    let mut rr = Rng::new(pseed ^ 0x77);
    let before: Vec<u8> = (0..ds * c.oh).map(|_| garbage(&mut rr)).collect();
    let mut d = before.clone();
    guarded(|| run30(c, &sb, c.iw * 4 + sp, &mut d, ds)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| format!("returned error: {e}"))?;
    for y in 0..c.oh {
        for i in c.ow * 4..ds {
            if before[y * ds + i] != d[y * ds + i] {
                return Err(format!("destination padding modified at row {y}, byte {i}"));
            }
        }
    }
    Ok(strip(&d, c.ow * 4, c.oh, dp))
}
fn c13(c: &Case) -> R {
    let src = src30(c);
    let out = run30_tight(c, &src, c.seed)?;
    let (ra, net) = (c.fmt == "ra30", c.x & 1 == 1);
    let un = |b: &[u8]| unpack30(ra, net, [b[0], b[1], b[2], b[3]]);
    if c.iw == c.ow && c.ih == c.oh {
        return same(&src, &out, c.ow, 4, "the source", "the copy");
    }
    if c.filter == 1 {
        let at = |p: usize, s: usize, d: usize| ((2 * p + 1) * s - 1) / (2 * d);
        for i in 0..c.ow * c.oh {
            let j = at(i / c.ow, c.ih, c.oh) * c.iw + at(i % c.ow, c.iw, c.ow);
            if out[i * 4..i * 4 + 4] != src[j * 4..j * 4 + 4] {
                return Err(format!("nearest output pixel {i} is not source pixel {j}"));
            }
        }
        return Ok(());
    }
    let s64: Vec<f64> = src.chunks_exact(4).flat_map(|p| un(p).0).map(|v| v as f64).collect();
    let err = pass_err(c, 1.0);
    let test = |q: Q| -> R {
        let (lo, hi) = resize_ref(&s64, (c.iw, c.ih), (c.ow, c.oh), 3, c.filter, Some(1023.0), q, &err);
        for (i, p) in out.chunks_exact(4).enumerate() {
            let (rgb, _) = un(p);
            for k in 0..3 {
                let o = rgb[k] as f64;
                if !(o >= lo[i * 3 + k] - 1e-9 && o <= hi[i * 3 + k] + 1e-9) {
                    return Err(format!(
                        "channel {k} of packed output ({},{}) is {o}, the convolution admits [{:.3}, {:.3}]",
                        i % c.ow, i / c.ow, lo[i * 3 + k], hi[i * 3 + k]
                    ));
                }
            }
        }
        Ok(())
    };
    test(Q::Fixed).or_else(|e| {
        let over = (c.iw != c.ow && overshoots(c.filter, c.iw, c.ow)) || (c.ih != c.oh && overshoots(c.filter, c.ih, c.oh));
        if over && test(Q::Sat).is_ok() {
            Err(format!("{KNOWN} {e}"))
        } else {
            Err(e)
        }
    })?;
    if c.kind != 2 {
        // an opaque image stays opaque
        if let Some(i) = out.chunks_exact(4).position(|p| un(p).1 != 3) {
            return Err(format!("opaque image got 2-bit alpha {} at pixel {i}", un(&out[i * 4..i * 4 + 4]).1));
        }
    }
    // byte order and layout are a mere re-encoding of the same result
    for (fmt, x) in [("ar30", 0), ("ar30", 1), ("ra30", 0), ("ra30", 1)] {
        let mut o = c.clone();
        o.fmt = fmt.into();
        o.x = x;
        let s2: Vec<u8> = src.chunks_exact(4).flat_map(|p| { let (v, a) = un(p); pack30(fmt == "ra30", x == 1, v, a) }).collect();
        let o2 = run30_tight(&o, &s2, c.seed)?;
        for i in 0..c.ow * c.oh {
            let a = un(&out[i * 4..i * 4 + 4]).0;
            let b = unpack30(fmt == "ra30", x == 1, o2[i * 4..i * 4 + 4].try_into().unwrap()).0;
            if a != b {
                return Err(format!("pixel {i} is {a:?} but {b:?} when the same image is stored as {fmt} order {x}"));
            }
        }
    }
    Ok(())
}
fn gen13(r: &mut Rng) -> Case {
    let mut c = gen_acc(r, &["ar30", "ra30"]);
    c.n = 4;
    c.x = r.below(2) as usize;
    c.api = 0;
    c.kind = r.pick(&[0, 0, 1, 2, 4, 5]);
    if r.chance(0.08) {
        c.filter = 1;
    }
    if r.chance(0.05) {
        c.ow = c.iw;
        c.oh = c.ih;
    }
    c
}

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C01" => gen_acc(r, &["u8"]),
        "C02" => gen_acc(r, &["u16"]),
        "C03" => gen_acc(r, if cfg!(feature = "f16") { &["f32", "f16"] } else { &["f32"] }),
        "C04" => gen04(r),
        "C05" => {
            let mut c = gen05(r);
            if !c.fmt.ends_with("30") && c.api < 2 && r.chance(0.002) {
                giant(&mut c, r);
            }
            c
        }
        "C06" => gen06(r),
        "C07" => gen07(r),
        "C09" => gen09(r),
        "C11" => gen11(r),
        "C12" => gen12(r),
        "C13" => gen13(r),
        "C16" => crate::more::gen16(r),
        "C17" => gen17(r),
        "C08" => crate::more::gen08(r),
        "C10" => crate::more::gen10(r),
        "C14" => crate::more::gen14(r),
        "C15" => crate::more::gen15(r),
        "C18" => crate::more::gen18(r),
        _ => panic!("unknown property"),
    }
}
pub fn check(prop: &str, c: &Case) -> R {
    let is30 = c.fmt.ends_with("30");
    match prop {
        "C01" | "C02" | "C03" => dispatch!(c, accuracy),
        "C04" => dispatch!(c, c04),
        "C05" if is30 => guarded_alloc(|| run30_tight(c, &src30(c), c.seed).map(|_| ())),
        "C05" if c.api >= 2 => guarded_alloc(|| crate::more::color_run(c).map(|_| ())),
        "C05" => dispatch!(c, c05),
        "C06" if is30 => {
            let s = src30(c);
            let a = run30_tight(c, &s, c.seed)?;
            let mut t = c.clone();
            t.sp = 0;
            t.dp = 0;
            same(&run30_tight(&t, &s, 1)?, &a, c.ow, 4, "tight rows", "padded rows")
        }
        "C06" if c.api >= 2 => {
            let a = crate::more::color_run(c)?;
            let mut t = c.clone();
            t.sp = 0;
            t.dp = 0;
            same(&crate::more::color_run(&t)?, &a, c.ow, c.n, "tight rows", "padded rows")
        }
        "C06" => dispatch!(c, c06),
        "C07" => dispatch!(c, c07),
        "C09" if is30 => c13(c),
        "C09" if c.api >= 2 => {
            let src = content::<u8>(c, c.iw, c.ih, c.n, c.seed);
            same(&src, &crate::more::color_run(c)?, c.ow, c.n, "the source", "the same-size result")
        }
        "C09" => dispatch!(c, c09),
        "C11" | "C12" => dispatch!(c, alpha),
        "C13" => c13(c),
        "C17" => dispatch!(c, c17),
        "C08" => crate::more::c08(c),
        "C10" => crate::more::c10(c),
        "C14" => crate::more::c14(c),
        "C15" => crate::more::c15(c),
        "C16" => Ok(()),
        "C18" => crate::more::c18(c),
        _ => Err("unknown property".into()),
    }
}
fn guarded_alloc(f: impl FnOnce() -> R) -> R {
    crate::galloc::ON.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = f();
    crate::galloc::ON.store(false, std::sync::atomic::Ordering::SeqCst);
    r
}
