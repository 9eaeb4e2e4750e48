//! Error contract (C08), kernels (C10), image stores (C14), colour spaces (C15), configuration
//! (C18) and the sample generator of the backend comparison (C16).
use crate::dispatch;
use crate::props::{any_filter, dims, same, FMTS, R};
use crate::run::*;
use crate::util::*;
use pic_scale::*;
use std::borrow::Cow;

fn desc(r: &Result<(), PicScaleError>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => format!("{e:?}"),
    }
}

// ---------------------------------------------------------------- C08
/// c.x selects the violated requirement (see `want`)
const SCEN: usize = 14;
pub fn gen08(r: &mut Rng) -> Case {
    let mut fm: Vec<&str> = FMTS.to_vec();
    fm.extend_from_slice(&["ar30", "ra30"]);
    let fmt = r.pick(&fm).to_string();
    let mut c = Case {
        n: if fmt.ends_with("30") { 4 } else { r.range(1, 4) },
        depth: r.pick(&[8, 10, 12, 14, 16]),
        filter: if r.chance(0.15) { 1 } else { any_filter(r) },
        quality: r.chance(0.5),
        seed: r.below(1 << 30),
        iw: r.range(1, 20),
        ih: r.range(1, 20),
        ow: r.range(1, 20),
        oh: r.range(1, 20),
        pm: r.chance(0.3),
        x: r.below(SCEN as u64) as usize,
        fmt,
        ..Default::default()
    };
    if r.chance(0.15) {
        c.ow = c.iw;
        c.oh = c.ih;
    }
    if r.chance(0.5) {
        c.sp = r.range(1, 9);
        c.dp = r.range(1, 9);
    }
    c.api = r.chance(0.1) as usize;
    if cfg!(feature = "colorspaces") && r.chance(0.15) {
        c.fmt = "u8".into();
        c.n = r.range(3, 4);
        c.api = 2 + r.below(9) as usize;
    }
    c
}
struct G {
    iw: usize,
    ih: usize,
    ow: usize,
    oh: usize,
    ss: usize,
    ds: usize,
    sl: usize,
    dl: usize,
    depth: usize,
    /// expected outcome: codes admitted (0 = Ok)
    codes: Vec<usize>,
}
fn geometry(c: &Case, unit: usize) -> G {
    let mut r = Rng::new(c.seed ^ 0x08);
    let (iw, ih, ow, oh) = (c.iw, c.ih, c.ow, c.oh);
    let ss = iw * unit + c.sp;
    let ds = ow * unit + c.dp;
    let mut g = G { iw, ih, ow, oh, ss, ds, sl: ss * ih, dl: ds * oh, depth: c.depth, codes: vec![0] };
    let is30 = c.fmt.ends_with("30");
    let off = |r: &mut Rng, l: usize| match r.below(4) {
        0 => l + 1,
        1 => l - 1,
        2 => l + r.range(1, 50),
        _ => r.below(l as u64) as usize,
    };
    match c.x {
        0 => {
            g.sl = off(&mut r, g.sl);
            g.codes = vec![4];
        }
        1 => {
            g.dl = off(&mut r, g.dl);
            g.codes = vec![4];
        }
        2 => {
            // the length agrees with the stride but the stride is shorter than a row
            g.ss = 1 + r.below((iw * unit) as u64) as usize;
            if g.ss == iw * unit {
                g.ss -= 1;
            }
            if g.ss == 0 {
                g.ss = ss;
            } else {
                g.codes = vec![5];
            }
            g.sl = g.ss * ih;
        }
        3 => {
            g.ds = 1 + r.below((ow * unit) as u64) as usize;
            if g.ds == ow * unit {
                g.ds -= 1;
            }
            if g.ds == 0 {
                g.ds = ds;
            } else {
                g.codes = vec![5];
            }
            g.dl = g.ds * oh;
        }
        4 => {
            g.iw = 0;
            g.ss = 0;
            g.sl = 0;
            g.codes = vec![1];
        }
        5 => {
            g.ih = 0;
            g.sl = 0;
            g.codes = vec![1];
        }
        6 => {
            g.ow = 0;
            g.ds = 0;
            g.dl = 0;
            g.codes = vec![1];
        }
        7 => {
            g.oh = 0;
            g.dl = 0;
            g.codes = vec![1];
        }
        8 => {
            if c.fmt == "u16" {
                g.depth = r.pick(&[0, 17, 18, 32, 64, 255]);
                g.codes = vec![6];
            }
        }
        9 => {
            // dimensions whose product does not fit in memory
            let big = r.pick(&[usize::MAX, usize::MAX / 2, (usize::MAX / unit).saturating_add(1), 1 << 62, 1 << 40]);
            if r.chance(0.5) {
                g.iw = big;
                g.ih = big;
            } else {
                g.ow = big;
                g.oh = big;
            }
            if r.chance(0.5) && !is30 {
                g.ss = 0;
                g.ds = 0;
            }
            g.codes = vec![2, 3, 4, 5];
        }
        10 => {
            if !is30 {
                // zero stride means tight rows
                g.ss = 0;
                g.ds = 0;
                g.sl = iw * unit * ih;
                g.dl = ow * unit * oh;
            }
        }
        11 => {
            // two violations at once: any of them may be reported
            g.sl += 3;
            g.dl += 5;
            g.codes = vec![4];
        }
        12 => {
            g.iw = 0;
            g.ih = 0;
            g.sl = 0;
            g.ss = 0;
            g.ow = 0;
            g.ds = 0;
            g.dl = 0;
            g.codes = vec![1];
        }
        _ => {}
    }
    g
}
fn verdict(c: &Case, g: &G, unit: usize, res: Result<Result<(), PicScaleError>, String>, changed: bool) -> R {
    let res = res.map_err(|p| format!("panicked instead of returning (expected codes {:?}): {p}", g.codes))?;
    let code = match &res {
        Ok(()) => 0,
        Err(e) => e.code(),
    };
    if !g.codes.contains(&code) {
        return Err(format!("returned {} (code {code}), the contract admits codes {:?}", desc(&res), g.codes));
    }
    if code != 0 && changed {
        return Err(format!("returned {} but modified the destination", desc(&res)));
    }
    match (&res, c.x) {
        (Err(PicScaleError::BufferMismatch(m)), 0) => {
            if (m.expected, m.width, m.height, m.slice_len) != (g.ss * g.ih, g.iw, g.ih, g.sl) || (!c.fmt.ends_with("30") && m.channels != unit) {
                return Err(format!("mismatch report {m:?} does not describe the source ({} elements given, {} needed)", g.sl, g.ss * g.ih));
            }
        }
        (Err(PicScaleError::BufferMismatch(m)), 1) => {
            if (m.expected, m.width, m.height, m.slice_len) != (g.ds * g.oh, g.ow, g.oh, g.dl) || (!c.fmt.ends_with("30") && m.channels != unit) {
                return Err(format!("mismatch report {m:?} does not describe the destination ({} elements given, {} needed)", g.dl, g.ds * g.oh));
            }
        }
        (Err(PicScaleError::InvalidStride(a, b)), 2) if (*a, *b) != (g.iw * unit, g.ss) => {
            return Err(format!("InvalidStride({a},{b}), expected ({},{})", g.iw * unit, g.ss));
        }
        (Err(PicScaleError::InvalidStride(a, b)), 3) if (*a, *b) != (g.ow * unit, g.ds) => {
            return Err(format!("InvalidStride({a},{b}), expected ({},{})", g.ow * unit, g.ds));
        }
        (Err(PicScaleError::UnsupportedBitDepth(d)), _) if *d != g.depth => {
            return Err(format!("UnsupportedBitDepth({d}) for depth {}", g.depth));
        }
        _ => {}
    }
    if code != 0 && format!("{}", res.unwrap_err()).is_empty() {
        return Err("empty error message".into());
    }
    Ok(())
}
fn c08t<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let g = geometry(c, N);
    let mut r = Rng::new(c.seed);
    let src: Vec<T> = (0..g.sl).map(|_| T::of(r.unit() * c.max())).collect();
    let mut dst: Vec<T> = (0..g.dl).map(|_| garbage(&mut r)).collect();
    let before = dst.clone();
    let res = guarded(|| {
        let st = ImageStore::<T, N> { buffer: Cow::Borrowed(&src), channels: N, width: g.iw, height: g.ih, stride: g.ss, bit_depth: g.depth };
        let mut dt = ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(&mut dst), channels: N, width: g.ow, height: g.oh, stride: g.ds, bit_depth: g.depth };
        if c.api == 1 {
            T::scale_api(&st, &mut dt, ScalingOptions { resampling_function: c.filter.into(), premultiply_alpha: c.pm, use_multithreading: false })
        } else {
            T::rz(&scaler(c), &st, &mut dt, c.pm)
        }
    });
    let changed = before.iter().zip(&dst).any(|(a, b)| a.bits() != b.bits());
    verdict(c, &g, N, res, changed)
}
pub fn c08(c: &Case) -> R {
    if c.fmt.ends_with("30") {
        let g = geometry(c, 4);
        let mut r = Rng::new(c.seed);
        let src: Vec<u8> = (0..g.sl).map(|_| r.next() as u8).collect();
        let mut dst: Vec<u8> = (0..g.dl).map(|_| r.next() as u8).collect();
        let before = dst.clone();
        let mut k = c.clone();
        (k.iw, k.ih, k.ow, k.oh) = (g.iw, g.ih, g.ow, g.oh);
        k.x = (c.seed & 1) as usize;
        let res = guarded(|| run30(&k, &src, g.ss, &mut dst, g.ds));
        return verdict(c, &g, 4, res, before != dst);
    }
    #[cfg(feature = "colorspaces")]
    if c.api >= 2 {
        return match c.n {
            3 => c08c::<3>(c),
            _ => c08c::<4>(c),
        };
    }
    dispatch!(c, c08t)
}
#[cfg(feature = "colorspaces")]
fn c08c<const N: usize>(c: &Case) -> R
where
    u8: Cs<N>,
{
    let g = geometry(c, N);
    let src = vec![7u8; g.sl];
    let mut dst = vec![9u8; g.dl];
    let before = dst.clone();
    let res = guarded(|| {
        let st = ImageStore::<u8, N> { buffer: Cow::Borrowed(&src), channels: N, width: g.iw, height: g.ih, stride: g.ss, bit_depth: 8 };
        let mut dt = ImageStoreMut::<u8, N> { buffer: BufferStore::Borrowed(&mut dst), channels: N, width: g.ow, height: g.oh, stride: g.ds, bit_depth: 8 };
        u8::cs(cscaler(c).as_ref(), &st, &mut dt, c.pm)
    });
    verdict(c, &g, N, res, before != dst)
}

// ---------------------------------------------------------------- C10
mod forms {
    //! Closed forms, written from the literature, of every kernel.
    use std::f64::consts::{PI, SQRT_2};
    #[link(name = "m")]
    extern "C" {
        fn j1(x: f64) -> f64;
    }
    pub fn jinc(x: f64) -> f64 {
        if x == 0.0 {
            0.5
        } else {
            unsafe { j1(x) / x }
        }
    }
    pub fn sinc(x: f64) -> f64 {
        if x == 0.0 {
            1.0
        } else {
            x.sin() / x
        }
    }
    fn bc(b: f64, c: f64, x: f64) -> f64 {
        let k = if x < 1.0 {
            (12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x.powi(2) + 6.0 - 2.0 * b
        } else if x < 2.0 {
            (-b - 6.0 * c) * x.powi(3) + (6.0 * b + 30.0 * c) * x.powi(2) + (-12.0 * b - 48.0 * c) * x + 8.0 * b + 24.0 * c
        } else {
            0.0
        };
        k / 6.0
    }
    /// natural cubic interpolation splines by their published coefficients
    fn spline(seg: &[[f64; 4]], x: f64) -> f64 {
        let i = (x.floor() as usize).min(seg.len() - 1);
        let t = x - i as f64;
        ((seg[i][0] * t + seg[i][1]) * t + seg[i][2]) * t + seg[i][3]
    }
    fn lagrange(s: f64, x: f64) -> f64 {
        // piecewise Lagrange interpolation basis of order 2s around the node 0
        if x > s {
            return 0.0;
        }
        let n = (s + x).floor();
        (0..(2.0 * s) as usize).map(|i| i as f64).filter(|&i| i != n).map(|i| (n - i - x) / (n - i)).product()
    }
    fn i0(x: f64) -> f64 {
        let (mut s, mut t, mut k) = (1.0, 1.0, 1.0);
        while t > 1e-17 * s {
            t *= x * x / 4.0 / (k * k);
            s += t;
            k += 1.0;
        }
        s
    }
    fn lanczos(a: f64, x: f64) -> f64 {
        if x < a { sinc(PI * x) * sinc(PI * x / a) } else { 0.0 }
    }
    fn ljinc(a: f64, x: f64) -> f64 {
        if x < a { jinc(PI * x) * jinc(PI * x / a) } else { 0.0 }
    }
    /// (kernel, support up to which it is compared, points of discontinuity)
    pub fn kernel(id: u32) -> (fn(f64) -> f64, f64, &'static [f64]) {
        match id {
            0 | 1 => (|x| (1.0 - x).max(0.0), 2.0, &[]),
            2 | 6 => (|x| bc(1.0, 0.0, x), 2.5, &[]),
            3 => (|x| bc(1.0 / 3.0, 1.0 / 3.0, x), 2.5, &[]),
            4 => (|x| bc(0.0, 0.5, x), 2.5, &[]),
            5 => (|x| bc(0.0, 0.0, x), 2.5, &[]),
            7 => (|x| if x > 2.0 { 0.0 } else { (PI * x / 4.0).cos().powi(2) / 4.0 }, 2.5, &[]),
            8 => (|x| bc(0.0, 0.5, x), 2.5, &[]),
            9 => (|x| if x >= 1.0 { 0.0 } else { 0.54 + 0.46 * (PI * x).cos() }, 1.5, &[1.0]),
            10 => (|x| if x >= 1.0 { 0.0 } else { 0.5 + 0.5 * (PI * x).cos() }, 1.5, &[]),
            11 | 34 => (
                |x| {
                    if x >= 2.0 {
                        0.0
                    } else {
                        sinc(x) * (0.42f32 as f64 - 0.49656062f32 as f64 * (PI * x).cos() + 0.07684867f32 as f64 * (2.0 * PI * x).cos())
                    }
                },
                2.5,
                &[2.0],
            ),
            12 => (|x| (1.0 - x * x).max(0.0), 1.5, &[]),
            13 | 35 => (|x| if x < 0.5 { 0.75 - x * x } else if x < 1.5 { 0.5 * (x - 1.5).powi(2) } else { 0.0 }, 2.0, &[]),
            14 => (
                |x| {
                    let s = 0.35f32 as f64;
                    (-x / (2.0 * s * s).powi(2)).exp() / ((2.0 * PI).sqrt() * s)
                },
                2.0,
                &[],
            ),
            15 => (
                |x| {
                    let p = PI * x;
                    if p < 0.02 {
                        1.0 - p * p / 10.0
                    } else {
                        3.0 * (p.sin() - p * p.cos()) / p.powi(3)
                    }
                },
                2.0,
                &[],
            ),
            16 => (|x| (1.0 - x).max(0.0), 2.0, &[]),
            17 | 33 => (|x| bc(12.0 / (19.0 + 9.0 * SQRT_2), 13.0 / (58.0 + 216.0 * SQRT_2), x), 2.5, &[]),
            18 | 36 => (|x| bc(6.0 / (13.0 + 7.0 * SQRT_2), 7.0 / (2.0 + 12.0 * SQRT_2), x), 2.5, &[]),
            19 => (|x| spline(&[[1.0, -9.0 / 5.0, -1.0 / 5.0, 1.0], [-1.0 / 3.0, 4.0 / 5.0, -7.0 / 15.0, 0.0]], x), 2.0, &[]),
            20 => (
                |x| {
                    spline(
                        &[
                            [13.0 / 11.0, -453.0 / 209.0, -3.0 / 209.0, 1.0],
                            [-6.0 / 11.0, 270.0 / 209.0, -156.0 / 209.0, 0.0],
                            [1.0 / 11.0, -45.0 / 209.0, 26.0 / 209.0, 0.0],
                        ],
                        x,
                    )
                },
                3.0,
                &[],
            ),
            21 => (
                |x| {
                    spline(
                        &[
                            [49.0 / 41.0, -6387.0 / 2911.0, -3.0 / 2911.0, 1.0],
                            [-24.0 / 41.0, 4032.0 / 2911.0, -2328.0 / 2911.0, 0.0],
                            [6.0 / 41.0, -1008.0 / 2911.0, 582.0 / 2911.0, 0.0],
                            [-1.0 / 41.0, 168.0 / 2911.0, -97.0 / 2911.0, 0.0],
                        ],
                        x,
                    )
                },
                4.0,
                &[],
            ),
            22 => (|x| if x > 1.0 { 0.0 } else { i0(6.33 * (1.0 - x * x).sqrt()) / i0(6.33) }, 1.5, &[1.0]),
            23 => (
                |x| {
                    if x > 2.0 {
                        0.0
                    } else {
                        let f = (x - 0.5).abs();
                        0.62 - 0.4832 * f + 0.38 * (2.0 * PI * f).cos()
                    }
                },
                2.5,
                &[2.0],
            ),
            24 | 48 => (|_| 1.0, 1.0, &[]),
            25 => (|x| if x > 1.0 { 0.0 } else { (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI }, 1.5, &[]),
            26 => (|x| lanczos(2.0, x), 2.5, &[]),
            27 => (|x| lanczos(3.0, x), 3.5, &[]),
            28 => (|x| lanczos(4.0, x), 4.5, &[]),
            46 => (|x| lanczos(6.0, x), 6.5, &[]),
            29 => (|x| ljinc(2.0, x), 2.5, &[2.0]),
            30 | 37 => (|x| ljinc(3.0, x), 3.5, &[3.0]),
            31 => (|x| ljinc(4.0, x), 4.5, &[4.0]),
            47 => (|x| ljinc(6.0, x), 6.5, &[6.0]),
            32 | 40 | 41 | 42 | 43 => (jinc, 5.0, &[]),
            38 | 39 => (sinc, 5.0, &[]),
            44 => (|x| lagrange(2.0, x), 2.0, &[1.0, 2.0]),
            45 => (|x| lagrange(3.0, x), 3.0, &[1.0, 2.0, 3.0]),
            _ => unreachable!(),
        }
    }
    /// taps of the unscaled kernel, as shipped
    pub fn base(id: u32) -> f32 {
        match id {
            27 | 30 | 37..=40 | 42 | 43 | 45 | 7 => 3.0,
            20 | 28 | 31 | 41 => 4.0,
            21 | 46 | 47 => 6.0,
            32 => 1.0,
            _ => 2.0,
        }
    }
}
pub fn gen10(r: &mut Rng) -> Case {
    let mut c = Case { fmt: "f32".into(), n: 1, filter: r.below(49) as u32, seed: r.below(1 << 30), kind: 3, x: r.below(3) as usize, ..Default::default() };
    if c.filter == 1 {
        c.filter = 0;
    }
    c.iw = r.range(1, 40);
    c.ow = r.range(1, 40);
    if c.iw == c.ow {
        c.ow += 1;
    }
    (c.ih, c.oh) = (1, 1);
    c
}
pub fn c10(c: &Case) -> R {
    let f: ResamplingFunction = c.filter.into();
    if c.x == 0 {
        let (want, sup, jumps) = forms::kernel(c.filter);
        let a = f.get_resampling_filter::<f64>();
        let b = f.get_resampling_filter::<f32>();
        let e = forms::base(c.filter);
        if a.min_kernel_size != e || b.min_kernel_size != e {
            return Err(format!("kernel of {f:?} spans {} taps instead of {e}", a.min_kernel_size));
        }
        let (ewa, area, fixed) = ((32..=37).contains(&c.filter) || (39..=42).contains(&c.filter), c.filter == 48, (19..=21).contains(&c.filter));
        if (a.is_ewa, a.is_area, a.is_resizable_kernel) != (ewa, area, !fixed) || (b.is_ewa, b.is_area, b.is_resizable_kernel) != (ewa, area, !fixed) {
            return Err(format!("flags of {f:?} (ewa, area, resizable) are {:?}", (a.is_ewa, a.is_area, a.is_resizable_kernel)));
        }
        let mut r = Rng::new(c.seed);
        for i in 0..200 {
            let x = match i {
                0 => 0.0,
                1..=12 => (i - 1) as f64 * 0.5,
                _ => r.unit() * sup,
            };
            if x > sup || jumps.iter().any(|j| (j - x).abs() < 1e-5) {
                continue;
            }
            let w = want(x);
            let (ga, gb) = ((a.kernel)(x), (b.kernel)(x as f32) as f64);
            if !((ga - w).abs() <= 2e-6) {
                return Err(format!("{f:?} kernel at {x} is {ga} in f64, the closed form is {w}"));
            }
            if !((gb - w).abs() <= 4e-5) {
                return Err(format!("{f:?} kernel at {x} is {gb} in f32, the closed form is {w}"));
            }
        }
        for i in 0..50 {
            let x = if i == 0 { 0.0 } else { r.unit() * 40.0 };
            let w = forms::jinc(x);
            if !((jinc_f64(x) - w).abs() < 1e-9 && (jinc_f32(x as f32) as f64 - forms::jinc(x as f32 as f64)).abs() < 1e-6) {
                return Err(format!("jinc at {x} is {} / {}, expected {w}", jinc_f64(x), jinc_f32(x as f32)));
            }
            if !((j1(x) - w * x).abs() < 1e-9 && (j1(-x) + w * x).abs() < 1e-9) {
                return Err(format!("j1 at ±{x} is {} / {}, expected {}", j1(x), j1(-x), w * x));
            }
        }
        return Ok(());
    }
    // impulse responses: the weight of every (output, source) pair of a real resize
    let vs = crate::oracle::variants(c.filter, c.iw, c.ow, crate::oracle::Q::No);
    let horizontal = c.x == 1;
    let mut k = c.clone();
    if !horizontal {
        (k.iw, k.ih, k.ow, k.oh) = (1, c.iw, 1, c.ow);
    }
    let mut sums = vec![0.0; c.ow];
    for p in 0..c.iw {
        let mut src = vec![0f32; c.iw];
        src[p] = 1.0;
        let out = run_tight::<f32, 1>(&k, &src, 1)?;
        for i in 0..c.ow {
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for v in &vs {
                let w = &v[i];
                let x = if p >= w.start && p < w.start + w.w.len() { w.w[p - w.start] } else { 0.0 };
                lo = lo.min(x);
                hi = hi.max(x);
            }
            let o = out[i] as f64;
            let g: f64 = vs[0][i].w.iter().map(|x| x.abs()).sum::<f64>().max(1.0);
            let e = 6e-5 * g * g;
            if !(o >= lo - e && o <= hi + e) {
                return Err(format!("weight of source {p} for output {i} ({} to {}) is {o}, expected [{lo:.6}, {hi:.6}]", c.iw, c.ow));
            }
            sums[i] += o;
        }
    }
    for i in 0..c.ow {
        // weights are normalised (a kernel that vanishes on the whole window has none)
        if sums[i].abs() > 1e-3 && (sums[i] - 1.0).abs() > 1e-3 {
            return Err(format!("weights of output {i} sum to {}", sums[i]));
        }
        if !(sums[i].abs() > 1e-3) && vs.iter().all(|v| v[i].w.iter().sum::<f64>().abs() > 0.5) {
            return Err(format!("weights of output {i} vanish"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
pub fn gen14(r: &mut Rng) -> Case {
    Case {
        fmt: r.pick(FMTS).to_string(),
        n: r.range(1, 4),
        iw: r.range(0, 9),
        ih: r.range(0, 9),
        ow: r.range(0, 9),
        oh: r.range(0, 9),
        sp: if r.chance(0.6) { r.range(0, 9) } else { 0 },
        dp: if r.chance(0.6) { r.range(0, 9) } else { 0 },
        depth: r.range(0, 20),
        seed: r.below(1 << 30),
        x: r.below(4) as usize,
        ..Default::default()
    }
}
fn c14t<T: Rz<N>, const N: usize>(c: &Case) -> R {
    guarded(|| c14i::<T, N>(c)).map_err(|p| format!("panicked: {p}"))?
}
fn c14i<T: Rz<N>, const N: usize>(c: &Case) -> R {
    let mut r = Rng::new(c.seed);
    let mut fill = |n: usize| -> Vec<T> { (0..n).map(|_| garbage(&mut r)).collect() };
    if c.x == 0 {
        // constructors accept exactly w*h*N elements and never panic
        let mut q = Rng::new(c.seed ^ 14);
        let need = c.iw * c.ih * N;
        let (w, h, len) = match q.below(5) {
            0 => (c.iw, c.ih, need),
            1 => (c.iw, c.ih, need + q.range(1, 3)),
            2 => (c.iw, c.ih, need.saturating_sub(q.range(1, 3))),
            3 => (usize::MAX / q.range(1, 9), q.range(1, 99), q.range(0, 40)),
            _ => (1usize << q.range(30, 63), 1usize << q.range(30, 63), 0),
        };
        let ok = w.checked_mul(h).and_then(|x| x.checked_mul(N)) == Some(len);
        let v = fill(len);
        let mut m = v.clone();
        let mut m2 = v.clone();
        let show = |what: &str, r: Result<(usize, usize, usize, usize, Vec<T>), PicScaleError>| -> R {
            match r {
                Ok((cw, ch, n, st, b)) => {
                    if !ok {
                        return Err(format!("{what} accepted {len} elements for {w}x{h}x{N}"));
                    }
                    if (cw, ch, n) != (w, h, N) || st != w * N || b.iter().zip(&v).any(|(a, b)| a.bits() != b.bits()) || b.len() != v.len() {
                        return Err(format!("{what} of {w}x{h} gives width {cw}, height {ch}, channels {n}, stride {st}"));
                    }
                    Ok(())
                }
                Err(PicScaleError::BufferMismatch(_)) if !ok => Ok(()),
                Err(e) => Err(format!("{what} of {len} elements for {w}x{h}x{N} returned {e:?}")),
            }
        };
        show("ImageStore::new", ImageStore::<T, N>::new(v.clone(), w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.buffer.to_vec())))?;
        show("ImageStore::borrow", ImageStore::<T, N>::borrow(&v, w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.as_bytes().to_vec())))?;
        show("ImageStore::from_slice", ImageStore::<T, N>::from_slice(&v, w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.buffer.to_vec())))?;
        show("ImageStoreMut::new", ImageStoreMut::<T, N>::new(v.clone(), w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.as_bytes().to_vec())))?;
        show("ImageStoreMut::borrow", ImageStoreMut::<T, N>::borrow(&mut m, w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.buffer.borrow().to_vec())))?;
        show("ImageStoreMut::from_slice", ImageStoreMut::<T, N>::from_slice(&mut m2, w, h).map(|s| (s.width, s.height, s.channels, s.stride(), s.buffer.borrow().to_vec())))?;
        let a = ImageStore::<T, N>::alloc(c.iw, c.ih);
        let b = ImageStoreMut::<T, N>::alloc(c.iw, c.ih);
        let d = ImageStoreMut::<T, N>::alloc_with_depth(c.iw, c.ih, c.depth);
        if (a.buffer.len(), a.width, a.height, a.channels, a.stride()) != (need, c.iw, c.ih, N, c.iw * N)
            || (b.buffer.borrow().len(), b.width, b.height, b.channels, b.stride()) != (need, c.iw, c.ih, N, c.iw * N)
            || (d.buffer.borrow().len(), d.width, d.height, d.bit_depth, d.stride()) != (need, c.iw, c.ih, c.depth, c.iw * N)
        {
            return Err("alloc returns a store of the wrong shape".into());
        }
        if a.buffer.iter().chain(b.as_bytes()).chain(d.as_bytes()).any(|p| p.bits() != 0) {
            return Err("alloc returns non-zero content".into());
        }
        return Ok(());
    }
    let ss = c.iw * N + c.sp;
    let ds = c.ow * N + c.dp;
    let sbuf = fill(ss * c.ih);
    let dbuf = fill(ds * c.oh);
    // stride 0 stands for tight rows
    let (s_f, d_f) = (if c.sp == 0 && c.seed & 1 == 0 { 0 } else { ss }, if c.dp == 0 && c.seed & 2 == 0 { 0 } else { ds });
    let st = ImageStore::<T, N> { buffer: Cow::Borrowed(&sbuf), channels: N, width: c.iw, height: c.ih, stride: s_f, bit_depth: c.depth };
    let mut work = dbuf.clone();
    let mut dt = ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(&mut work), channels: N, width: c.ow, height: c.oh, stride: d_f, bit_depth: c.depth };
    if st.stride() != ss || dt.stride() != ds {
        return Err(format!("stride() is {} and {}, rows occupy {ss} and {ds}", st.stride(), dt.stride()));
    }
    if st.get_size() != ImageSize::new(c.iw, c.ih) || dt.get_size() != ImageSize::new(c.ow, c.oh) {
        return Err("get_size() differs from the dimensions".into());
    }
    let pix = |b: &[T], stride: usize, w: usize, h: usize| -> Vec<u64> {
        (0..h).flat_map(|y| (0..w * N).map(move |x| y * stride + x)).map(|i| b[i].bits()).collect()
    };
    let a = st.copied();
    if (a.width, a.height, a.channels, a.bit_depth) != (c.iw, c.ih, N, c.depth) || a.buffer.len() != a.stride() * a.height || pix(&a.buffer, a.stride(), c.iw, c.ih) != pix(&sbuf, ss, c.iw, c.ih) {
        return Err("ImageStore::copied is not the same image".into());
    }
    {
        let b = dt.copied();
        if (b.width, b.height, b.channels, b.bit_depth) != (c.ow, c.oh, N, c.depth) || b.as_bytes().len() != b.stride() * b.height || pix(b.as_bytes(), b.stride(), c.ow, c.oh) != pix(&dbuf, ds, c.ow, c.oh) {
            return Err("ImageStoreMut::copied is not the same image".into());
        }
        let i = dt.to_immutable();
        if (i.width, i.height, i.channels, i.bit_depth) != (c.ow, c.oh, N, c.depth) || i.buffer.len() != i.stride() * i.height || pix(&i.buffer, i.stride(), c.ow, c.oh) != pix(&dbuf, ds, c.ow, c.oh) {
            return Err("to_immutable is not the same image".into());
        }
    }
    st.copied_to_mut(&mut dt);
    drop(dt);
    let (rw, rh) = (c.iw.min(c.ow) * N, c.ih.min(c.oh));
    for y in 0..c.oh {
        for x in 0..ds {
            let p = y * ds + x;
            let want = if y < rh && x < rw { sbuf[y * ss + x] } else { dbuf[p] };
            if work[p].bits() != want.bits() {
                return Err(format!(
                    "copied_to_mut left element {x} of row {y} as {} instead of {} ({}x{} stride {ss} into {}x{} stride {ds})",
                    work[p].f(), want.f(), c.iw, c.ih, c.ow, c.oh
                ));
            }
        }
    }
    Ok(())
}
pub fn c14(c: &Case) -> R {
    dispatch!(c, c14t)
}

// ---------------------------------------------------------------- C15
#[cfg(not(feature = "colorspaces"))]
pub fn color_run(_: &Case) -> Result<Vec<u8>, String> {
    Ok(vec![])
}
#[cfg(not(feature = "colorspaces"))]
pub fn c15(_: &Case) -> R {
    Ok(())
}
#[cfg(feature = "colorspaces")]
fn tf(c: &Case) -> TransferFunction {
    match c.x & 3 {
        0 => TransferFunction::Srgb,
        1 => TransferFunction::Rec709,
        2 => TransferFunction::Gamma2p2,
        _ => TransferFunction::Linear,
    }
}
#[cfg(feature = "colorspaces")]
pub fn cscaler(c: &Case) -> Box<dyn Scaling> {
    let f: ResamplingFunction = c.filter.into();
    let mut s: Box<dyn Scaling> = match c.api - 2 {
        0 => Box::new(LabScaler::new(f)),
        1 => Box::new(LChScaler::new(f)),
        2 => Box::new(LuvScaler::new(f)),
        3 => Box::new(XYZScaler::new(f)),
        4 => Box::new(OklabScaler::new(f, tf(c))),
        5 => Box::new(JzazbzScaler::new(f, 203.0, tf(c))),
        6 if c.x & 3 == 0 => Box::new(LinearScaler::new(f)),
        6 => Box::new(LinearScaler::new_with_transfer(f, tf(c))),
        7 if c.x & 3 == 0 => Box::new(LinearApproxScaler::new(f)),
        7 => Box::new(LinearApproxScaler::new_with_transfer(f, tf(c))),
        _ => Box::new(SigmoidalScaler::new(f)),
    };
    s.set_threading_policy(policy(c.th));
    s
}
#[cfg(feature = "colorspaces")]
pub trait Cs<const N: usize> {
    fn cs<'a>(s: &'a dyn Scaling, a: &ImageStore<'a, u8, N>, b: &mut ImageStoreMut<'a, u8, N>, pm: bool) -> Result<(), PicScaleError>;
}
#[cfg(feature = "colorspaces")]
impl Cs<3> for u8 {
    fn cs<'a>(s: &'a dyn Scaling, a: &ImageStore<'a, u8, 3>, b: &mut ImageStoreMut<'a, u8, 3>, _: bool) -> Result<(), PicScaleError> {
        s.resize_rgb(a, b)
    }
}
#[cfg(feature = "colorspaces")]
impl Cs<4> for u8 {
    fn cs<'a>(s: &'a dyn Scaling, a: &ImageStore<'a, u8, 4>, b: &mut ImageStoreMut<'a, u8, 4>, pm: bool) -> Result<(), PicScaleError> {
        s.resize_rgba(a, b, pm)
    }
}
#[cfg(feature = "colorspaces")]
fn color_n<const N: usize>(c: &Case) -> Result<Vec<u8>, String>
where
    u8: Cs<N>,
{
    let src = content::<u8>(c, c.iw, c.ih, N, c.seed);
    let (ss, ds) = (c.iw * N + c.sp, c.ow * N + c.dp);
    let sb = with_pad(&src, c.iw * N, c.ih, c.sp, c.seed);
    let mut r = Rng::new(c.seed ^ 0x77);
    let before: Vec<u8> = (0..ds * c.oh).map(|_| garbage(&mut r)).collect();
    let mut d = before.clone();
    guarded(|| {
        let st = ImageStore::<u8, N> { buffer: Cow::Borrowed(&sb), channels: N, width: c.iw, height: c.ih, stride: ss, bit_depth: 8 };
        let mut dt = ImageStoreMut::<u8, N> { buffer: BufferStore::Borrowed(&mut d), channels: N, width: c.ow, height: c.oh, stride: ds, bit_depth: 8 };
        u8::cs(cscaler(c).as_ref(), &st, &mut dt, c.pm)
    })
    .map_err(|e| format!("panicked: {e}"))?
    .map_err(|e| format!("returned error: {e}"))?;
    for y in 0..c.oh {
        if before[y * ds + c.ow * N..(y + 1) * ds] != d[y * ds + c.ow * N..(y + 1) * ds] {
            return Err(format!("destination padding modified in row {y}"));
        }
    }
    Ok(strip(&d, c.ow * N, c.oh, c.dp))
}
#[cfg(feature = "colorspaces")]
pub fn color_run(c: &Case) -> Result<Vec<u8>, String> {
    match c.n {
        3 => color_n::<3>(c),
        _ => color_n::<4>(c),
    }
}
pub fn gen15(r: &mut Rng) -> Case {
    let mut c = Case { fmt: "u8".into(), n: r.range(3, 4), filter: any_filter(r), seed: r.below(1 << 30), ..Default::default() };
    dims(&mut c, r, 9_000);
    c.api = 2 + r.below(9) as usize;
    c.x = r.below(4) as usize;
    c.kind = r.pick(&[0, 1, 2, 4, 7, 8, 9, 10, 11]);
    c.pm = r.chance(0.4);
    c.th = if r.chance(0.3) { r.range(1, 4) } else { 0 };
    if r.chance(0.3) {
        c.sp = r.range(1, 20);
        c.dp = r.range(1, 20);
    }
    if r.chance(0.08) {
        c.ow = c.iw;
        c.oh = c.ih;
    }
    c
}
#[cfg(feature = "colorspaces")]
pub fn c15(c: &Case) -> R {
    use colorutils_rs::*;
    let out = color_run(c)?;
    let src = content::<u8>(c, c.iw, c.ih, c.n, c.seed);
    if (c.iw, c.ih) == (c.ow, c.oh) {
        return same(&src, &out, c.ow, c.n, "the source", "the same-size result");
    }
    let t = tf(c);
    let n = c.n;
    let (w, h, ow, oh) = (c.iw as u32, c.ih as u32, c.ow as u32, c.oh as u32);
    let (ss, ds) = (w * n as u32, ow * n as u32);
    let (fs, gs) = (ss * 4, ds * 4);
    let mut want = vec![0u8; c.ow * c.oh * n];
    let f: ResamplingFunction = c.filter.into();
    let sc = Scaler::new(f);
    if c.api - 2 == 7 {
        let mut lin = vec![0u8; src.len()];
        if n == 3 {
            rgb_to_linear_u8(&src, ss, &mut lin, ss, w, h, t);
        } else {
            rgba_to_linear_u8(&src, ss, &mut lin, ss, w, h, t);
        }
        let mid = plain_u8(c, &sc, &lin)?;
        if n == 3 {
            linear_u8_to_rgb(&mid, ds, &mut want, ds, ow, oh, t);
        } else {
            linear_u8_to_rgba(&mid, ds, &mut want, ds, ow, oh, t);
        }
    } else {
        let mut lab = vec![0f32; src.len()];
        let s = TransferFunction::Srgb;
        let m = &SRGB_TO_XYZ_D65;
        let l = &mut lab;
        match (c.api - 2, n) {
            (0, 3) => rgb_to_lab(&src, ss, l, fs, w, h, m, s),
            (0, _) => rgba_to_lab_with_alpha(&src, ss, l, fs, w, h, m, s),
            (1, 3) => rgb_to_lch(&src, ss, l, fs, w, h, m, s),
            (1, _) => rgba_to_lch_with_alpha(&src, ss, l, fs, w, h, m, s),
            (2, 3) => rgb_to_luv(&src, ss, l, fs, w, h, m, s),
            (2, _) => rgba_to_luv_with_alpha(&src, ss, l, fs, w, h, m, s),
            (3, 3) => srgb_to_xyz(&src, ss, l, fs, w, h),
            (3, _) => rgba_to_xyz_with_alpha(&src, ss, l, fs, w, h, m, s),
            (4, 3) => rgb_to_oklab(&src, ss, l, fs, w, h, t),
            (4, _) => rgba_to_oklab(&src, ss, l, fs, w, h, t),
            (5, 3) => rgb_to_jzazbz(&src, ss, l, fs, w, h, 203.0, t),
            (5, _) => rgba_to_jzazbz(&src, ss, l, fs, w, h, 203.0, t),
            (6, 3) => rgb_to_linear(&src, ss, l, fs, w, h, t),
            (6, _) => rgba_to_linear(&src, ss, l, fs, w, h, t),
            (_, 3) => rgb_to_sigmoidal(&src, ss, l, fs, w, h),
            (_, _) => rgba_to_sigmoidal(&src, ss, l, fs, w, h),
        }
        let b = plain_f32(c, &sc, &lab)?;
        let m = &XYZ_TO_SRGB_D65;
        let d = &mut want;
        match (c.api - 2, n) {
            (0, 3) => lab_to_srgb(&b, gs, d, ds, ow, oh),
            (0, _) => lab_with_alpha_to_rgba(&b, gs, d, ds, ow, oh, m, s),
            (1, 3) => lch_to_rgb(&b, gs, d, ds, ow, oh, m, s),
            (1, _) => lch_with_alpha_to_rgba(&b, gs, d, ds, ow, oh, m, s),
            (2, 3) => luv_to_rgb(&b, gs, d, ds, ow, oh, m, s),
            (2, _) => luv_with_alpha_to_rgba(&b, gs, d, ds, ow, oh, m, s),
            (3, 3) => xyz_to_srgb(&b, gs, d, ds, ow, oh),
            (3, _) => xyz_with_alpha_to_rgba(&b, gs, d, ds, ow, oh, m, s),
            (4, 3) => oklab_to_rgb(&b, gs, d, ds, ow, oh, t),
            (4, _) => oklab_to_rgba(&b, gs, d, ds, ow, oh, t),
            (5, 3) => jzazbz_to_rgb(&b, gs, d, ds, ow, oh, 203.0, t),
            (5, _) => jzazbz_to_rgba(&b, gs, d, ds, ow, oh, 203.0, t),
            (6, 3) => linear_to_rgb(&b, gs, d, ds, ow, oh, t),
            (6, _) => linear_to_rgba(&b, gs, d, ds, ow, oh, t),
            (_, 3) => sigmoidal_to_rgb(&b, gs, d, ds, ow, oh),
            (_, _) => sigmoidal_to_rgba(&b, gs, d, ds, ow, oh),
        }
    }
    for i in 0..out.len() {
        if (out[i] as i32 - want[i] as i32).abs() > 1 {
            return Err(format!(
                "channel {} at ({},{}) is {}, resizing in the space and converting back gives {}",
                i % n, i / n % c.ow, i / n / c.ow, out[i], want[i]
            ));
        }
    }
    Ok(())
}
#[cfg(feature = "colorspaces")]
macro_rules! plain {
    ($name:ident, $t:ty) => {
        fn $name(c: &Case, sc: &Scaler, v: &[$t]) -> Result<Vec<$t>, String> {
            fn go<const N: usize>(c: &Case, sc: &Scaler, v: &[$t]) -> Result<Vec<$t>, String>
            where
                $t: Rz<N>,
            {
                let st = ImageStore::<$t, N>::from_slice(v, c.iw, c.ih).map_err(|e| e.to_string())?;
                let mut dt = ImageStoreMut::<$t, N>::alloc(c.ow, c.oh);
                <$t as Rz<N>>::rz(sc, &st, &mut dt, c.pm).map_err(|e| e.to_string())?;
                Ok(dt.as_bytes().to_vec())
            }
            if c.n == 3 {
                go::<3>(c, sc, v)
            } else {
                go::<4>(c, sc, v)
            }
        }
    };
}
#[cfg(feature = "colorspaces")]
plain!(plain_u8, u8);
#[cfg(feature = "colorspaces")]
plain!(plain_f32, f32);

// ---------------------------------------------------------------- C16
pub fn gen16(r: &mut Rng) -> Case {
    let mut c = Case { fmt: r.pick(&["u8", "u16", "f32", "u8", "ar30"]).to_string(), n: r.range(1, 4), filter: any_filter(r), seed: r.below(1 << 30), kind: r.pick(&[0, 0, 1, 3, 7, 8]), ..Default::default() };
    c.depth = if c.fmt == "u16" { r.pick(&[8, 10, 12, 12, 14, 16]) } else { 8 };
    c.quality = r.chance(0.6);
    if c.fmt == "ar30" {
        c.n = 4;
        c.kind = 0;
    }
    dims(&mut c, r, 12_000);
    c
}
fn out16<T: Rz<N>, const N: usize>(c: &Case) -> Result<Vec<f64>, String> {
    let src = content::<T>(c, c.iw, c.ih, N, c.seed);
    Ok(run_tight::<T, N>(c, &src, 1)?.iter().map(|x| x.f()).collect())
}
pub fn dump16(c: &Case) -> Result<Vec<f64>, String> {
    if c.fmt == "ar30" {
        let out = crate::props::run30_tight(c, &crate::props::src30(c), 1)?;
        return Ok(out.chunks_exact(4).flat_map(|p| unpack30(false, false, [p[0], p[1], p[2], p[3]]).0).map(|x| x as f64).collect());
    }
    match (c.fmt.as_str(), c.n) {
        ("u8", 1) => out16::<u8, 1>(c),
        ("u8", 2) => out16::<u8, 2>(c),
        ("u8", 3) => out16::<u8, 3>(c),
        ("u8", _) => out16::<u8, 4>(c),
        ("u16", 1) => out16::<u16, 1>(c),
        ("u16", 2) => out16::<u16, 2>(c),
        ("u16", 3) => out16::<u16, 3>(c),
        ("u16", _) => out16::<u16, 4>(c),
        (_, 1) => out16::<f32, 1>(c),
        (_, 2) => out16::<f32, 2>(c),
        (_, 3) => out16::<f32, 3>(c),
        (_, _) => out16::<f32, 4>(c),
    }
}
/// How far two backends may be apart on this case.
pub fn tol16(c: &Case, m: f64) -> f64 {
    let gain = |i: usize, o: usize| {
        if i == o {
            0.0
        } else {
            crate::oracle::weights(c.filter, i, o).iter().map(|w| w.w.iter().map(|x| x.abs()).sum::<f64>()).fold(1.0, f64::max)
        }
    };
    let (gy, gx) = (gain(c.ih, c.oh), gain(c.iw, c.ow));
    match c.fmt.as_str() {
        "f32" => 4e-5 * gx.max(1.0) * gy.max(1.0) * m.max(1.0),
        // each pass may differ by its own tolerance; the second pass amplifies the first
        "u8" if !c.quality => (if gy > 0.0 { 3.0 * gx.max(1.0) } else { 0.0 }) + if gx > 0.0 { 3.0 } else { 0.0 },
        _ => (if gy > 0.0 { 1.0 * gx.max(1.0) } else { 0.0 }) + if gx > 0.0 { 1.0 } else { 0.0 },
    }
}

// ---------------------------------------------------------------- C18
const NAMES: [&str; 49] = [
    "Bilinear", "Nearest", "Cubic", "MitchellNetravalli", "CatmullRom", "Hermite", "BSpline", "Hann", "Bicubic", "Hamming", "Hanning", "Blackman", "Welch", "Quadric", "Gaussian", "Sphinx",
    "Bartlett", "Robidoux", "RobidouxSharp", "Spline16", "Spline36", "Spline64", "Kaiser", "BartlettHann", "Box", "Bohman", "Lanczos2", "Lanczos3", "Lanczos4", "Lanczos2Jinc", "Lanczos3Jinc",
    "Lanczos4Jinc", "EwaHanning", "EwaRobidoux", "EwaBlackman", "EwaQuadric", "EwaRobidouxSharp", "EwaLanczos3Jinc", "Ginseng", "EwaGinseng", "EwaLanczosSharp", "EwaLanczos4Sharpest",
    "EwaLanczosSoft", "HaasnSoft", "Lagrange2", "Lagrange3", "Lanczos6", "Lanczos6Jinc", "Area",
];
pub fn gen18(r: &mut Rng) -> Case {
    let big = [0, 1, 255, 256, 257, 65535, 1 << 20, 1 << 40, usize::MAX / 2, usize::MAX];
    Case {
        filter: match r.below(4) {
            0 => r.next() as u32,
            1 => 49 + r.below(300) as u32,
            _ => r.below(49) as u32,
        },
        iw: if r.chance(0.3) { r.pick(&big) } else { r.range(0, 9000) },
        ih: if r.chance(0.3) { r.pick(&big) } else { r.range(0, 9000) },
        th: if r.chance(0.3) { 999 } else { r.range(0, 300) },
        seed: r.below(1 << 30),
        ..Default::default()
    }
}
pub fn c18(c: &Case) -> R {
    let f: ResamplingFunction = c.filter.into();
    let want = NAMES.get(c.filter as usize).copied().unwrap_or("Bilinear");
    if format!("{f:?}") != want {
        return Err(format!("filter id {} maps to {f:?} instead of {want}", c.filter));
    }
    let p = policy(c.th);
    let par = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
    let size = ImageSize::new(c.iw, c.ih);
    let n = guarded(|| p.thread_count(size)).map_err(|e| format!("thread_count panicked: {e}"))?;
    let px = c.iw as u128 * c.ih as u128;
    let ok = match p {
        ThreadingPolicy::Single => n == 1,
        ThreadingPolicy::Fixed(k) => n == k.max(1),
        ThreadingPolicy::Adaptive => n >= 1 && n <= par && n as u128 == (px / 65536).clamp(1, par as u128),
    };
    if !ok {
        return Err(format!("{p:?} gives {n} threads for {}x{} ({par} available)", c.iw, c.ih));
    }
    let errs = [
        PicScaleError::ZeroImageDimensions,
        PicScaleError::SourceImageIsTooLarge,
        PicScaleError::DestinationImageIsTooLarge,
        PicScaleError::BufferMismatch(PicScaleBufferMismatch { expected: 1, width: 2, height: 3, channels: 4, slice_len: 5 }),
        PicScaleError::InvalidStride(1, 2),
        PicScaleError::UnsupportedBitDepth(17),
        PicScaleError::UnknownResizingFilter,
    ];
    for (i, e) in errs.iter().enumerate() {
        if e.code() != i + 1 || e.to_string().is_empty() {
            return Err(format!("error {e:?} has code {}", e.code()));
        }
    }
    let mut s = Scaler::new(f);
    let d = ScalingOptions::default();
    if format!("{:?}", d.resampling_function) != "MitchellNetravalli" || format!("{:?}", ResamplingFunction::default()) != "MitchellNetravalli" || d.premultiply_alpha {
        return Err(format!("defaults are {d:?}"));
    }
    s.set_workload_strategy(WorkloadStrategy::default());
    if WorkloadStrategy::default() != WorkloadStrategy::PreferSpeed {
        return Err("the default strategy is not PreferSpeed".into());
    }
    Ok(())
}
