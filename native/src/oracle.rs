//! Reference semantics of a resize, written from the documentation: separable windowed
//! convolution with normalised weights, evaluated in f64.  `v` in {-1,0,1} perturbs the float
//! decisions (window edges) by a few ulps of f32, so that a knife-edge decision is never the
//! reason for an alarm: a sample passes when it lies within the hull of the three variants.
use pic_scale::ResamplingFunction;
#[link(name = "m")]
extern "C" {
    fn j1(x: f64) -> f64;
}

pub struct W {
    pub start: usize,
    pub w: Vec<f64>,
}

/// Perturbation of the float decisions: window edge, sampling position, kernel size, window cut.
#[derive(Clone, Copy, PartialEq, Default)]
pub struct Pert {
    pub edge: i32,
    pub cen: i32,
    pub base: i32,
    pub cut: i32,
}
pub fn weights(filter: u32, insz: usize, outsz: usize) -> Vec<W> {
    weights_at(filter, insz, outsz, Pert::default())
}
pub fn weights_at(filter: u32, insz: usize, outsz: usize, v: Pert) -> Vec<W> {
    let f: ResamplingFunction = filter.into();
    let rf = f.get_resampling_filter::<f64>();
    let scale = insz as f64 / outsz as f64;
    let ulp = 2.5e-7 * insz as f64 + 1e-6;
    let (d, dc) = (v.edge as f64 * ulp, match v.cen {
        2 | -2 => (v.cen / 2) as f64 * 1e-9, // tips a tap that sits exactly on the support's edge
        c => c as f64 * ulp,
    });
    let area_up = rf.is_area && scale < 1.0;
    let mut out = Vec::with_capacity(outsz);
    if area_up {
        let inv = 1.0 / scale;
        for i in 0..outsz {
            let sx = (i as f64 * scale + d).floor().max(0.0);
            let fx = (i + 1) as f64 - (sx + 1.0) * inv + dc * inv.max(1.0);
            let fx = if fx <= 0.0 { 0.0 } else { fx - fx.floor() };
            let start = sx as usize;
            let start = start.min(insz - 1);
            let size = 2.min(insz - start);
            let mut w = vec![1.0 - fx, fx];
            w.truncate(size);
            let s: f64 = w.iter().sum();
            if s != 0.0 {
                w.iter_mut().for_each(|x| *x /= s);
            } else {
                w[0] = 1.0;
            }
            out.push(W { start, w });
        }
        return out;
    }
    let cutoff = if rf.is_resizable_kernel { scale.max(1.0) } else { 1.0 };
    let base_f = rf.min_kernel_size as f64 * cutoff;
    let base = (base_f + v.base as f64 * base_f * 3e-7).round() as usize;
    let radius = base as f64 / 2.0;
    let fs = 1.0 / cutoff;
    for i in 0..outsz {
        let cx = ((i as f64 + 0.5) * scale).min(insz as f64);
        let start = (cx - radius + d).floor().max(0.0) as usize;
        let end = (cx + radius + d).ceil().min((start + base) as f64).min(insz as f64) as usize;
        let center = cx - 0.5 + dc;
        let wj = v.cut as f64 * 1e-4;
        let mut w: Vec<f64> = (start..end)
            .map(|k| {
                let dx = (k as f64 - center).abs();
                if let Some((blur, taper, wsize, window)) = win(f) {
                    let mut x = dx;
                    if blur > 0.0 {
                        x /= blur;
                    }
                    x = if x <= taper { 0.0 } else { (x - taper) / (1.0 - taper) };
                    let xs = x * fs;
                    let wv = if x < wsize + wj { window(xs * wsize) } else { 0.0 };
                    wv * (rf.kernel)(xs)
                } else {
                    (rf.kernel)(dx * fs)
                }
            })
            .collect();
        if rf.is_ewa && !w.is_empty() {
            // 0.7/0.3 recursive smoothing, in place
            for j in 1..w.len() {
                w[j] = 0.7f32 as f64 * w[j] + (1.0 - 0.7f32 as f64) * w[j - 1];
            }
        }
        let s: f64 = w.iter().sum();
        if s != 0.0 {
            w.iter_mut().for_each(|x| *x /= s);
        } else {
            // a kernel that vanishes on the window degenerates to the closest sample
            w.iter_mut().for_each(|x| *x = 0.0);
            let k = (center.round().max(0.0) as usize).clamp(start, end.max(start + 1) - 1);
            w[k - start] = 1.0;
        }
        out.push(W { start, w });
    }
    out
}

/// Window parameters of the windowed filters (blur, taper, size, window function).
fn win(f: ResamplingFunction) -> Option<(f64, f64, f64, fn(f64) -> f64)> {
    use ResamplingFunction::*;
    fn jinc(x: f64) -> f64 {
        // j1(x)/x with its limit at 0
        if x == 0.0 {
            return 0.5;
        }
        unsafe { j1(x) / x }
    }
    fn hanning(x: f64) -> f64 {
        let x = x.abs();
        if x == 0.0 {
            1.0
        } else if x >= 1.0 {
            0.0
        } else {
            0.5 + 0.5 * (x * std::f64::consts::PI).cos()
        }
    }
    const R3: f64 = 3.2383154841662362;
    const R4: f64 = 4.2410628637960699;
    Some(match f {
        EwaHanning => (0.0, 0.0, 2.0, hanning),
        Ginseng => (1.0, 0.0, 3.0, jinc),
        EwaGinseng => (1.0, 0.0, R3, jinc),
        EwaLanczosSharp => (0.9812505837223707, 0.0, R3, jinc),
        EwaLanczos4Sharpest => (0.8845120932605005, 0.0, R4, jinc),
        EwaLanczosSoft => (1.0164667662867047, 0.0, R3, jinc),
        HaasnSoft => (1.11, 0.0, 3.0, hanning),
        _ => return None,
    })
}

/// Quantisation of weights in the fixed-point formats.
#[derive(Clone, Copy, PartialEq)]
pub enum Q {
    /// floating point weights
    No,
    /// 1.15 weights as documented, unlimited range
    Fixed,
    /// 1.15 weights saturated to i16 (the recorded finding)
    Sat,
}

pub fn variants(filter: u32, i: usize, o: usize, q: Q) -> Vec<Vec<W>> {
    let f: ResamplingFunction = filter.into();
    let z = Pert::default();
    let at = |p: Pert| weights_at(filter, i, o, p);
    let shape = |v: &Vec<W>| v.iter().map(|w| (w.start, w.w.len())).collect::<Vec<_>>();
    let v0 = at(z);
    let s0 = shape(&v0);
    let mut base = vec![z];
    for b in [-1, 1] {
        let p = Pert { base: b, ..z };
        if shape(&at(p)) != s0 {
            base.push(p);
        }
    }
    for k in 0..base.len() {
        let b = base[k];
        let s = shape(&at(b));
        for e in [-1, 1] {
            let p = Pert { edge: e, ..b };
            if shape(&at(p)) != s {
                base.push(p);
            }
        }
    }
    let cuts: &[i32] = if win(f).is_some() { &[0, -1, 1] } else { &[0] };
    let mut v = vec![v0];
    for b in base {
        for &cut in cuts {
            for cen in [0, -1, 1] {
                let p = Pert { cut, cen, ..b };
                if p != z {
                    v.push(at(p));
                }
            }
            let c0 = at(Pert { cut, ..b });
            for cen in [-2, 2] {
                let t = at(Pert { cut, cen, ..b });
                let far = |a: &W, b: &W| a.w.iter().zip(&b.w).any(|(x, y)| (x - y).abs() > 1e-6);
                if c0.iter().zip(&t).any(|(a, b)| far(a, b)) {
                    v.push(t);
                }
            }
        }
    }
    if q == Q::Sat {
        // between two perturbed positions the saturating weight passes through its limit: the
        // unsaturated variants close that gap in the hull
        let free: Vec<Vec<W>> = v.iter().map(|a| a.iter().map(|w| W { start: w.start, w: w.w.clone() }).collect()).collect();
        let k = v.len();
        let over = |w: &W| w.w.iter().any(|&x| x * 32768.0 > 32767.0);
        v.extend(free);
        for i in 0..v[0].len() {
            // only where some variants saturate and others do not
            if (0..k).all(|j| over(&v[j][i])) || !(0..k).any(|j| over(&v[j][i])) {
                for j in 0..k {
                    let w = v[j][i].w.clone();
                    let start = v[j][i].start;
                    v[k + j][i] = W { start, w: w.iter().map(|x| x.min(32767.0 / 32768.0)).collect() };
                }
            }
        }
        v[..k].iter_mut().flatten().flat_map(|w| w.w.iter_mut()).for_each(|x| *x = x.min(32767.0 / 32768.0));
    }
    if q != Q::No {
        v.iter_mut().flatten().flat_map(|w| w.w.iter_mut()).for_each(|x| *x = (*x * 32768.0).round().max(-32768.0) / 32768.0);
    }
    v
}

/// Does any output position carry a normalised weight that a signed 1.15 weight cannot hold?
pub fn overshoots(filter: u32, i: usize, o: usize) -> bool {
    variants(filter, i, o, Q::No).iter().flatten().flat_map(|w| w.w.iter()).any(|&x| (x * 32768.0).round() > 32767.0 && x > 1.00001)
}

/// Full reference resize with hull arithmetic (interval linear algebra).  `clamp`: per pass
/// saturation range of the storage type.
pub fn resize_ref(
    src: &[f64],
    (iw, ih): (usize, usize),
    (ow, oh): (usize, usize),
    n: usize,
    filter: u32,
    clamp: Option<f64>,
    sat: Q,
    err: &dyn Fn(usize, f64, f64) -> f64, // (taps, sum|w|, scale) -> error of one pass
) -> (Vec<f64>, Vec<f64>) {
    let mut lo = src.to_vec();
    let mut hi = src.to_vec();
    let cl = |x: f64| match clamp {
        Some(m) => x.clamp(0.0, m),
        None => x,
    };
    if oh != ih {
        let vs = variants(filter, ih, oh, sat);
        let mut nlo = vec![0.0; iw * oh * n];
        let mut nhi = nlo.clone();
        for y in 0..oh {
            for xi in 0..iw * n {
                let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY);
                let mut e = 0.0f64;
                for v in &vs {
                    let w = &v[y];
                    let (mut l, mut h, mut g) = (0.0, 0.0, 0.0);
                    for (j, &c) in w.w.iter().enumerate() {
                        let p = (w.start + j) * iw * n + xi;
                        let (x0, x1) = (c * lo[p], c * hi[p]);
                        l += x0.min(x1);
                        h += x0.max(x1);
                        g += c.abs();
                    }
                    a = a.min(l);
                    b = b.max(h);
                    e = e.max(err(w.w.len(), g, ih as f64 / oh as f64));
                }
                nlo[y * iw * n + xi] = cl(a - e);
                nhi[y * iw * n + xi] = cl(b + e);
            }
        }
        lo = nlo;
        hi = nhi;
    }
    if ow != iw {
        let vs = variants(filter, iw, ow, sat);
        let mut nlo = vec![0.0; ow * oh * n];
        let mut nhi = nlo.clone();
        for y in 0..oh {
            for x in 0..ow {
                for k in 0..n {
                    let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY);
                    let mut e = 0.0f64;
                    for v in &vs {
                        let w = &v[x];
                        let (mut l, mut h, mut g) = (0.0, 0.0, 0.0);
                        for (j, &c) in w.w.iter().enumerate() {
                            let p = (y * iw + w.start + j) * n + k;
                            let (x0, x1) = (c * lo[p], c * hi[p]);
                            l += x0.min(x1);
                            h += x0.max(x1);
                            g += c.abs();
                        }
                        a = a.min(l);
                        b = b.max(h);
                        e = e.max(err(w.w.len(), g, iw as f64 / ow as f64));
                    }
                    nlo[(y * ow + x) * n + k] = cl(a - e);
                    nhi[(y * ow + x) * n + k] = cl(b + e);
                }
            }
        }
        lo = nlo;
        hi = nhi;
    }
    (lo, hi)
}
