//! Runs a case through the public API of the real crate.
use crate::util::*;
use pic_scale::*;
use std::borrow::Cow;

pub trait Rz<const N: usize>: Px + Copy {
    fn rz<'a>(
        s: &'a Scaler,
        src: &ImageStore<'a, Self, N>,
        dst: &mut ImageStoreMut<'a, Self, N>,
        pm: bool,
    ) -> Result<(), PicScaleError>;
    fn scale_api<'a>(
        src: &ImageStore<'a, Self, N>,
        dst: &mut ImageStoreMut<'a, Self, N>,
        o: ScalingOptions,
    ) -> Result<(), PicScaleError>;
}
macro_rules! rz {
    ($t:ty, $n:expr, $m:ident) => {
        impl Rz<$n> for $t {
            fn rz<'a>(
                s: &'a Scaler,
                src: &ImageStore<'a, Self, $n>,
                dst: &mut ImageStoreMut<'a, Self, $n>,
                _pm: bool,
            ) -> Result<(), PicScaleError> {
                s.$m(src, dst)
            }
            fn scale_api<'a>(
                src: &ImageStore<'a, Self, $n>,
                dst: &mut ImageStoreMut<'a, Self, $n>,
                o: ScalingOptions,
            ) -> Result<(), PicScaleError> {
                src.scale(dst, o)
            }
        }
    };
    ($t:ty, $n:expr, $m:ident, alpha) => {
        impl Rz<$n> for $t {
            fn rz<'a>(
                s: &'a Scaler,
                src: &ImageStore<'a, Self, $n>,
                dst: &mut ImageStoreMut<'a, Self, $n>,
                pm: bool,
            ) -> Result<(), PicScaleError> {
                s.$m(src, dst, pm)
            }
            fn scale_api<'a>(
                src: &ImageStore<'a, Self, $n>,
                dst: &mut ImageStoreMut<'a, Self, $n>,
                o: ScalingOptions,
            ) -> Result<(), PicScaleError> {
                src.scale(dst, o)
            }
        }
    };
}
rz!(u8, 1, resize_plane);
rz!(u8, 2, resize_cbcr8);
rz!(u8, 3, resize_rgb);
rz!(u8, 4, resize_rgba, alpha);
rz!(u16, 1, resize_plane_u16);
rz!(u16, 2, resize_cbcr_u16);
rz!(u16, 3, resize_rgb_u16);
rz!(u16, 4, resize_rgba_u16, alpha);
rz!(f32, 1, resize_plane_f32);
rz!(f32, 2, resize_cbcr_f32);
rz!(f32, 3, resize_rgb_f32);
rz!(f32, 4, resize_rgba_f32, alpha);
#[cfg(feature = "f16")]
rz!(f16, 1, resize_plane_f16);
#[cfg(feature = "f16")]
rz!(f16, 2, resize_cbcr_f16);
#[cfg(feature = "f16")]
rz!(f16, 3, resize_rgb_f16);
#[cfg(feature = "f16")]
rz!(f16, 4, resize_rgba_f16, alpha);

pub fn policy(th: usize) -> ThreadingPolicy {
    match th {
        0 => ThreadingPolicy::Single,
        999 => ThreadingPolicy::Adaptive,
        k => ThreadingPolicy::Fixed(k),
    }
}
pub fn scaler(c: &Case) -> Scaler {
    let mut s = Scaler::new(c.filter.into());
    s.set_threading_policy(policy(c.th));
    s.set_workload_strategy(if c.quality {
        WorkloadStrategy::PreferQuality
    } else {
        WorkloadStrategy::PreferSpeed
    });
    s
}

/// Raw run on explicit buffers with explicit strides (in elements); `dst` is modified in place.
pub fn run_raw<T: Rz<N>, const N: usize>(
    c: &Case,
    src: &[T],
    sstride: usize,
    dst: &mut [T],
    dstride: usize,
) -> Result<(), PicScaleError> {
    let s = scaler(c);
    let st = ImageStore::<T, N> {
        buffer: Cow::Borrowed(src),
        channels: N,
        width: c.iw,
        height: c.ih,
        stride: sstride,
        bit_depth: if T::NAME == "u16" { c.depth } else { 0 },
    };
    let mut dt = ImageStoreMut::<T, N> {
        buffer: BufferStore::Borrowed(dst),
        channels: N,
        width: c.ow,
        height: c.oh,
        stride: dstride,
        bit_depth: if T::NAME == "u16" { c.depth } else { 0 },
    };
    if c.api == 1 {
        T::scale_api(
            &st,
            &mut dt,
            ScalingOptions {
                resampling_function: c.filter.into(),
                premultiply_alpha: c.pm,
                use_multithreading: c.th != 0,
            },
        )
    } else {
        T::rz(&s, &st, &mut dt, c.pm)
    }
}

/// Run on tight content `src`; returns the tight result.  Checks on the way that destination
/// padding is untouched.
pub fn run_tight<T: Rz<N>, const N: usize>(c: &Case, src: &[T], pseed: u64) -> Result<Vec<T>, String> {
    let sbuf = with_pad(src, c.iw * N, c.ih, c.sp, pseed ^ 0x51);
    let dstride = c.ow * N + c.dp;
    let mut r = Rng::new(pseed ^ 0x77);
    let before: Vec<T> = (0..dstride * c.oh).map(|_| garbage(&mut r)).collect();
    let mut dbuf = before.clone();
    let res = guarded(|| run_raw::<T, N>(c, &sbuf, c.iw * N + c.sp, &mut dbuf, dstride));
    match res {
        Err(p) => return Err(format!("panicked: {p}")),
        Ok(Err(e)) => return Err(format!("returned error: {e}")),
        Ok(Ok(())) => {}
    }
    for y in 0..c.oh {
        for i in c.ow * N..dstride {
            let p = y * dstride + i;
            if before[p].bits() != dbuf[p].bits() {
                return Err(format!(
                    "destination padding modified at row {y}, element {i} (row length {})",
                    c.ow * N
                ));
            }
        }
    }
    Ok(strip(&dbuf, c.ow * N, c.oh, c.dp))
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Monomorphic dispatch over (format, channel count).
#[macro_export]
macro_rules! dispatch {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        match ($c.fmt.as_str(), $c.n) {
            ("u8", 1) => $f::<u8, 1>($c $(, $a)*),
            ("u8", 2) => $f::<u8, 2>($c $(, $a)*),
            ("u8", 3) => $f::<u8, 3>($c $(, $a)*),
            ("u8", 4) => $f::<u8, 4>($c $(, $a)*),
            ("u16", 1) => $f::<u16, 1>($c $(, $a)*),
            ("u16", 2) => $f::<u16, 2>($c $(, $a)*),
            ("u16", 3) => $f::<u16, 3>($c $(, $a)*),
            ("u16", 4) => $f::<u16, 4>($c $(, $a)*),
            ("f32", 1) => $f::<f32, 1>($c $(, $a)*),
            ("f32", 2) => $f::<f32, 2>($c $(, $a)*),
            ("f32", 3) => $f::<f32, 3>($c $(, $a)*),
            ("f32", 4) => $f::<f32, 4>($c $(, $a)*),
            #[cfg(feature = "f16")]
            ("f16", 1) => $f::<f16, 1>($c $(, $a)*),
            #[cfg(feature = "f16")]
            ("f16", 2) => $f::<f16, 2>($c $(, $a)*),
            #[cfg(feature = "f16")]
            ("f16", 3) => $f::<f16, 3>($c $(, $a)*),
            #[cfg(feature = "f16")]
            ("f16", 4) => $f::<f16, 4>($c $(, $a)*),
            _ => Ok(()),
        }
    };
}

/// 10-bit packed images: (r,g,b) triples <-> bytes.
pub fn pack30(ra: bool, net: bool, rgb: [u32; 3], a: u32) -> [u8; 4] {
    let v = if ra {
        (rgb[0] << 22) | (rgb[1] << 12) | (rgb[2] << 2) | (a & 3)
    } else {
        ((a & 3) << 30) | (rgb[2] << 20) | (rgb[1] << 10) | rgb[0]
    };
    if net {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}
pub fn unpack30(ra: bool, net: bool, b: [u8; 4]) -> ([u32; 3], u32) {
    let v = if net { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) };
    if ra {
        ([(v >> 22) & 1023, (v >> 12) & 1023, (v >> 2) & 1023], v & 3)
    } else {
        ([v & 1023, (v >> 10) & 1023, (v >> 20) & 1023], v >> 30)
    }
}
pub fn run30(
    c: &Case,
    src: &[u8],
    sstride: usize,
    dst: &mut [u8],
    dstride: usize,
) -> Result<(), PicScaleError> {
    let s = scaler(c);
    let ord = if c.x & 1 == 1 { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
    let (a, b) = (ImageSize::new(c.iw, c.ih), ImageSize::new(c.ow, c.oh));
    if c.fmt == "ra30" {
        s.resize_ra30(src, sstride, a, dst, dstride, b, ord)
    } else {
        s.resize_ar30(src, sstride, a, dst, dstride, b, ord)
    }
}
