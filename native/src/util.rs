//! Deterministic RNG, element types and the case description shared by every property driver.
use std::fmt::Debug;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
}

pub trait Px: Copy + Default + Debug + Send + Sync + PartialEq + 'static {
    const INT: bool;
    const NAME: &'static str;
    fn f(self) -> f64;
    fn of(v: f64) -> Self;
    /// bit pattern, so that comparisons are exact also for floats
    fn bits(self) -> u64;
    fn from_bits_(b: u64) -> Self;
}
impl Px for u8 {
    const INT: bool = true;
    const NAME: &'static str = "u8";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> Self {
        v as u8
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn from_bits_(b: u64) -> Self {
        b as u8
    }
}
impl Px for u16 {
    const INT: bool = true;
    const NAME: &'static str = "u16";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> Self {
        v as u16
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn from_bits_(b: u64) -> Self {
        b as u16
    }
}
impl Px for f32 {
    const INT: bool = false;
    const NAME: &'static str = "f32";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> Self {
        v as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits_(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
#[cfg(feature = "f16")]
impl Px for f16 {
    const INT: bool = false;
    const NAME: &'static str = "f16";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> Self {
        v as f16
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits_(b: u64) -> Self {
        f16::from_bits(b as u16)
    }
}

/// One concrete input: everything a run depends on, printable and parseable (replay).
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub fmt: String, // u8 u16 f32 f16 ar30 ra30
    pub n: usize,
    pub iw: usize,
    pub ih: usize,
    pub ow: usize,
    pub oh: usize,
    pub sp: usize, // source padding, elements per row
    pub dp: usize, // destination padding
    pub filter: u32,
    pub quality: bool,
    pub th: usize, // 0 single, k fixed(k), 999 adaptive
    pub pm: bool,
    pub depth: usize,
    pub kind: usize,
    pub seed: u64,
    pub api: usize,
    pub x: usize, // property specific
}
impl Default for Case {
    fn default() -> Self {
        Case {
            fmt: "u8".into(),
            n: 4,
            iw: 8,
            ih: 8,
            ow: 4,
            oh: 4,
            sp: 0,
            dp: 0,
            filter: 0,
            quality: false,
            th: 0,
            pm: false,
            depth: 8,
            kind: 0,
            seed: 1,
            api: 0,
            x: 0,
        }
    }
}
impl Case {
    pub fn show(&self) -> String {
        format!(
            "fmt={} n={} iw={} ih={} ow={} oh={} sp={} dp={} filter={} quality={} th={} pm={} depth={} kind={} seed={} api={} x={}",
            self.fmt, self.n, self.iw, self.ih, self.ow, self.oh, self.sp, self.dp, self.filter,
            self.quality as u8, self.th, self.pm as u8, self.depth, self.kind, self.seed, self.api, self.x
        )
    }
    pub fn parse(s: &str) -> Case {
        let mut c = Case::default();
        for kv in s.split_whitespace() {
            let Some((k, v)) = kv.split_once('=') else { continue };
            let u = || v.parse::<usize>().unwrap_or(0);
            match k {
                "fmt" => c.fmt = v.into(),
                "n" => c.n = u(),
                "iw" => c.iw = u(),
                "ih" => c.ih = u(),
                "ow" => c.ow = u(),
                "oh" => c.oh = u(),
                "sp" => c.sp = u(),
                "dp" => c.dp = u(),
                "filter" => c.filter = u() as u32,
                "quality" => c.quality = u() != 0,
                "th" => c.th = u(),
                "pm" => c.pm = u() != 0,
                "depth" => c.depth = u(),
                "kind" => c.kind = u(),
                "seed" => c.seed = v.parse().unwrap_or(0),
                "api" => c.api = u(),
                "x" => c.x = u(),
                _ => {}
            }
        }
        c
    }
    pub fn max(&self) -> f64 {
        match self.fmt.as_str() {
            "u8" => 255.0,
            "u16" => ((1u64 << self.depth) - 1) as f64,
            "ar30" | "ra30" => 1023.0,
            _ => 1.0,
        }
    }
}

pub const N_KINDS: usize = 11;
/// Image content `w*h*n`, tight.  `kind` selects the family, `seed` the instance.
pub fn content<T: Px>(c: &Case, w: usize, h: usize, n: usize, seed: u64) -> Vec<T> {
    let mut r = Rng::new(seed.wrapping_mul(77) ^ 0xC0FFEE);
    let max = c.max();
    let mut v = vec![T::default(); w * h * n];
    let q = |x: f64| -> T {
        if T::INT {
            T::of(x.round().clamp(0.0, max))
        } else {
            T::of(x)
        }
    };
    let consts: Vec<f64> = (0..n).map(|_| (r.unit() * (max + if T::INT { 1.0 } else { 0.0 })).min(max)).map(|x| if T::INT { x.floor() } else { x }).collect();
    let imp = (r.below((w * h).max(1) as u64) as usize, r.below(n as u64) as usize);
    let (fx, fy, ph) = (r.unit() * 0.5, r.unit() * 0.5, r.unit() * 6.0);
    let const_alpha = match r.below(4) {
        0 => 1.0_f64.min(max),
        1 => (max / 2.0).floor().max(if T::INT { 1.0 } else { 0.25 }),
        _ => {
            if T::INT {
                1.0 + r.below(max as u64) as f64
            } else {
                0.05 + r.unit() * 0.95
            }
        }
    };
    for y in 0..h {
        for x in 0..w {
            for k in 0..n {
                let i = (y * w + x) * n + k;
                let alpha = n == 4 && k == 3;
                v[i] = match c.kind {
                    0 => q(r.unit() * (max + 0.999 * (T::INT as u8 as f64)) - 0.4999 * (T::INT as u8 as f64)),
                    1 => q(if r.chance(0.5) { max } else { 0.0 }),
                    2 => q(max * ((x + y + k) as f64) / ((w + h + n) as f64)),
                    3 => q(if (y * w + x, k) == imp { max } else { 0.0 }),
                    4 => q(consts[k]),
                    5 => q(max),
                    6 => q(0.0),
                    7 => q(max * (0.5 + 0.5 * (fx * x as f64 + fy * y as f64 + ph + k as f64).sin())),
                    8 => {
                        if alpha {
                            q(if r.chance(0.4) { 0.0 } else if r.chance(0.5) { max } else { r.unit() * max })
                        } else {
                            q(r.unit() * max)
                        }
                    }
                    9 => {
                        if alpha {
                            q(const_alpha)
                        } else {
                            q(r.unit() * max)
                        }
                    }
                    _ => {
                        if alpha {
                            q(max)
                        } else {
                            q(r.unit() * max)
                        }
                    }
                };
            }
        }
    }
    v
}

/// Lays tight rows out with `pad` extra elements per row; padding content comes from `pseed`.
pub fn with_pad<T: Px>(tight: &[T], row: usize, h: usize, pad: usize, pseed: u64) -> Vec<T> {
    let mut r = Rng::new(pseed);
    let mut out = Vec::with_capacity((row + pad) * h);
    for y in 0..h {
        out.extend_from_slice(&tight[y * row..(y + 1) * row]);
        for _ in 0..pad {
            out.push(garbage(&mut r));
        }
    }
    out
}
pub fn garbage<T: Px>(r: &mut Rng) -> T {
    if T::INT {
        T::from_bits_(r.next())
    } else {
        T::of(r.unit() * 1000.0 - 500.0)
    }
}
pub fn strip<T: Px>(buf: &[T], row: usize, h: usize, pad: usize) -> Vec<T> {
    (0..h).flat_map(|y| buf[y * (row + pad)..y * (row + pad) + row].to_vec()).collect()
}
