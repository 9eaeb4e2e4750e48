use super::*;

/// number -> function, every u32 (numbers outside the table give Bilinear)
#[kani::proof]
fn c18_from_u32() {
    let v: u32 = kani::any();
    let want = match v {
        0 => ResamplingFunction::Bilinear,
        1 => ResamplingFunction::Nearest,
        2 => ResamplingFunction::Cubic,
        3 => ResamplingFunction::MitchellNetravalli,
        4 => ResamplingFunction::CatmullRom,
        5 => ResamplingFunction::Hermite,
        6 => ResamplingFunction::BSpline,
        7 => ResamplingFunction::Hann,
        8 => ResamplingFunction::Bicubic,
        9 => ResamplingFunction::Hamming,
        10 => ResamplingFunction::Hanning,
        11 => ResamplingFunction::Blackman,
        12 => ResamplingFunction::Welch,
        13 => ResamplingFunction::Quadric,
        14 => ResamplingFunction::Gaussian,
        15 => ResamplingFunction::Sphinx,
        16 => ResamplingFunction::Bartlett,
        17 => ResamplingFunction::Robidoux,
        18 => ResamplingFunction::RobidouxSharp,
        19 => ResamplingFunction::Spline16,
        20 => ResamplingFunction::Spline36,
        21 => ResamplingFunction::Spline64,
        22 => ResamplingFunction::Kaiser,
        23 => ResamplingFunction::BartlettHann,
        24 => ResamplingFunction::Box,
        25 => ResamplingFunction::Bohman,
        26 => ResamplingFunction::Lanczos2,
        27 => ResamplingFunction::Lanczos3,
        28 => ResamplingFunction::Lanczos4,
        29 => ResamplingFunction::Lanczos2Jinc,
        30 => ResamplingFunction::Lanczos3Jinc,
        31 => ResamplingFunction::Lanczos4Jinc,
        32 => ResamplingFunction::EwaHanning,
        33 => ResamplingFunction::EwaRobidoux,
        34 => ResamplingFunction::EwaBlackman,
        35 => ResamplingFunction::EwaQuadric,
        36 => ResamplingFunction::EwaRobidouxSharp,
        37 => ResamplingFunction::EwaLanczos3Jinc,
        38 => ResamplingFunction::Ginseng,
        39 => ResamplingFunction::EwaGinseng,
        40 => ResamplingFunction::EwaLanczosSharp,
        41 => ResamplingFunction::EwaLanczos4Sharpest,
        42 => ResamplingFunction::EwaLanczosSoft,
        43 => ResamplingFunction::HaasnSoft,
        44 => ResamplingFunction::Lagrange2,
        45 => ResamplingFunction::Lagrange3,
        46 => ResamplingFunction::Lanczos6,
        47 => ResamplingFunction::Lanczos6Jinc,
        48 => ResamplingFunction::Area,
        _ => ResamplingFunction::Bilinear,
    };
    assert!(ResamplingFunction::from(v) == want);
}

fn row(f: ResamplingFunction, size: f32, ewa: bool, resizable: bool, area: bool, window: Option<(f32, f32, f32)>) {
    let r = f.get_resampling_filter::<f32>();
    assert!(r.min_kernel_size == size && r.is_ewa == ewa && r.is_resizable_kernel == resizable && r.is_area == area);
    match (r.window, window) {
        (None, None) => {}
        (Some(w), Some((s, b, t))) => assert!(w.window_size == s && w.blur == b && w.taper == t),
        _ => assert!(false),
    }
}

/// kernel support, elliptical / resizable / area flags and window parameters of every function
#[kani::proof]
fn c10_filter_table() {
    row(ResamplingFunction::Bilinear, 2., false, true, false, None);
    row(ResamplingFunction::Nearest, 2., false, true, false, None);
    row(ResamplingFunction::Cubic, 2., false, true, false, None);
    row(ResamplingFunction::MitchellNetravalli, 2., false, true, false, None);
    row(ResamplingFunction::CatmullRom, 2., false, true, false, None);
    row(ResamplingFunction::Hermite, 2., false, true, false, None);
    row(ResamplingFunction::BSpline, 2., false, true, false, None);
    row(ResamplingFunction::Hann, 3., false, true, false, None);
    row(ResamplingFunction::Bicubic, 2., false, true, false, None);
    row(ResamplingFunction::Hamming, 2., false, true, false, None);
    row(ResamplingFunction::Hanning, 2., false, true, false, None);
    row(ResamplingFunction::Blackman, 2., false, true, false, None);
    row(ResamplingFunction::Welch, 2., false, true, false, None);
    row(ResamplingFunction::Quadric, 2., false, true, false, None);
    row(ResamplingFunction::Gaussian, 2., false, true, false, None);
    row(ResamplingFunction::Sphinx, 2., false, true, false, None);
    row(ResamplingFunction::Bartlett, 2., false, true, false, None);
    row(ResamplingFunction::Robidoux, 2., false, true, false, None);
    row(ResamplingFunction::RobidouxSharp, 2., false, true, false, None);
    row(ResamplingFunction::Spline16, 2., false, false, false, None);
    row(ResamplingFunction::Spline36, 4., false, false, false, None);
    row(ResamplingFunction::Spline64, 6., false, false, false, None);
    row(ResamplingFunction::Kaiser, 2., false, true, false, None);
    row(ResamplingFunction::BartlettHann, 2., false, true, false, None);
    row(ResamplingFunction::Box, 2., false, true, false, None);
    row(ResamplingFunction::Bohman, 2., false, true, false, None);
    row(ResamplingFunction::Lanczos2, 2., false, true, false, None);
    row(ResamplingFunction::Lanczos3, 3., false, true, false, None);
    row(ResamplingFunction::Lanczos4, 4., false, true, false, None);
    row(ResamplingFunction::Lanczos2Jinc, 2., false, true, false, None);
    row(ResamplingFunction::Lanczos3Jinc, 3., false, true, false, None);
    row(ResamplingFunction::Lanczos4Jinc, 4., false, true, false, None);
    row(ResamplingFunction::EwaHanning, 1., true, true, false, Some((2.,0.,0.)));
    row(ResamplingFunction::EwaRobidoux, 2., true, true, false, None);
    row(ResamplingFunction::EwaBlackman, 2., true, true, false, None);
    row(ResamplingFunction::EwaQuadric, 2., true, true, false, None);
    row(ResamplingFunction::EwaRobidouxSharp, 2., true, true, false, None);
    row(ResamplingFunction::EwaLanczos3Jinc, 3., true, true, false, None);
    row(ResamplingFunction::Ginseng, 3., false, true, false, Some((3.,1.,0.)));
    row(ResamplingFunction::EwaGinseng, 3., true, true, false, Some((3.2383154841662362,1.,0.)));
    row(ResamplingFunction::EwaLanczosSharp, 3., true, true, false, Some((3.2383154841662362,0.9812505837223707,0.)));
    row(ResamplingFunction::EwaLanczos4Sharpest, 4., true, true, false, Some((4.2410628637960699,0.8845120932605005,0.)));
    row(ResamplingFunction::EwaLanczosSoft, 3., true, true, false, Some((3.2383154841662362,1.0164667662867047,0.)));
    row(ResamplingFunction::HaasnSoft, 3., false, true, false, Some((3.,1.11,0.)));
    row(ResamplingFunction::Lagrange2, 2., false, true, false, None);
    row(ResamplingFunction::Lagrange3, 3., false, true, false, None);
    row(ResamplingFunction::Lanczos6, 6., false, true, false, None);
    row(ResamplingFunction::Lanczos6Jinc, 6., false, true, false, None);
    row(ResamplingFunction::Area, 2., false, true, true, None);
}
