use super::*;

/// Result within the range and within one of the real value (0 for NaN is excluded).
#[kani::proof]
fn c04_mixed_f32_u8() {
    let v: f32 = kani::any();
    kani::assume(!v.is_nan());
    let r: u8 = v.to_mixed(8);
    if v <= 0. {
        assert!(r == 0);
    } else if v >= 255. {
        assert!(r == 255);
    } else {
        let d = r as f32 - v;
        assert!(d >= -1. && d <= 1.);
        if v == r as f32 || v.fract() == 0. {
            assert!(r as f32 == v);
        }
    }
}

#[kani::proof]
fn c04_mixed_f32_u16() {
    let v: f32 = kani::any();
    kani::assume(!v.is_nan());
    let depth: u32 = kani::any();
    kani::assume(depth >= 1 && depth <= 16);
    let max = ((1u32 << depth) - 1) as f32;
    let r: u16 = v.to_mixed(depth);
    if v <= 0. {
        assert!(r == 0);
    } else if v >= max {
        assert!(r as f32 == max);
    } else {
        let d = r as f32 - v;
        assert!(d >= -1. && d <= 1.);
        if v.fract() == 0. {
            assert!(r as f32 == v);
        }
    }
}

#[kani::proof]
fn c04_mixed_f64_u16() {
    let v: f64 = kani::any();
    kani::assume(!v.is_nan());
    let depth: u32 = kani::any();
    kani::assume(depth >= 1 && depth <= 16);
    let max = ((1u32 << depth) - 1) as f64;
    let r: u16 = v.to_mixed(depth);
    if v <= 0. {
        assert!(r == 0);
    } else if v >= max {
        assert!(r as f64 == max);
    } else {
        let d = r as f64 - v;
        assert!(d >= -1. && d <= 1.);
    }
}

#[kani::proof]
fn c03_mixed_f32_f32() {
    let v: f32 = kani::any();
    let r: f32 = v.to_mixed(kani::any());
    assert!(r.to_bits() == v.to_bits());
}
