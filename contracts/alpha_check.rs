use super::*;

/// true exactly when two pixels have different alpha; padding is not looked at (2 rows of 2 pixels)
#[kani::proof]
#[kani::unwind(4)]
fn bounded_c12_scalar_u8() {
    let px: [u8; 18] = kani::any();
    let (w, stride): (usize, usize) = (kani::any(), kani::any());
    kani::assume(w >= 1 && w <= 2 && stride >= 4 * w && stride <= 9);
    let h: usize = kani::any();
    kani::assume(h >= 1 && h <= 2);
    let r = has_non_constant_cap_alpha_rgba8(&px[..stride * h], w, stride);
    let mut want = false;
    for y in 0..h {
        for x in 0..w {
            want |= px[y * stride + x * 4 + 3] != px[3];
        }
    }
    assert!(r == want);
    kani::cover!(r);
    kani::cover!(!r && w == 2 && h == 2);
}

#[kani::proof]
#[kani::unwind(4)]
fn bounded_c12_scalar_f32() {
    let px: [f32; 16] = kani::any();
    let (w, h): (usize, usize) = (kani::any(), kani::any());
    kani::assume(w >= 1 && w <= 2 && h >= 1 && h <= 2);
    let r = has_non_constant_cap_alpha_rgba_f32(&px[..8 * h], w, 8);
    let mut want = false;
    for y in 0..h {
        for x in 0..w {
            want |= px[y * 8 + x * 4 + 3].to_bits() != px[3].to_bits();
        }
    }
    assert!(r == want);
}
