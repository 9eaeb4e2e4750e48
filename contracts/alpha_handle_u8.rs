use super::*;

#[kani::proof_for_contract(div_by_255)]
fn c11_div_by_255() {
    div_by_255(kani::any());
}

/// One pixel of the scalar premultiplication, every colour and every alpha.
#[kani::proof]
#[kani::unwind(4)]
fn c11_premultiply_pixel() {
    let src: [u8; 4] = kani::any();
    let mut dst: [u8; 4] = kani::any();
    premultiply_alpha_rgba_row_impl(&mut dst, &src);
    let a = src[3] as u32;
    for c in 0..3 {
        assert!(dst[c] as u32 == (2 * src[c] as u32 * a + 255) / 510);
    }
    assert!(dst[3] == src[3]);
}

/// Every entry of the table: round to nearest of 255 * p / a, saturated.
#[kani::proof]
fn c11_unpremultiply_table() {
    let (a, p): (u8, u8) = (kani::any(), kani::any());
    let v = UNPREMULTIPLICATION_TABLE[a as usize * 256 + p as usize] as u32;
    if a == 0 {
        assert!(v == 0);
    } else {
        let num = 255 * p as u32 + a as u32 / 2;
        // v = min(num / a, 255)
        if v == 255 {
            assert!(num >= 255 * a as u32);
        } else {
            assert!(v * a as u32 <= num && num < (v + 1) * a as u32);
        }
    }
}

/// Rows: pixel k of the destination depends on pixel k of the source only, bytes behind the last
/// whole pixel stay (rows of up to two pixels).
#[kani::proof]
#[kani::unwind(6)]
fn bounded_c11_premultiply_row() {
    const N: usize = 2;
    let src: [u8; 4 * N] = kani::any();
    let before: [u8; 4 * N + 2] = kani::any();
    let mut dst = before;
    let n: usize = kani::any();
    kani::assume(n <= N);
    premultiply_alpha_rgba_row_impl(&mut dst, &src[..4 * n]);
    for p in 0..N {
        if p < n {
            let mut one = [0u8; 4];
            premultiply_alpha_rgba_row_impl(&mut one, &[src[4 * p], src[4 * p + 1], src[4 * p + 2], src[4 * p + 3]]);
            for c in 0..4 {
                assert!(dst[4 * p + c] == one[c]);
            }
        } else {
            for c in 0..4 {
                assert!(dst[4 * p + c] == before[4 * p + c]);
            }
        }
    }
    assert!(dst[4 * N] == before[4 * N] && dst[4 * N + 1] == before[4 * N + 1]);
    kani::cover!(n == 2);
}
