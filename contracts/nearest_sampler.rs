use super::*;

/// Contract of nearest_position for sizes up to 2^6 (the 128-bit division is out of the SAT
/// back end's reach beyond that; the unbounded statement is proved by Verus).
#[kani::proof_for_contract(nearest_position)]
fn bounded_c09_nearest_position() {
    let (p, s, d): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(s <= 64 && d <= 64 && p < 64);
    nearest_position(p, s, d);
}

/// Every destination pixel is a whole source pixel (rows of up to three pixels, all positions).
#[kani::proof]
#[kani::unwind(5)]
fn bounded_c09_sample_row_rgb() {
    let src: [u8; 9] = kani::any();
    let before: [u8; 11] = kani::any();
    let mut dst = before;
    let pos: [usize; 3] = kani::any();
    kani::assume(pos[0] < 3 && pos[1] < 3 && pos[2] < 3);
    sample_row::<u8, 3>(&src, &mut dst, &pos);
    let k: usize = kani::any();
    kani::assume(k < 11);
    if k < 9 {
        assert!(dst[k] == src[pos[k / 3] * 3 + k % 3]);
    } else {
        assert!(dst[k] == before[k]);
    }
}

#[kani::proof]
#[kani::unwind(6)]
fn bounded_c09_sample_row_rgba16() {
    let src: [u16; 8] = kani::any();
    let before: [u16; 9] = kani::any();
    let mut dst = before;
    let pos: [usize; 2] = kani::any();
    kani::assume(pos[0] < 2 && pos[1] < 2);
    sample_row::<u16, 4>(&src, &mut dst, &pos);
    let k: usize = kani::any();
    kani::assume(k < 9);
    if k < 8 {
        assert!(dst[k] == src[pos[k / 4] * 4 + k % 4]);
    } else {
        assert!(dst[k] == before[k]);
    }
}
