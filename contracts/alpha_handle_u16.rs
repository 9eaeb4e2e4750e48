use super::*;

#[kani::proof_for_contract(div_by_1023)]
fn c11_div_by_1023() {
    div_by_1023(kani::any());
}

#[kani::proof_for_contract(div_by_4095)]
fn c11_div_by_4095() {
    div_by_4095(kani::any());
}

#[kani::proof_for_contract(div_by_65535)]
fn c11_div_by_65535() {
    div_by_65535(kani::any());
}

fn pixel(max: u32) -> [u16; 4] {
    let p: [u16; 4] = kani::any();
    kani::assume(p[0] as u32 <= max && p[1] as u32 <= max && p[2] as u32 <= max && p[3] as u32 <= max);
    p
}

/// The exact branches of the row function hand their products to the contracted divisions.
#[kani::proof]
#[kani::stub_verified(div_by_1023)]
#[kani::unwind(4)]
fn c11_premultiply_pixel_1023() {
    let src = pixel(1023);
    let mut dst: [u16; 4] = kani::any();
    premultiply_alpha_rgba_row(&mut dst, &src, 1023);
    let v = src[0] as u32 * src[3] as u32;
    assert!(dst[0] as u64 == (2 * v as u64 + 1023) / 2046);
    let v = src[1] as u32 * src[3] as u32;
    assert!(dst[1] as u64 == (2 * v as u64 + 1023) / 2046);
    let v = src[2] as u32 * src[3] as u32;
    assert!(dst[2] as u64 == (2 * v as u64 + 1023) / 2046);
    assert!(dst[3] == src[3]);
}

#[kani::proof]
#[kani::stub_verified(div_by_65535)]
#[kani::unwind(4)]
fn c11_premultiply_pixel_65535() {
    let src = pixel(65535);
    let mut dst: [u16; 4] = kani::any();
    premultiply_alpha_rgba_row(&mut dst, &src, 65535);
    let v = src[0] as u32 * src[3] as u32;
    assert!(dst[0] as u64 == (2 * v as u64 + 65535) / 131070);
    let v = src[1] as u32 * src[3] as u32;
    assert!(dst[1] as u64 == (2 * v as u64 + 65535) / 131070);
    let v = src[2] as u32 * src[3] as u32;
    assert!(dst[2] as u64 == (2 * v as u64 + 65535) / 131070);
    assert!(dst[3] == src[3]);
}

/// The general branch: result within the depth and alpha kept.
#[kani::proof]
#[kani::unwind(4)]
fn c11_premultiply_pixel_depth() {
    let depth: u32 = kani::any();
    kani::assume(depth >= 1 && depth <= 16 && depth != 10 && depth != 16);
    let max = (1u32 << depth) - 1;
    let src = pixel(max);
    let mut dst: [u16; 4] = kani::any();
    premultiply_alpha_rgba_row(&mut dst, &src, max);
    assert!(dst[0] as u32 <= max && dst[1] as u32 <= max && dst[2] as u32 <= max);
    assert!(dst[3] == src[3]);
}

/// Dissociating keeps alpha, leaves black where alpha is zero, stays within the depth.
#[kani::proof]
#[kani::unwind(8)]
fn c11_unpremultiply_pixel_depth() {
    let depth: u32 = kani::any();
    kani::assume(depth >= 1 && depth <= 16);
    let max = (1u32 << depth) - 1;
    let src = pixel(max);
    let mut px = src;
    unpremultiply_alpha_rgba_row(&mut px[..], max);
    assert!(px[3] == src[3]);
    assert!(px[0] as u32 <= max && px[1] as u32 <= max && px[2] as u32 <= max);
    if src[3] == 0 {
        assert!(px[0] == 0 && px[1] == 0 && px[2] == 0);
    }
}
