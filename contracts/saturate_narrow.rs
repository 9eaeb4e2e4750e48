use super::*;

fn spec(v: i64, max: i64) -> i64 {
    // floor(v / 2^15) clamped into 0..=max
    let q = v.div_euclid(1 << 15);
    if q < 0 { 0 } else if q > max { max } else { q }
}

#[kani::proof]
fn c04_narrow_i32_u8() {
    let v: i32 = kani::any();
    let r: u8 = v.saturate_narrow(8);
    assert!(r as i64 == spec(v as i64, 255));
}

#[kani::proof]
fn c04_narrow_i64_u8() {
    let v: i64 = kani::any();
    let r: u8 = v.saturate_narrow(8);
    assert!(r as i64 == spec(v, 255));
}

#[kani::proof]
fn c04_narrow_i32_u16() {
    let v: i32 = kani::any();
    let d: u32 = kani::any();
    kani::assume(d >= 1 && d <= 16);
    let r: u16 = v.saturate_narrow(d);
    assert!(r as i64 == spec(v as i64, (1 << d) - 1));
}

#[kani::proof]
fn c04_narrow_i64_u16() {
    let v: i64 = kani::any();
    let d: u32 = kani::any();
    kani::assume(d >= 1 && d <= 16);
    let r: u16 = v.saturate_narrow(d);
    assert!(r as i64 == spec(v, (1 << d) - 1));
}
