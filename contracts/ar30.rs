use super::*;

fn roundtrip<const STORE: usize>(kind: Rgb30) {
    let (r, g, b): (i32, i32, i32) = (kani::any(), kani::any(), kani::any());
    kani::assume(r >= 0 && r < 1024 && g >= 0 && g < 1024 && b >= 0 && b < 1024);
    let v = kind.pack_w_a::<STORE>(r, g, b, kani::any());
    let (r1, g1, b1, a1) = kind.unpack::<STORE>(v);
    assert!(r1 == r as u32 && g1 == g as u32 && b1 == b as u32 && a1 == 3);
    // layout in memory
    let by = if STORE == 0 { u32::from_le_bytes(v.to_le_bytes()) } else { u32::from_be_bytes(v.to_le_bytes()) };
    let (r, g, b) = (r as u32, g as u32, b as u32);
    match kind {
        Rgb30::Ar30 => assert!(by == 3 << 30 | b << 20 | g << 10 | r),
        Rgb30::Ra30 => assert!(by == r << 22 | g << 12 | b << 2 | 3),
    }
}

#[kani::proof]
fn c13_ar30_host() {
    roundtrip::<0>(Rgb30::Ar30);
}
#[kani::proof]
fn c13_ar30_network() {
    roundtrip::<1>(Rgb30::Ar30);
}
#[kani::proof]
fn c13_ra30_host() {
    roundtrip::<0>(Rgb30::Ra30);
}
#[kani::proof]
fn c13_ra30_network() {
    roundtrip::<1>(Rgb30::Ra30);
}

/// unpack then pack gives the pixel back with opaque alpha, every 32-bit word
#[kani::proof]
fn c13_repack() {
    let v: u32 = kani::any();
    let (r, g, b, _) = Rgb30::Ar30.unpack::<0>(v);
    assert!(Rgb30::Ar30.pack_w_a::<0>(r as i32, g as i32, b as i32, 3) == v | 3 << 30);
    let (r, g, b, _) = Rgb30::Ra30.unpack::<0>(v);
    assert!(Rgb30::Ra30.pack_w_a::<0>(r as i32, g as i32, b as i32, 3) == v | 3);
    let (r, g, b, _) = Rgb30::Ar30.unpack::<1>(v);
    assert!(Rgb30::Ar30.pack_w_a::<1>(r as i32, g as i32, b as i32, 3) == v | (3u32 << 30).swap_bytes());
    let (r, g, b, _) = Rgb30::Ra30.unpack::<1>(v);
    assert!(Rgb30::Ra30.pack_w_a::<1>(r as i32, g as i32, b as i32, 3) == v | 3u32.swap_bytes());
}

#[kani::proof]
fn c13_selectors() {
    assert!(Rgb30::from(0usize) == Rgb30::Ar30 && Rgb30::from(1usize) == Rgb30::Ra30);
    assert!(Rgb30::from(Rgb30::Ar30 as usize) == Rgb30::Ar30 && Rgb30::from(Rgb30::Ra30 as usize) == Rgb30::Ra30);
    assert!(Ar30ByteOrder::from(0usize) == Ar30ByteOrder::Host);
    assert!(Ar30ByteOrder::from(1usize) == Ar30ByteOrder::Network);
    assert!(Ar30ByteOrder::Host as usize == 0 && Ar30ByteOrder::Network as usize == 1);
}
