use super::*;

fn fits<const N: usize>(len: usize, w: usize, h: usize) -> bool {
    match (w as u128).checked_mul(h as u128).and_then(|x| x.checked_mul(N as u128)) {
        Some(n) => n == len as u128,
        None => false,
    }
}

fn make<const N: usize>() {
    let data = [0u8; 24];
    let len: usize = kani::any();
    kani::assume(len <= 24);
    let (w, h): (usize, usize) = (kani::any(), kani::any());
    let ok = fits::<N>(len, w, h);
    match ImageStore::<u8, N>::borrow(&data[..len], w, h) {
        Ok(s) => {
            assert!(ok && s.width == w && s.height == h && s.channels == N && s.bit_depth == 0);
            assert!(s.buffer.len() == len && s.stride() == s.stride);
            assert!(len == 0 || s.stride as u128 == w as u128 * N as u128);
            assert!(s.validate().is_ok());
        }
        Err(PicScaleError::BufferMismatch(m)) => {
            assert!(!ok && m.width == w && m.height == h && m.channels == N && m.slice_len == len && m.expected != len);
        }
        Err(_) => assert!(false),
    }
    match ImageStore::<u8, N>::from_slice(&data[..len], w, h) {
        Ok(s) => assert!(ok && s.width == w && s.height == h && s.channels == N && s.stride == w.saturating_mul(N)),
        Err(e) => assert!(!ok && e.code() == 4),
    }
    let mut data = data;
    match ImageStoreMut::<u8, N>::borrow(&mut data[..len], w, h) {
        Ok(s) => {
            assert!(ok && s.width == w && s.height == h && s.channels == N && s.bit_depth == 0);
            assert!(s.buffer.borrow().len() == len && s.stride == w.saturating_mul(N));
            assert!(s.validate().is_ok());
        }
        Err(e) => assert!(!ok && e.code() == 4),
    }
    match ImageStoreMut::<u8, N>::from_slice(&mut data[..len], w, h) {
        Ok(s) => assert!(ok && s.width == w && s.height == h && s.channels == N && s.stride == w.saturating_mul(N)),
        Err(e) => assert!(!ok && e.code() == 4),
    }
}

#[kani::proof]
fn c14_make_1() {
    make::<1>();
}
#[kani::proof]
fn c14_make_2() {
    make::<2>();
}
#[kani::proof]
fn c14_make_3() {
    make::<3>();
}
#[kani::proof]
fn c14_make_4() {
    make::<4>();
}

/// validate() accepts exactly the geometries on which every row lies inside the buffer
fn valid<const N: usize>() {
    let data = [0u8; 24];
    let len: usize = kani::any();
    kani::assume(len <= 24);
    let (w, h, stride): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    let st = if stride == 0 { w.saturating_mul(N) } else { stride };
    let size_ok = match (st as u128).checked_mul(h as u128) {
        Some(n) => n == len as u128,
        None => false,
    };
    let row_ok = st as u128 >= w as u128 * N as u128 || st == usize::MAX;
    let depth: usize = kani::any();
    let s = ImageStore::<u8, N> { buffer: Cow::Borrowed(&data[..len]), channels: N, width: w, height: h, stride, bit_depth: depth };
    assert!(s.stride() == st);
    match s.validate() {
        Ok(()) => {
            assert!(size_ok && row_ok);
            // every row lies inside the buffer
            let y: usize = kani::any();
            if y < h && h > 0 {
                assert!(y as u128 * st as u128 + w as u128 * N as u128 <= len as u128);
            }
        }
        Err(PicScaleError::BufferMismatch(_)) => assert!(!size_ok),
        Err(PicScaleError::InvalidStride(min, real)) => assert!(size_ok && !row_ok && real == st && min == w.saturating_mul(N)),
        Err(_) => assert!(false),
    }
    let mut data = data;
    let m = ImageStoreMut::<u8, N> { buffer: BufferStore::Borrowed(&mut data[..len]), channels: N, width: w, height: h, stride, bit_depth: depth };
    assert!(m.stride() == st);
    match m.validate() {
        Ok(()) => assert!(size_ok && row_ok),
        Err(PicScaleError::BufferMismatch(_)) => assert!(!size_ok),
        Err(PicScaleError::InvalidStride(min, real)) => assert!(size_ok && !row_ok && real == st && min == w.saturating_mul(N)),
        Err(_) => assert!(false),
    }
}

#[kani::proof]
fn c08_validate_1() {
    valid::<1>();
}
#[kani::proof]
fn c08_validate_3() {
    valid::<3>();
}
#[kani::proof]
fn c08_validate_4() {
    valid::<4>();
}

/// Copies keep geometry, depth and pixels; nothing behind the pixels of the target is written
/// (images of up to 2 x 2 pixels, strides up to 5).
#[kani::proof]
#[kani::unwind(12)]
fn bounded_c14_copies() {
    const N: usize = 2;
    let data: [u8; 10] = kani::any();
    let (w, h, stride): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(w >= 1 && w <= 2 && h >= 1 && h <= 2 && stride >= N * w && stride <= 5);
    let depth: usize = kani::any();
    let s = ImageStore::<u8, N> { buffer: Cow::Borrowed(&data[..stride * h]), channels: N, width: w, height: h, stride, bit_depth: depth };
    let c = s.copied();
    assert!(c.width == w && c.height == h && c.stride() == stride && c.bit_depth == depth && c.channels == N);
    let k: usize = kani::any();
    kani::assume(k < stride * h);
    assert!(c.buffer[k] == data[k] && c.buffer.len() == stride * h);
}

#[kani::proof]
#[kani::unwind(8)]
fn bounded_c14_copied_to_mut() {
    const N: usize = 2;
    let data: [u8; 10] = kani::any();
    let before: [u8; 12] = kani::any();
    let mut out = before;
    let (w, h, stride): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(w >= 1 && w <= 2 && h >= 1 && h <= 2 && stride >= N * w && stride <= 5);
    let ostride: usize = kani::any();
    kani::assume(ostride >= N * w && ostride <= 6);
    let s = ImageStore::<u8, N> { buffer: Cow::Borrowed(&data[..stride * h]), channels: N, width: w, height: h, stride, bit_depth: 0 };
    let mut m = ImageStoreMut::<u8, N> { buffer: BufferStore::Borrowed(&mut out[..ostride * h]), channels: N, width: w, height: h, stride: ostride, bit_depth: 0 };
    s.copied_to_mut(&mut m);
    let k: usize = kani::any();
    kani::assume(k < 12);
    let (y, x) = (k / ostride, k % ostride);
    if y < h && x < N * w {
        assert!(out[k] == data[y * stride + x]);
    } else {
        assert!(out[k] == before[k]);
    }
}
