// Contracts of scaler.rs, included by the hook at its end under cfg(kani).
use super::*;

/// A window has at least one and at most `kernel_size` elements and lies inside of the source, whatever the
/// floating point position was: this is what every row kernel takes for granted of FilterWeights.
#[kani::proof]
fn c05_clamp_window() {
    let (start, end, kernel_size, in_size): (usize, usize, usize, usize) = kani::any();
    kani::assume(kernel_size >= 1 && in_size >= 1);
    kani::assume(in_size <= isize::MAX as usize && kernel_size <= isize::MAX as usize);
    let (s, e) = Scaler::clamp_window(start, end, kernel_size, in_size);
    assert!(s < e && e <= in_size && e - s <= kernel_size);
    if start < end && end <= in_size && end - start <= kernel_size {
        assert!(s == start && e == end); // a window that was right is left alone
    }
}
