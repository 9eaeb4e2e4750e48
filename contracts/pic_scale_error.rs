use super::*;

#[kani::proof]
fn c18_error_codes() {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    let m = PicScaleBufferMismatch { expected: a, width: b, height: a, channels: b, slice_len: a };
    assert!(PicScaleError::ZeroImageDimensions.code() == 1);
    assert!(PicScaleError::SourceImageIsTooLarge.code() == 2);
    assert!(PicScaleError::DestinationImageIsTooLarge.code() == 3);
    assert!(PicScaleError::BufferMismatch(m).code() == 4);
    assert!(PicScaleError::InvalidStride(a, b).code() == 5);
    assert!(PicScaleError::UnsupportedBitDepth(a).code() == 6);
    assert!(PicScaleError::UnknownResizingFilter.code() == 7);
}
