use super::*;

fn parallelism() -> usize {
    let n: usize = kani::any();
    kani::assume(n >= 1);
    n
}

/// available_parallelism asks the operating system; its own contract (at least one) stands in.
#[kani::proof]
#[kani::stub(ThreadingPolicy::available_parallelism, parallelism)]
fn c18_thread_count() {
    let size = ImageSize::new(kani::any(), kani::any());
    assert!(ThreadingPolicy::Single.thread_count(size) == 1);
    let n: usize = kani::any();
    assert!(ThreadingPolicy::Fixed(n).thread_count(size) == if n == 0 { 1 } else { n });
    assert!(ThreadingPolicy::Adaptive.thread_count(size) >= 1);
}
