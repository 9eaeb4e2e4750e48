use super::*;

/// Quantised rows: round to nearest of weight * 2^15 clamped to i16, padding taps are zero,
/// bounds and geometry kept (2 rows of one tap).
fn rows(alignment: usize, al: usize) {
    let w: [f32; 2] = kani::any();
    kani::assume(w[0] >= -2. && w[0] <= 2. && w[1] >= -2. && w[1] <= 2.);
    let (s0, s1): (usize, usize) = (kani::any(), kani::any());
    let f = FilterWeights::<f32>::new(w.to_vec(), 1, 1, 2, 1, vec![FilterBounds::new(s0, 3), FilterBounds::new(s1, 2)]);
    let q = f.numerical_approximation_i16::<15>(alignment);
    assert!(q.aligned_size == al && q.kernel_size == 1 && q.distinct_elements == 2 && q.weights.len() == 2 * al);
    assert!(q.bounds.len() == 2 && q.bounds[0] == f.bounds[0] && q.bounds[1] == f.bounds[1]);
    for r in 0..2 {
        for t in 1..al {
            assert!(q.weights[r * al + t] == 0);
        }
        let got = q.weights[r * al] as f32;
        let real = w[r] * 32768.;
        if real >= 32767. {
            assert!(got == 32767.);
        } else if real <= -32768. {
            assert!(got == -32768.);
        } else {
            assert!(got == real.round());
        }
    }
}

#[kani::proof]
#[kani::unwind(5)]
fn bounded_c04_numerical_approximation() {
    rows(0, 1);
}

#[kani::proof]
#[kani::unwind(5)]
fn bounded_c04_numerical_approximation_aligned() {
    rows(4, 4);
}
