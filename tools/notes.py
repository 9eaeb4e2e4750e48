"""What decides each property: one line per property, for MANIFEST.json and the evidence files."""
B = "; the calls of the kernels by the passes and of the passes by the scalers: proved for one thread; thread pools and whole operations by the bounded native stand-in"
N = "; whole operations by the bounded native stand-in"
NOTES = {
    "C01": "lvc contracts on the 8-bit row kernels (every tap of the window once, right weight, bias, narrowing; all sizes) and on generate_weights and numerical_approximation (windows inside the source, weights within half a unit): proved. Kani: saturating narrowings, all inputs" + B,
    "C02": "lvc contracts on the 16-bit row kernels (fixed point up to 12 bits, float accumulation above) and on the weights they get: proved. Kani: narrowings to u16, all inputs" + B,
    "C03": "lvc contracts over the reals on the f32/f16 row kernels, contract of generate_weights; rounding of each operation is the stand-in's tolerance. Kani: f32 store" + B,
    "C04": "Kani: every narrowing clamps and rounds; lvc: the exact 8/16-bit kernels narrow a weighted sum over the whole window; that the weights sum to one (Kani bounded, 2 rows) and the composition are bounded",
    "C05": "lvc: every load and store of the row kernels stays inside its buffer and nothing panics, all sizes and windows; the windows themselves (generate_weights and its i16 conversion, axes up to 2^48) satisfy that precondition. Verus: nearest position, size overflow. Kani: validation" + B + " under guard pages and canaries",
    "C06": "lvc: addresses of the 4-row and vertical kernels are row * stride + x with x inside the row; stores likewise" + B,
    "C07": "lvc: each kernel writes exactly its own outputs, once, so the calls on disjoint rows commute. Kani: thread count at least one. Schedules and histories themselves are bounded (stand-in over policies, reuse, repetition)",
    "C08": "lvc: every way through the scalers: an error has a documented reason and precedes any write, success implies valid images and depth. Kani: validate for 1, 3, 4 channels accepts exactly what fits. Verus: size overflow check. Entry points of the packed and colour-space scalers: bounded stand-in",
    "C09": "lvc: every way through the scalers: same size is one copy, Nearest is resize_nearest with the images' geometry; the copy (copied_to_mut, all formats and channels) puts every sample in its place, all sizes and strides. Verus: the nearest position, all sizes. Kani: row copies (bounded lengths)" + N,
    "C10": "Kani: the kernel table is total. The kernel shapes are transcendental or float polynomials: sampled against closed forms (bounded), no contract decides them",
    "C11": "Kani: the integer alpha arithmetic for all values; lvc: the alpha row kernels under contract, all lengths" + B,
    "C12": "lvc: the test (u8, u16, f32: scalar, SSE, AVX2, AVX-512, and the choice between them) answers no when all alphas are equal and yes when any one differs, all sizes and strides; every way through the four-channel scalers takes the alpha round trip exactly when asked and the test says so. Kani: scalar test, 2 x 2 pixels" + N + ": a single differing alpha at every place",
    "C13": "Kani: packing and unpacking for all words. lvc: packed row kernels (layouts, byte orders, alpha kept opaque), scalar rows and SSE rows and columns, and the packed dispatchers calling them" + N,
    "C14": "Kani: constructors accept exactly what fits, all lengths and sizes; copies bounded" + N,
    "C15": "bounded stand-in only: conversion composed with the crate's own resize in the named space; the conversions are transcendental and live in colorutils-rs",
    "C16": "lvc: the exact kernels of all instruction sets meet one functional postcondition, hence agree bit for bit" + N + " across four builds",
    "C17": "lvc: in every multi-channel kernel an output depends on its own channel and window only (taps and weights)" + N,
    "C18": "Kani: conversions of codes total, codes distinct, thread count within bounds, all inputs",
}
