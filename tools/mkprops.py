#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one place)."""
import json
def P(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
HOOK="cfg(pic_scale_contracts): lib.rs includes the contract modules of /verif so that they see private items"
L=[
P("C01","8-bit resampling equals the documented convolution",
  "For every 8-bit image (1 to 4 channels), every source and target size, every kernel and every workload strategy, each output sample equals the separable convolution of the source with the normalised kernel weights, within the rounding of the chosen strategy (at most one level per pass for the quality path, two per pass for the speed path, plus the quantisation of the weights). No tap of the window is skipped, taken twice, or paired with another tap's weight or another channel.",
  ["inputs","configurations"],"every image content and stride, size pair, channel count, kernel, strategy, thread count and instruction-set path",
  "The tests resize a handful of constant or photographic images at one or two sizes; every width selects another combination of 32/16/8/4/2/1-tap blocks and row groups in each instruction-set path, so most combinations are never run.",
  ["src/dispatch_group_u8.rs","src/fixed_point_horizontal.rs","src/fixed_point_vertical.rs","src/sse","src/avx2","src/avx512","src/rgba_u8.rs","src/rgb_u8.rs","src/plane_u8.rs","src/cbcr8.rs","src/scaler.rs"],
  [("horizontal/vertical row kernels","src/fixed_point_*.rs, src/sse/*_u8*.rs, src/avx2/*_u8*.rs, src/avx512/*u8*.rs"),("weights to fixed point","src/filter_weights.rs")],
  [("bounds","first source index and number of taps per output sample","src/filter_weights.rs"),("weights","normalised kernel weights, padded to aligned rows","src/filter_weights.rs")],
  ["public resize results"],HOOK),
P("C02","16-bit resampling equals the documented convolution at every depth",
  "For every 16-bit image of declared depth 1 to 16, every size pair and kernel, each output sample equals the separable convolution of the source with the normalised weights, within one level per pass plus weight quantisation (depth up to 12) or float rounding (above), and never exceeds 2^depth - 1. The tail of every row gets the same treatment as its body.",
  ["inputs","configurations"],"every content, size pair, channel count, depth, kernel, thread count and instruction-set path",
  "The tests cover a few sizes at one or two depths; the low-depth fixed-point kernels and the row tails of the other depths are reached by no test.",
  ["src/dispatch_group_u16.rs","src/handler_provider.rs","src/fixed_point_horizontal.rs","src/fixed_point_vertical.rs","src/floating_point_horizontal.rs","src/floating_point_vertical.rs","src/sse","src/avx2","src/avx512"],
  [("row kernels","src/sse/*u16*.rs, src/avx2/*u16*.rs, src/fixed_point_*.rs, src/floating_point_*.rs"),("depth dispatch","src/dispatch_group_u16.rs")],(),["public resize results"],HOOK),
P("C03","Float resampling equals the documented convolution",
  "For every f32 or f16 image, every size pair and kernel, each output sample equals the separable convolution of the source with the normalised kernel weights to within the rounding of the storage type. Values are not clipped to any range.",
  ["inputs","configurations"],"every finite content, size pair, channel count, kernel, thread count and instruction-set path",
  "The tests check constants on two sizes; blocks of 16, 8, 4, 2 and 1 taps per path are combined by the window length, most of which no test produces.",
  ["src/dispatch_group_f32.rs","src/dispatch_group_f16.rs","src/floating_point_horizontal.rs","src/floating_point_vertical.rs","src/convolve_naive_f32.rs","src/sse","src/avx2","src/f16.rs"],
  [("row kernels","src/sse/*f32*.rs, src/avx2/*f32*.rs, src/*floating_point*.rs, *f16*.rs")],(),["public resize results"],HOOK),
P("C04","Constant images stay constant and results stay in range",
  "Resizing an image of one colour gives the same colour everywhere, whatever the sizes, kernel, strategy or format: exactly up to the rounding of the storage type. Integer results are clamped to the format's range and never wrap around.",
  ["inputs","configurations"],"every colour, size pair, kernel, format, depth, strategy",
  "The tests use a few constants at fixed ratios; weight quantisation error and accumulator wrap-around depend on the number of taps and on the kernel.",
  ["src/filter_weights.rs","src/scaler.rs","src/saturate_narrow.rs","src/mixed_storage.rs","src/support.rs"],
  [("weights of every window sum to one","src/scaler.rs generate_weights"),("saturating narrowing","src/saturate_narrow.rs, src/mixed_storage.rs")],(),["public resize results"],HOOK),
P("C05","Memory confinement: only the image rows are read and written",
  "For all valid inputs the library reads only the source buffer and writes only the width x channels samples of each destination row; row padding and everything beyond the buffers is untouched. It neither panics nor overflows on valid inputs.",
  ["inputs","configurations"],"every valid geometry, stride, kernel, thread count and instruction-set path",
  "Out-of-bounds reads in SIMD tails do not show up in ordinary tests: they need a buffer that ends at a page boundary, at every residual width.",
  ["src/sse","src/avx2","src/avx512","src/fixed_point_horizontal.rs","src/fixed_point_vertical.rs","src/floating_point_horizontal.rs","src/floating_point_vertical.rs","src/image_store.rs","src/alpha_check.rs"],
  [("block cut-offs of the row kernels","all row kernels"),("chunking of rows","src/dispatch_group_*.rs")],(),["guard pages around every buffer","destination padding"],HOOK),
P("C06","Row stride and padding never influence the result",
  "The result of any operation depends only on the width x channels samples of each source row: the source's stride, the destination's stride and the content of padding never change it.",
  ["inputs","configurations"],"every stride pair and padding content, for every public resize, colour-space scaler, packed resize and store operation",
  "The tests use tightly packed buffers only.",
  ["src/image_store.rs","src/scaler.rs","src/nearest_sampler.rs","src/resize_ar30.rs","src/colors"],
  [("rows are cut by stride and limited to width x channels","src/dispatch_group_*.rs, src/nearest_sampler.rs"),("stride accessor","src/image_store.rs stride()")],
  [("src_stride / dst_stride","elements per row; 0 means tightly packed","src/image_store.rs")],["public results with and without padding"],HOOK),
P("C07","Results do not depend on threads, history or the scaler instance",
  "A resize is a pure function of source, sizes and options: the same bytes come out for every threading policy, on repeated calls, with a fresh or a reused scaler, after any other operations and into a destination with any previous content; the source is never modified.",
  ["schedules","histories","inputs"],"every threading policy and schedule, every history of earlier calls",
  "The tests run each case once with the default policy; a row treated differently in a group of four rows and in the remainder shows only when the group boundaries move.",
  ["src/convolution.rs","src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs","src/dispatch_group_f16.rs","src/dispatch_group_ar30.rs","src/threading_policy.rs","src/scaler.rs"],
  [("rows are distributed over disjoint chunks","src/dispatch_group_*.rs"),("thread pool","src/threading_policy.rs")],(),["bytes of results"],HOOK),
P("C08","Invalid requests are reported, valid ones never are",
  "Every operation returns the documented error, with the documented precedence, for a buffer whose length or stride does not fit its declared geometry, for zero sizes, for sizes whose byte count overflows and for unsupported depths, and leaves the destination untouched; it returns success for every valid request. It never panics on an invalid one.",
  ["inputs"],"every geometry including zero and near-overflow sizes, every buffer length, stride and depth",
  "No test exercises the error paths beyond one or two; overflow needs sizes near the machine limit.",
  ["src/image_store.rs","src/support.rs","src/scaler.rs","src/resize_ar30.rs","src/pic_scale_error.rs"],
  [("validate","src/image_store.rs"),("check_image_size_overflow","src/support.rs"),("generic_resize order of checks","src/scaler.rs")],(),["Result of the public call","destination bytes"],HOOK),
P("C09","Same-size and nearest operations copy source samples exactly",
  "Resizing to the same size reproduces the source bit for bit. Nearest resampling makes each output pixel a bit-exact copy of the source pixel closest to its position, the lower one when two are equally close, in every format.",
  ["inputs","configurations"],"every format, content (all bit patterns), size pair and stride",
  "One size pair is tested per format; position rounding errors appear at particular ratios and at large sizes only.",
  ["src/nearest_sampler.rs","src/image_store.rs","src/scaler.rs"],
  [("nearest position","src/nearest_sampler.rs"),("copied_to_mut","src/image_store.rs")],(),["public results"],HOOK),
P("C10","Every kernel has its documented shape and usable weights",
  "Each of the 49 resampling functions evaluates to the closed form of the kernel it is named after, within its support, is even, finite and has its limit value at removable singularities. Every window of weights is non-empty, lies inside the source, and its weights sum to one.",
  ["inputs","configurations"],"every kernel, every real argument, every pair of sizes and every output position",
  "No test evaluates the kernels; singular points (0, integers) and window clipping depend on the exact ratio.",
  ["src/math","src/sampler.rs","src/filter_weights.rs","src/scaler.rs"],
  [("kernel functions","src/math/*.rs"),("kernel table","src/sampler.rs get_resampling_filter"),("window construction","src/scaler.rs generate_weights")],(),["response to impulses and ramps"],HOOK),
P("C11","Alpha-aware resizing weights colours by alpha",
  "With premultiplication requested, colours are weighted by alpha before and divided by alpha after filtering, alpha itself is filtered like any channel, results whose alpha is zero are black (unless the source alpha is the same everywhere), and fully transparent source pixels never bleed into colours. Results stay within the bit depth.",
  ["inputs","configurations"],"every alpha and colour value, format, depth, size pair, kernel and instruction-set path",
  "Tests use opaque or constant alpha; rounding tables, saturation and the zero divisor need particular values at particular positions of the row.",
  ["src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs","src/alpha_handle_f16.rs","src/sse","src/avx2","src/avx512","src/scaler.rs"],
  [("premultiply / unpremultiply","src/alpha_handle_*.rs, src/*/alpha_*.rs")],(),["public results"],HOOK),
P("C12","Images of constant alpha skip the alpha round trip, all others take it",
  "When every pixel has the same alpha the alpha-aware resize equals the plain resize exactly, so no precision is lost; if any single pixel's alpha differs, wherever it lies, the alpha-aware treatment is applied.",
  ["inputs","configurations"],"every position of a deviating pixel in every width, height, stride and instruction-set path",
  "The detection scans rows in SIMD blocks; missing one position needs that particular width and position.",
  ["src/alpha_check.rs","src/sse/check_alpha.rs","src/avx2/check_alpha.rs","src/avx512/check_alpha.rs","src/scaler.rs"],
  [("has_non_constant_cap_alpha","src/alpha_check.rs, src/*/check_alpha.rs")],(),["public results with and without premultiplication"],HOOK),
P("C13","Packed 10-bit images resize like their unpacked channels",
  "Resizing a packed 10-bit image (AR30 or RA30, host or network byte order) gives, per channel, what resizing the unpacked 10-bit channels gives within one level, leaves the two alpha bits opaque or filtered as documented, and keeps channels and pixels in order. Packing and unpacking are inverse to each other.",
  ["inputs","configurations"],"every pixel value, byte order, size pair, stride, kernel and instruction-set path",
  "No stable test covers packed images at all.",
  ["src/ar30.rs","src/resize_ar30.rs","src/dispatch_group_ar30.rs","src/fixed_point_horizontal_ar30.rs","src/fixed_point_vertical_ar30.rs","src/sse/horizontal_ar30.rs","src/sse/vertical_ar30.rs","src/sse/utils.rs"],
  [("pack / unpack","src/ar30.rs, src/sse/utils.rs"),("row kernels","src/*ar30*.rs, src/sse/*ar30*.rs")],(),["public results"],HOOK),
P("C14","Image stores keep geometry, contents and depth through constructors and copies",
  "A store accepts exactly the buffers that hold its geometry, validates any stride that covers a row, and copying, cloning or viewing it keeps size, channel count, depth and pixels. Copies never write into the destination's padding.",
  ["inputs","histories"],"every geometry, stride, channel count and sequence of store operations",
  "No test uses strides or the copy operations.",
  ["src/image_store.rs"],[("constructors","src/image_store.rs"),("copied, copied_to_mut, to_vec","src/image_store.rs")],
  [("buffer, width, height, stride, bit_depth","the geometry a store declares","src/image_store.rs")],["public accessors"],HOOK),
P("C15","Colour-space scalers resize in the named space and come back",
  "Resizing through a colour-space scaler equals converting to the named space, resizing there, and converting back, within the rounding of the 8-bit result, for RGB and for RGBA with alpha carried through; equal sizes and constants come back unchanged within that rounding.",
  ["inputs","configurations"],"every scaler, transfer function, size pair, stride and content",
  "There is one fuzz target and no test for them.",
  ["src/colors","src/scaler.rs"],[("Scaling for <X>Scaler","src/colors/*.rs")],(),["public results"],None),
P("C16","All instruction-set paths give the same result",
  "The scalar, SSE, AVX2, AVX-VNNI and AVX-512 paths give results that differ by at most the rounding of the chosen strategy (no more than one or two levels per pass), for every request.",
  ["configurations","inputs"],"every pair of instruction-set paths and every request",
  "Tests run the best path of the machine only.",
  ["src/sse","src/avx2","src/avx512","src/fixed_point_horizontal.rs","src/fixed_point_vertical.rs","src/handler_provider.rs","src/dispatch_group_u8.rs"],
  [("path selection","src/dispatch_group_*.rs, src/handler_provider.rs, src/alpha_handle_*.rs")],(),["public results of builds with different features"],HOOK),
P("C17","Channels and distant pixels do not influence one another",
  "A channel of the result depends only on the same channel of the source (and, with premultiplication, on alpha), and a result pixel depends only on source pixels inside the kernel's window around its position.",
  ["inputs"],"every pair of sources that differ in one channel or in pixels outside the window, at every position",
  "Tests use one constant or one photograph, where an exchanged lane or a neighbour's tap goes unseen.",
  ["src/sse","src/avx2","src/avx512","src/fixed_point_horizontal.rs","src/floating_point_horizontal.rs","src/fixed_point_vertical.rs","src/floating_point_vertical.rs"],
  [("lane shuffles of the row kernels","src/sse, src/avx2, src/avx512")],(),["two runs on related sources"],HOOK),
P("C18","Configuration values map totally and stay in bounds",
  "Every integer converts to some resampling function, each function has one stable number, the defaults are the documented ones, every error has its own code, and the number of threads chosen by any policy for any size is at least one and at most what the policy allows.",
  ["inputs","configurations"],"every 32-bit number, policy and image size",
  "No test touches these conversions.",
  ["src/sampler.rs","src/threading_policy.rs","src/pic_scale_error.rs","src/scaler.rs"],
  [("From<u32> for ResamplingFunction","src/sampler.rs"),("thread_count","src/threading_policy.rs"),("code()","src/pic_scale_error.rs")],(),["public values"],HOOK),
]
with open("/verif/properties.jsonl","w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
