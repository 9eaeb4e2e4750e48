"""Which functions of the crate carry a row-kernel contract, and which contract."""
import re
from fam import U8, F32, F16, HRS, U16L, U16F, AR, ARS
import copies, ev, glue, opacity, passes, resize, rows as pixel_rows, spec

H, HR, HH, V, VR, VH = spec.Horizontal, spec.HReal, spec.HHrs, spec.Vertical, spec.VReal, spec.VHrs
# name pattern, contract, family, channels (0: the const parameter of the instance), rows, properties
TABLE = [
    # 8-bit, 16384-scaled weights, 32-bit accumulators
    (r'handler_provider::handle_fixed_row_u8<Kj\d_>', H, U8, 0, 1, 'C01'),
    (r'handler_provider::handle_fixed_rows_4_u8<Kj\d_>', H, U8, 0, 4, 'C01'),
    (r'sse::plane_u8::convolve_horizontal_plane_sse_row_impl', H, U8, 1, 1, 'C01'),
    (r'sse::plane_u8::convolve_horizontal_plane_sse_rows_4_u8_impl', H, U8, 1, 4, 'C01'),
    (r'sse::rgb_u8::convolve_horizontal_rgb_sse_row_one_impl', H, U8, 3, 1, 'C01'),
    (r'sse::rgb_u8::convolve_horizontal_rgb_sse_rows_4_impl', H, U8, 3, 4, 'C01'),
    (r'sse::rgba_u8::convolve_horizontal_rgba_sse_rows_one_impl', H, U8, 4, 1, 'C01'),
    (r'sse::rgba_u8::convolve_horizontal_rgba_sse_rows_4_impl', H, U8, 4, 4, 'C01'),
    (r'avx2::rgb_u8::convolve_horizontal_rgb_avx_row_one_(reg|vnni)', H, U8, 3, 1, 'C01'),
    (r'avx2::rgb_u8::convolve_horizontal_rgb_avx_rows_4_(reg|vnni)', H, U8, 3, 4, 'C01'),
    (r'avx512::rgba_u8_dot::convolve_horizontal_rgba_vnni_rows_one_impl', H, U8, 4, 1, 'C01'),
    (r'avx512::rgba_u8_dot::convolve_horizontal_rgba_vnni_row_4_impl', H, U8, 4, 4, 'C01'),
    (r'handler_provider::handle_fixed_column_u8', V, U8, 1, 1, 'C01'),
    (r'sse::vertical_u8::convolve_vertical_sse_row_impl', V, U8, 1, 1, 'C01'),
    (r'avx2::vertical_u8::convolve_vertical_avx_row_(reg|dot)', V, U8, 1, 1, 'C01'),
    # 8-bit, 64-scaled weights, 16-bit accumulators
    (r'sse::plane_u8_hrs::convolve_horizontal_plane_sse_row_hrs_impl', HH, HRS, 1, 1, 'C01'),
    (r'sse::plane_u8_hrs::convolve_horizontal_plane_sse_rows_hrs_4_u8_impl', HH, HRS, 1, 4, 'C01'),
    (r'sse::cbcr8_hrs::convolve_horizontal_cbcr_sse_hrs_row_one_impl', HH, HRS, 2, 1, 'C01'),
    (r'sse::cbcr8_hrs::convolve_horizontal_cbcr_sse_hrs_rows_4_impl', HH, HRS, 2, 4, 'C01'),
    (r'(sse|avx2)::rgba_u8_lb::convolve_horizontal_rgba_\w+_rows_one_impl', HH, HRS, 4, 1, 'C01'),
    (r'(sse|avx2)::rgba_u8_lb::convolve_horizontal_rgba_\w+_rows_4_impl', HH, HRS, 4, 4, 'C01'),
    (r'sse::vertical_u8_lp::convolve_vertical_sse_row_impl', VH, HRS, 1, 1, 'C01'),
    (r'avx2::vertical_u8_lp::convolve_vertical_avx2_row_impl', VH, HRS, 1, 1, 'C01'),
    (r'avx512::vertical_u8_lp::convolve_vertical_avx512_row_masked_impl', VH, HRS, 1, 1, 'C01'),
    # 16-bit up to 12 bits deep, fixed point
    (r'handler_provider<tINtB\w+_20RowHandlerFixedPointtE16handle_fixed_rowlKj\d_>', H, U16L, 0, 1, 'C02'),
    (r'handler_provider<tINtB\w+_20RowHandlerFixedPointtE18handle_fixed_row_4lKj\d_>', H, U16L, 0, 4, 'C02'),
    (r'sse::rgba_u16_lb::convolve_horizontal_rgba_sse_u16_lb_row_impl', H, U16L, 4, 1, 'C02'),
    (r'sse::rgba_u16_lb::convolve_horizontal_rgba_sse_rows_4_lb_u8_impl', H, U16L, 4, 4, 'C02'),
    (r'avx2::rgba_u16_lb::convolve_horizontal_rgba_avx_u16_row_(avx|vn)', H, U16L, 4, 1, 'C02'),
    (r'avx2::rgba_u16_lb::convolve_horizontal_rgba_avx_rows_4_lb_(a|vn)', H, U16L, 4, 4, 'C02'),
    (r'fixed_point_vertical::column_handler_fixed_point<tl>', V, U16L, 1, 1, 'C02'),
    (r'sse::vertical_u16_lb::convolve_column_lb_u16_impl', V, U16L, 1, 1, 'C02'),
    (r'avx2::vertical_u16_lb::convolve_column_lb_avx_u16_(dot|reg)', V, U16L, 1, 1, 'C02'),
    (r'avx512::vertical_u16_lb::convolve_column_lb_avx512_(dot|reg)', V, U16L, 1, 1, 'C02'),
    # 16-bit, float accumulators
    (r'handler_provider<tINtB\w+_23RowHandlerFloatingPointtffE10handle_rowKj\d_>', HR, U16F, 0, 1, 'C02'),
    (r'handler_provider<tINtB\w+_23RowHandlerFloatingPointtffE12handle_row_4Kj\d_>', HR, U16F, 0, 4, 'C02'),
    (r'handler_provider<tINtB\w+_26ColumnHandlerFloatingPointtffE22handle_floating_column>', VR, U16F, 1, 1, 'C02'),
    (r'sse::rgba_u16::convolve_horizontal_rgba_sse_u16_row_(def|fma)', HR, U16F, 4, 1, 'C02'),
    (r'sse::rgba_u16::convolve_horizontal_rgba_sse_rows_4_u16_(def|fma)', HR, U16F, 4, 4, 'C02'),
    (r'sse::vertical_u16::convolve_column_lb_u16_(def|fma)', VR, U16F, 1, 1, 'C02'),
    # float
    (r'convolve_naive_f32::convolve_horizontal_rgb_native_row<Kj\d_>', HR, F32, 0, 1, 'C03'),
    (r'convolve_naive_f32::convolve_horizontal_rgba_4_row_f32<Kj\d_>', HR, F32, 0, 4, 'C03'),
    (r'sse::plane_f32::convolve_horizontal_plane_sse_row_one_(fma|regular)', HR, F32, 1, 1, 'C03'),
    (r'sse::plane_f32::convolve_horizontal_plane_sse_rows_4_(fma|regular)', HR, F32, 1, 4, 'C03'),
    (r'sse::rgb_f32::convolve_horizontal_rgb_sse_row_one_f32_(fma|regular)', HR, F32, 3, 1, 'C03'),
    (r'sse::rgb_f32::convolve_horizontal_rgb_sse_rows_4_f32_(fma|regular)', HR, F32, 3, 4, 'C03'),
    (r'sse::rgba_f32::convolve_horizontal_rgba_sse_row_one_f32_regular', HR, F32, 4, 1, 'C03'),
    (r'sse::rgba_f32::convolve_horizontal_rgba_sse_rows_4_f32_regular', HR, F32, 4, 4, 'C03'),
    (r'avx2::rgba_f32::convolve_horizontal_rgba_avx_row_one_f32_(fma|regular)', HR, F32, 4, 1, 'C03'),
    (r'avx2::rgba_f32::convolve_horizontal_rgba_avx_rows_4_f32_(fma|regular)', HR, F32, 4, 4, 'C03'),
    (r'rgb_f32::convolve_vertical_rgb_native_row_f32<Kj1_>', VR, F32, 1, 1, 'C03'),
    (r'sse::vertical_f32::convolve_vertical_rgb_sse_row_f32_regular', VR, F32, 1, 1, 'C03'),
    (r'avx2::vertical_f32::convolve_vertical_avx_row_f32_(fma|regular)', VR, F32, 1, 1, 'C03'),
    # half float
    (r'f16::convolve_horizontal_rgb_native_row_f16<Kj\d_>', HR, F16, 0, 1, 'C03'),
    (r'f16::convolve_horizontal_rgba_4_row_f16<Kj\d_>', HR, F16, 0, 4, 'C03'),
    (r'f16::convolve_vertical_rgb_native_row_f16', VR, F16, 1, 1, 'C03'),
    (r'sse::rgb_f16::convolve_horizontal_rgb_sse_row_one_f16(c|c_fma|_regular)', HR, F16, 3, 1, 'C03'),
    (r'sse::rgb_f16::convolve_horizontal_rgb_sse_rows_4_f16(c|c_fma|_regular)', HR, F16, 3, 4, 'C03'),
    (r'sse::rgba_f16::convolve_horizontal_rgba_sse_row_one_f16(c|_regular)', HR, F16, 4, 1, 'C03'),
    (r'sse::rgba_f16::convolve_horizontal_rgba_sse_rows_4_f16(c|_regular)', HR, F16, 4, 4, 'C03'),
    (r'avx2::rgba_f16::convolve_horizontal_rgba_avx_row_one_f16_(fma|regular)', HR, F16, 4, 1, 'C03'),
    (r'avx2::rgba_f16::convolve_horizontal_rgba_avx_rows_4_f16_(fma|regular)', HR, F16, 4, 4, 'C03'),
    (r'sse::vertical_f16::convolve_vertical_sse_row_f16(c|_regular)', VR, F16, 1, 1, 'C03'),
    (r'avx2::vertical_f16::convolve_vertical_avx_row_f16_(fma|regular)', VR, F16, 1, 1, 'C03'),
    # packed 10-bit
    (r'fixed_point_horizontal_ar30::convolve_row_handler_fixed_point_ar30<Kj\d_K\w+>', spec.HPacked, AR, 4, 1, 'C13'),
    (r'fixed_point_horizontal_ar30::convolve_row_handler_fixed_point_4_ar30<Kj\d_K\w+>', spec.HPacked, AR, 4, 4, 'C13'),
    (r'sse::horizontal_ar30::sse_convolve_horizontal_rgba_row_impl<Kj\d_K\w+>', spec.HPacked, ARS, 4, 1, 'C13'),
    (r'sse::horizontal_ar30::sse_convolve_horizontal_rgba_rows_4_impl<Kj\d_K\w+>', spec.HPacked, ARS, 4, 4, 'C13'),
    (r'fixed_point_vertical_ar30::column_handler_fixed_point_ar30<Kj\d_K\w+>', spec.VPacked, AR, 4, 1, 'C13'),
    (r'sse::vertical_ar30::sse_column_handler_fixed_point_ar30_impl<Kj\d_K\w+>', spec.VPacked, ARS, 4, 1, 'C13'),
]
# how far from the exact value, by bit depth: exact quotients are rounded to nearest
TOL = {'premultiply': lambda depth: 0.52, 'unpremultiply': lambda depth: 0.52}
# rows weighted or unweighted by alpha: name pattern, sample bytes, what is done
ALPHA = [
    (r'(sse|avx2|avx512)::alpha_u8<.*_?AssociateAlphaDefaultNt.*9associate>', 1, 'premultiply'),
    (r'sse::alpha_u8<.*PremultiplyExecutor8DefaultNt.*11premultiply>', 1, 'premultiply'),
    (r'(sse|avx2|avx512)::alpha_u8<.*DisassociateAlpha.*(12disassociate|16disassociate_fma)>', 1, 'unpremultiply'),
    (r'sse::alpha_u16<.*PremultiplyExecutorAny.*11premultiply>', 2, 'premultiply'),
    (r'avx2::alpha_u16<.*PremultiplyExecutorAnyBit.*(11premultiply|15premultiply_fma)>', 2, 'premultiply'),
    (r'sse::alpha_u16<.*DisassociateAlpha.*12disassociate>', 2, 'unpremultiply'),
    (r'sse::alpha_u16::premultiply_alpha_sse_rgba_u16_row_impl', 2, 'premultiply'),
    (r'avx2::alpha_u16::avx_premultiply_alpha_rgba_u16_row', 2, 'premultiply'),
    (r'avx2::alpha_u16::avx_unpremultiply_alpha_rgba_u16_row_(avx|fma)', 2, 'unpremultiply'),
]


# the function that makes the weights and windows every row kernel is given
WEIGHTS = '16generate_weightsf'
# and the one that makes fixed point weights of them
CONVERT = re.compile(r'23numerical_approximationsKl([0-9a-f]+)_')


# the functions that take an image row by row to the kernels (one thread)
PASS = re.compile(r'(\w+)<INtNt\w*?10ImageStore([htf]|C3f16)Kj(\d)_E\w*?(?:Horizontal|Vertical)ConvolutionPass\w*_E\d\d(convolve_(?:horizontal|vertical))>')
PASS_F32 = 'dispatch_group_f32::convolve_horizontal_dispatch_f32<Kj1_>'
PASS_AR = re.compile(r'dispatch_group_ar30::convolve_(horizontal|vertical)_dispatch_ar30<[^_]*_[^_]*_>')
SAMPLES = {'h': ('u8', 1, 'C01'), 't': ('u16', 2, 'C02'), 'f': ('f32', 4, 'C03'), 'C3f16': ('f16', 2, 'C03')}


def a_pass(short):
    """-> configuration, properties"""
    m = PASS.fullmatch(short)
    if m:
        fm, e, prop = SAMPLES[m.group(2)]
        return dict(es=e, ed=e, ch=int(m.group(3)), horizontal=m.group(4).endswith('horizontal'), fm=f'{fm}:{m.group(3)}', rows=1, ew=0), prop
    if short == PASS_F32:
        return dict(es=4, ed=4, ch=1, horizontal=True, fm='f32:1', rows=1, ew=0), 'C03'
    m = PASS_AR.fullmatch(short)
    if m:
        return dict(packing(short), es=1, ed=1, ch=4, horizontal=m.group(1) == 'horizontal', slices=True, fm='ar30,ra30', rows=1, ew=0), 'C13'
    return None


# the functions that call the passes
SCALER = re.compile(r'scaler<NtB\w*_6Scaler\d\d(generic_resize|generic_resize_with_alpha|forward_resize_with_alpha|forward_resize_vertical_with_alpha|forward_resize_horizontal_with_alpha)([htf]|C3f16)Kj(\d)_>')
SCALERS = {'generic_resize': 'plain', 'generic_resize_with_alpha': 'alpha', 'forward_resize_with_alpha': 'both',
           'forward_resize_vertical_with_alpha': 'vertical', 'forward_resize_horizontal_with_alpha': 'horizontal'}


def scaler(short):
    m = SCALER.fullmatch(short)
    if not m:
        return None
    fm, e, prop = SAMPLES[m.group(2)]
    return dict(es=e, ed=e, ch=int(m.group(3)), scaler=SCALERS[m.group(1)], deep=fm == 'u16', fm=f'{fm}:{m.group(3)}', rows=1, ew=0), 'scaler'


# kernels that passes call and that have no contract
PLAIN = ()


SCAN = re.compile(r'(?:.*::)?(?:sse|avx2|avx512)::check_alpha::\w+_has_non_constant_cap_alpha_rgba(8|16)_impl')
OPAQUE = re.compile(r'(?:.*::)?image_store<INtB\w+_10ImageStore([htf])Kj4_EINtB\w+_14AssociateAlpha\1KB\w+_E33is_alpha_premultiplication_needed>')


COPY = re.compile(r'(?:.*::)?image_store<INtB\w+_10ImageStore(h|t|f|C3f16)Kj(\d)_E13copied_to_mut>')
LETTER = dict(h=1, t=2, f=4, C3f16=2)


def opaque(short):
    m = SCAN.fullmatch(short) or OPAQUE.fullmatch(short)
    if not m:
        return None
    e = {'8': 1, '16': 2, 'h': 1, 't': 2, 'f': 4}[m[1]]
    return dict(es=e, ed=e, ew=e, ch=4, rows=1, store=m[1] in 'htf')


def plain(short):
    return any(re.fullmatch(x, short) for x in PLAIN)


def packing(short):
    """the type and byte order an instance is for (a repeated constant is a back-reference in its name)"""
    m = re.search(r'<Kj(\d)_K(?:j(\d)_|B)', short)
    if not m:
        return {}
    t = int(m.group(1))
    return dict(type=t, order=int(m.group(2)) if m.group(2) else t)


def find(short):
    for pat, cls, cfg, ch, rows, prop in TABLE:
        if re.fullmatch(r'(.*::)?' + pat, short) or re.fullmatch(pat, short):
            if not ch:
                ch = int(re.search(r'Kj(\d)_', short).group(1))
            return cls, dict(cfg, ch=ch, rows=rows, **(packing(short) if issubclass(cls, spec.Packed) else {})), prop
    p = a_pass(short)
    if p:
        return passes.Cases, p[0], p[1]
    p = COPY.fullmatch(short)
    if p:
        e = LETTER[p[1]]
        return copies.Copied, dict(es=e, ed=e, ew=e, ch=int(p[2]), rows=1, copy=True, fm={'h': 'u8', 't': 'u16', 'f': 'f32', 'C3f16': 'f16'}[p[1]] + f':{p[2]}'), 'copy'
    p = opaque(short)
    if p:
        return opacity.Opacity, p, 'C12'
    p = scaler(short)
    if p:
        return resize.Resize, p[0], p[1]
    if WEIGHTS in short:
        return glue.Weights, dict(es=8, ed=8, ew=4, ch=1, rows=1), 'windows'
    p = CONVERT.search(short)
    if p:
        return glue.Convert, dict(es=8, ed=8, ew=4, ch=1, rows=1, precision=int(p.group(1), 16)), 'windows'
    r = alpha(short)
    if r is not None:
        return pixel_rows.AlphaRows, dict(es=r[0], ed=r[0], ew=r[0], ch=4, rows=1, inplace=r[1] == 'unpremultiply', kind=r[1], tol=TOL[r[1]]), 'C11'
    return None


def alpha(short):
    for pat, es, kind in ALPHA:
        if re.fullmatch(pat, short):
            return es, kind
    return None


def forward(short):
    r = alpha(short)
    if r is not None:
        pixel_rows.CALLEES[short] = r[1]
    return r is not None


ev.FORWARD = forward


# too large for the prover so far: attempted at the thorough tier only
SLOW = ('handle_fixed_column_u8', 'column_handler_fixed_point<tl>',
        'fixed_point_vertical_ar30::column_handler_fixed_point_ar30')


def slow(short):
    return any(x in short for x in SLOW)


def shown(short):
    """the name in reports: independent of how the mangling refers back to a repeated constant or path"""
    if WEIGHTS in short:
        return 'scaler::Scaler::generate_weights<f32>'
    p = CONVERT.search(short)
    if p:
        return f'filter_weights::FilterWeights::numerical_approximation<i16,{int(p.group(1), 16)}>'
    p = COPY.fullmatch(short)
    if p:
        return f"image_store::ImageStore<{dict(h='u8', t='u16', f='f32', C3f16='f16')[p.group(1)]},{p.group(2)}>::copied_to_mut"
    p = OPAQUE.fullmatch(short)
    if p:
        return f"image_store::ImageStore<{dict(h='u8', t='u16', f='f32')[p.group(1)]},4>::is_alpha_premultiplication_needed"
    p = SCALER.fullmatch(short)
    if p:
        return f'scaler::Scaler::{p.group(1)}<{SAMPLES[p.group(2)][0]},{p.group(3)}>'
    p = PASS.fullmatch(short)
    if p:
        return f'{p.group(1)}::ImageStore<{SAMPLES[p.group(2)][0]},{p.group(3)}>::{p.group(4)}'
    p = re.fullmatch(r'handler_provider<tINtB\w+_\d\d((?:Row|Column)Handler\w+?Point)t.*?E\d\d(handle_\w+?)(?:l?Kj(\d)_)?>', short)
    if p:
        return f"handler_provider::{p.group(1)}<u16>::{p.group(2)}{f'<{p.group(3)}>' if p.group(3) else ''}"
    p = packing(short)
    if p:
        return re.sub(r'<Kj\d_K(j\d_|B\w+?_)>', f"<{p['type']},{p['order']}>", short)
    if alpha(short) and '<' in short:
        ids, c = identifiers(short[short.index('<'):]), re.search(r'Kb([01])_', short)
        return f"{short[:short.index('<')]}::{ids[0]}{f'<{c.group(1)}>' if c else ''}::{ids[-1]}"
    return short


def identifiers(m):
    """the names in a piece of a mangled name"""
    out, i = [], 0
    while i < len(m):
        k = re.match(r'(?:B\w*?_|s\w*?_|I?Nt[A-Z]\w*?_)', m[i:]) if m[i] in 'BsIN' else None
        d = re.match(r'\d+', m[i:])
        if k:
            i += k.end()
        elif d:
            n = int(d.group())
            i += d.end() + (m[i + d.end():i + d.end() + 1] == '_')
            out.append(m[i:i + n])
            i += n
        else:
            i += 1
    return out
