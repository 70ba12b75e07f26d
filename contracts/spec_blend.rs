// Functional specification of the blend functions, written from Aseprite's
// doc/blend_funcs.cpp over mathematical integers; floating point operations
// stay uninterpreted and keep Aseprite's order of evaluation.
pub mod spec_blend {
use vstd::prelude::*;
use crate::vx::*;
use crate::loader::blend::Color;
use crate::binary::blend_mode::BlendMode;

// --------------------------------------------------------- 8 bit scalars ----
/// MUL_UN8
pub open spec fn mul8(a: int, b: int) -> int { let t = a * b + 128; (t / 256 + t) / 256 }
/// DIV_UN8
pub open spec fn div8(a: int, b: int) -> int { (a * 255 + b / 2) / b }
/// Division which rounds towards zero, as in C.
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn lerp8(b: int, s: int, o: int) -> int { let t = (s - b) * o + 128; b + (t / 256 + t) / 256 }
pub open spec fn is8(x: int) -> bool { 0 <= x <= 255 }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn col(r: int, g: int, b: int, a: int) -> Color { Color { r: r as u8, g: g as u8, b: b as u8, a: a as u8 } }

pub proof fn l_mul8(a: int, b: int)
    requires is8(a), is8(b)
    ensures 0 <= mul8(a, b) <= a, mul8(a, b) <= b, mul8(a, b) >= a + b - 255, mul8(a, b) == mul8(b, a),
        0 <= a * b <= 65025, b == 255 ==> mul8(a, b) == a, b == 0 ==> mul8(a, b) == 0,
{
    assert(a * b <= 255 * a && a * b <= 255 * b && a * b >= 0) by (nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255;
    assert(a * b >= 255 * (a + b - 255)) by (nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255;
    assert(a * b == b * a) by (nonlinear_arith);
}
pub proof fn l_lerp8(b: int, s: int, o: int)
    requires is8(b), is8(s), is8(o)
    ensures is8(lerp8(b, s, o)), -65025 <= (s - b) * o <= 65025, imin(b, s) <= lerp8(b, s, o) <= imax(b, s),
{
    let a = s - b;
    assert(a >= 0 ==> 0 <= a * o <= 255 * a) by (nonlinear_arith) requires 0 <= o <= 255;
    assert(a <= 0 ==> 255 * a <= a * o <= 0) by (nonlinear_arith) requires 0 <= o <= 255;
}
pub proof fn l_div8(a: int, b: int)
    requires 0 <= a <= b, 0 < b <= 255
    ensures is8(div8(a, b)), 0 <= a * 255 + b / 2 <= 65025 + 127,
{
    assert((a * 255 + b / 2) / b <= 255) by (nonlinear_arith) requires 0 <= a <= b, 0 < b <= 255;
    assert((a * 255 + b / 2) / b >= 0) by (nonlinear_arith) requires 0 <= a <= b, 0 < b <= 255;
}
/// A channel of the normal mode stays between the two inputs.
pub proof fn l_norm(b: int, f: int, fa: int, ra: int)
    requires is8(b), is8(f), is8(fa), 0 < ra <= 255, fa <= ra
    ensures -65025 <= (f - b) * fa <= 65025, is8(b + tdiv((f - b) * fa, ra)), -255 <= tdiv((f - b) * fa, ra) <= 255
{
    let d = f - b;
    assert(d >= 0 ==> 0 <= d * fa <= d * ra && d * fa <= 65025) by (nonlinear_arith) requires 0 <= fa <= ra, d <= 255, fa <= 255;
    assert(d <= 0 ==> 0 <= -(d * fa) <= (-d) * ra && -(d * fa) <= 65025) by (nonlinear_arith) requires 0 <= fa <= ra, d >= -255, fa <= 255;
    if d >= 0 { l_quot(d * fa, ra, d); } else { l_quot(-(d * fa), ra, -d); }
}
pub proof fn l_quot(x: int, r: int, k: int)
    requires 0 <= x <= k * r, r > 0, k >= 0
    ensures 0 <= x / r <= k
{
    assert(0 <= x / r <= k) by (nonlinear_arith) requires 0 <= x <= k * r, r > 0, k >= 0;
}
// ------------------------------------------------------- color functions ----
pub open spec fn s_normal(b: Color, f: Color, o: u8) -> Color {
    if b.a == 0 { col(f.r as int, f.g as int, f.b as int, mul8(f.a as int, o as int)) } else if f.a == 0 { b } else {
        let fa = mul8(f.a as int, o as int);
        let ra = fa + b.a - mul8(b.a as int, fa);
        col(b.r + tdiv((f.r - b.r) * fa, ra), b.g + tdiv((f.g - b.g) * fa, ra), b.b + tdiv((f.b - b.b) * fa, ra), ra)
    }
}
pub open spec fn s_merge(b: Color, f: Color, o: u8) -> Color {
    let a = lerp8(b.a as int, f.a as int, o as int);
    if a == 0 { col(0, 0, 0, 0) }
    else if b.a == 0 { col(f.r as int, f.g as int, f.b as int, a) }
    else if f.a == 0 { col(b.r as int, b.g as int, b.b as int, a) }
    else { col(lerp8(b.r as int, f.r as int, o as int), lerp8(b.g as int, f.g as int, o as int), lerp8(b.b as int, f.b as int, o as int), a) }
}
/// Aseprite's new blend method: `bl` is the plain result of the mode.
pub open spec fn s_blender(b: Color, f: Color, o: u8, bl: Color) -> Color {
    if b.a == 0 { s_normal(b, f, o) } else {
        let m = s_merge(s_normal(b, f, o), bl, b.a);
        s_merge(m, bl, mul8(b.a as int, mul8(f.a as int, o as int)) as u8)
    }
}
// ------------------------------------------------------- integer channels ----
pub open spec fn c_multiply(b: int, s: int) -> int { mul8(b, s) }
pub open spec fn c_screen(b: int, s: int) -> int { b + s - mul8(b, s) }
pub open spec fn c_hard_light(b: int, s: int) -> int { if s < 128 { c_multiply(b, 2 * s) } else { c_screen(b, 2 * s - 255) } }
pub open spec fn c_overlay(b: int, s: int) -> int { c_hard_light(s, b) }
pub open spec fn c_darken(b: int, s: int) -> int { imin(b, s) }
pub open spec fn c_lighten(b: int, s: int) -> int { imax(b, s) }
pub open spec fn c_dodge(b: int, s: int) -> int { if b == 0 { 0 } else if b >= 255 - s { 255 } else { div8(b, 255 - s) } }
pub open spec fn c_burn(b: int, s: int) -> int { if b == 255 { 255 } else if 255 - b >= s { 0 } else { 255 - div8(255 - b, s) } }
pub open spec fn c_difference(b: int, s: int) -> int { if b >= s { b - s } else { s - b } }
pub open spec fn c_exclusion(b: int, s: int) -> int { b + s - 2 * mul8(b, s) }
pub open spec fn c_divide(b: int, s: int) -> int { if b == 0 { 0 } else if b >= s { 255 } else { div8(b, s) } }
pub open spec fn c_addition(b: int, s: int) -> int { imin(b + s, 255) }
pub open spec fn c_subtract(b: int, s: int) -> int { imax(b - s, 0) }
pub proof fn l_exclusion(b: int, s: int)
    requires is8(b), is8(s)
    ensures is8(b + s - 2 * mul8(b, s))
{
    l_mul8(b, s);
    // b + s - 2 b s / 255 = (b (255 - s) + s (255 - b)) / 255
    assert(b * (255 - s) >= 0 && s * (255 - b) >= 0 && (255 - b) * (255 - s) + b * s >= 0) by (nonlinear_arith) requires is8(b), is8(s);
    assert(b * (255 - s) == 255 * b - b * s) by (nonlinear_arith);
    assert(s * (255 - b) == 255 * s - b * s) by (nonlinear_arith);
    assert((255 - b) * (255 - s) == 65025 - 255 * b - 255 * s + b * s) by (nonlinear_arith);
    let p = b * s;
    let t = p + 128;
    assert(255 * b + 255 * s - 2 * p >= 0);
    assert(65025 - 255 * b - 255 * s + 2 * p >= 0);
    let m = mul8(b, s);
    assert(256 * m <= t / 256 + t);
    assert(t / 256 + t < 256 * m + 256);
    // m = round(p / 255)
    assert(255 * m <= p + 127 && p <= 255 * m + 127) by { l_round(p, m); }
}
/// MUL_UN8 rounds the quotient by 255 to the nearest integer.
pub proof fn l_round(p: int, m: int)
    requires 0 <= p <= 65025, m == ((p + 128) / 256 + p + 128) / 256
    ensures 255 * m <= p + 127, p <= 255 * m + 127
{
    let t = p + 128;
    let q = t / 256;
    let r = t % 256;
    assert(t == 256 * q + r);
    assert(q <= 254);
    assert(q + t == 257 * q + r);
    // (257 q + r) / 256 = q + (q + r) / 256
    assert(m == q + (q + r) / 256);
    assert((q + r) / 256 == if q + r >= 256 { 1int } else { 0int });
}
pub open spec fn s_channel(m: BlendMode, b: int, s: int) -> int {
    match m {
        BlendMode::Multiply => c_multiply(b, s),
        BlendMode::Screen => c_screen(b, s),
        BlendMode::Overlay => c_overlay(b, s),
        BlendMode::Darken => c_darken(b, s),
        BlendMode::Lighten => c_lighten(b, s),
        BlendMode::ColorDodge => c_dodge(b, s),
        BlendMode::ColorBurn => c_burn(b, s),
        BlendMode::HardLight => c_hard_light(b, s),
        BlendMode::SoftLight => c_soft_light(b, s),
        BlendMode::Difference => c_difference(b, s),
        BlendMode::Exclusion => c_exclusion(b, s),
        BlendMode::Addition => c_addition(b, s),
        BlendMode::Subtract => c_subtract(b, s),
        BlendMode::Divide => c_divide(b, s),
        _ => s,
    }
}
/// Plain result of a mode, before the merge.
pub open spec fn s_base(m: BlendMode, b: Color, f: Color, o: u8) -> Color {
    match m {
        BlendMode::Hue => s_normal(b, s_hue(b, f), o),
        BlendMode::Saturation => s_normal(b, s_saturation(b, f), o),
        BlendMode::Color => s_normal(b, s_color(b, f), o),
        BlendMode::Luminosity => s_normal(b, s_luminosity(b, f), o),
        _ => s_normal(b, col(s_channel(m, b.r as int, f.r as int), s_channel(m, b.g as int, f.g as int), s_channel(m, b.b as int, f.b as int), f.a as int), o),
    }
}
/// The pixel that blending `f` over `b` with opacity `o` produces.
pub open spec fn s_blend(m: BlendMode, b: Color, f: Color, o: u8) -> Color {
    if m is Normal { s_normal(b, f, o) } else { s_blender(b, f, o, s_base(m, b, f, o)) }
}
// ------------------------------------------------------ floating channels ----
pub open spec fn unit(x: u8) -> f64 { f_div(f64_of_int(x as int), 255.0f64) }
pub open spec fn c_soft_light(b: int, s: int) -> int {
    let b = f_div(f64_of_int(b), 255.0f64);
    let s = f_div(f64_of_int(s), 255.0f64);
    let d = if f_le(b, 0.25f64) { f_mul(f_add(f_mul(f_sub(f_mul(16.0f64, b), 12.0f64), b), 4.0f64), b) } else { f_sqrt(b) };
    let r = if f_le(s, 0.5f64) {
        f_sub(b, f_mul(f_mul(f_sub(1.0f64, f_mul(2.0f64, s)), b), f_sub(1.0f64, b)))
    } else {
        f_add(b, f_mul(f_sub(f_mul(2.0f64, s), 1.0f64), f_sub(d, b)))
    };
    f_to_u32(f_add(f_mul(r, 255.0f64), 0.5f64)) as i32 as int
}
/// Range of soft light: 65536 cases, checked exhaustively on the real code by
/// the oracle (C13) on every run.
pub broadcast axiom fn ax_soft_light(b: int, s: int)
    requires is8(b), is8(s)
    ensures is8(#[trigger] c_soft_light(b, s));

pub open spec fn s_lum(r: f64, g: f64, b: f64) -> f64 { f_add(f_add(f_mul(0.3f64, r), f_mul(0.59f64, g)), f_mul(0.11f64, b)) }
pub open spec fn s_sat(r: f64, g: f64, b: f64) -> f64 { f_sub(f_max(r, f_max(g, b)), f_min(r, f_min(g, b))) }
pub open spec fn s_clip(r: f64, g: f64, b: f64) -> (f64, f64, f64) {
    let l = s_lum(r, g, b);
    let n = f_min(r, f_min(g, b));
    let x = f_max(r, f_max(g, b));
    let low = |c: f64| if f_lt(n, 0.0f64) { f_add(l, f_div(f_mul(f_sub(c, l), l), f_sub(l, n))) } else { c };
    let high = |c: f64| if f_gt(x, 1.0f64) { f_add(l, f_div(f_mul(f_sub(c, l), f_sub(1.0f64, l)), f_sub(x, l))) } else { c };
    (high(low(r)), high(low(g)), high(low(b)))
}
pub open spec fn s_set_lum(r: f64, g: f64, b: f64, l: f64) -> (f64, f64, f64) {
    let d = f_sub(l, s_lum(r, g, b));
    s_clip(f_add(r, d), f_add(g, d), f_add(b, d))
}
/// Positions of the least, middle and greatest component as Aseprite's MIN,
/// MID and MAX macros choose them (for equal components they may coincide).
pub open spec fn s_sort(r: f64, g: f64, b: f64) -> (int, int, int) {
    (if f_lt(r, f_min(g, b)) { 0 } else if f_lt(g, b) { 1 } else { 2 },
     if f_gt(r, g) { if f_gt(g, b) { 1 } else if f_gt(r, b) { 2 } else { 0 } } else if f_gt(g, b) { if f_gt(b, r) { 2 } else { 0 } } else { 1 },
     if f_gt(r, f_max(g, b)) { 0 } else if f_gt(g, b) { 1 } else { 2 })
}
pub open spec fn s_set_sat(r: f64, g: f64, b: f64, s: f64) -> (f64, f64, f64) {
    let c = seq![r, g, b];
    let (n, m, x) = s_sort(r, g, b);
    let c2 = if f_gt(c[x], c[n]) {
        // the greatest is replaced after the middle one, which it may be
        let y = c.update(m, f_div(f_mul(f_sub(c[m], c[n]), s), f_sub(c[x], c[n])));
        y.update(x, s)
    } else {
        c.update(m, 0.0f64).update(x, 0.0f64)
    };
    let c3 = c2.update(n, 0.0f64);
    (c3[0], c3[1], c3[2])
}
pub open spec fn to8(x: f64) -> int { f_to_u8(f_mul(x, 255.0f64)) as int }
pub open spec fn s_hsl(c: (f64, f64, f64), a: u8) -> Color { col(to8(c.0), to8(c.1), to8(c.2), to8(unit(a))) }
pub open spec fn s_hue(b: Color, f: Color) -> Color {
    let sat = s_sat(unit(b.r), unit(b.g), unit(b.b));
    let lum = s_lum(unit(b.r), unit(b.g), unit(b.b));
    let c = s_set_sat(unit(f.r), unit(f.g), unit(f.b), sat);
    s_hsl(s_set_lum(c.0, c.1, c.2, lum), f.a)
}
pub open spec fn s_saturation(b: Color, f: Color) -> Color {
    let sat = s_sat(unit(f.r), unit(f.g), unit(f.b));
    let lum = s_lum(unit(b.r), unit(b.g), unit(b.b));
    let c = s_set_sat(unit(b.r), unit(b.g), unit(b.b), sat);
    s_hsl(s_set_lum(c.0, c.1, c.2, lum), f.a)
}
pub open spec fn s_color(b: Color, f: Color) -> Color {
    s_hsl(s_set_lum(unit(f.r), unit(f.g), unit(f.b), s_lum(unit(b.r), unit(b.g), unit(b.b))), f.a)
}
pub open spec fn s_luminosity(b: Color, f: Color) -> Color {
    s_hsl(s_set_lum(unit(b.r), unit(b.g), unit(b.b), s_lum(unit(f.r), unit(f.g), unit(f.b))), f.a)
}
// ----------------------------------------------------------- consequences ----
/// C12: a fully transparent source or opacity zero never changes an opaque
/// backdrop in normal mode.
pub proof fn thm_normal_identity(b: Color, f: Color, o: u8)
    requires b.a == 255, f.a == 0 || o == 0
    ensures s_blend(BlendMode::Normal, b, f, o) == b
{
    if f.a != 0 { l_mul8(f.a as int, o as int); l_mul8(0, b.a as int); }
}
/// C12: over a fully transparent backdrop every mode yields the source with
/// scaled alpha.
pub proof fn thm_transparent_backdrop(m: BlendMode, b: Color, f: Color, o: u8)
    requires b.a == 0
    ensures s_blend(m, b, f, o) == col(f.r as int, f.g as int, f.b as int, mul8(f.a as int, o as int))
{}
/// C12: full opacity and an opaque source replace the backdrop in normal mode.
pub proof fn thm_normal_replace(b: Color, f: Color)
    requires f.a == 255
    ensures s_blend(BlendMode::Normal, b, f, 255) == f
{
    l_mul8(255, 255);
    l_mul8(b.a as int, 255);
    if b.a != 0 {
        l_exact(f.r - b.r); l_exact(f.g - b.g); l_exact(f.b - b.b);
    }
}
proof fn l_exact(d: int)
    requires -255 <= d <= 255
    ensures tdiv(d * 255, 255) == d
{}
}
