// Specification of layer selection and rendering on a loaded sprite.
pub mod spec_loader {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::vx::*;
use crate::spec_image::*;
use crate::spec_blend::*;
use crate::binary::blend_mode::BlendMode;
use crate::binary::chunks::layer::LayerType;
use crate::loader::{AsepriteFileV, LayerV, FrameV, FrameCel, LayerSelectionV};
use crate::loader::blend::Color;

/// What every loaded sprite guarantees: cels refer to existing layers and
/// images and have the size of their image.
pub open spec fn cel_wf(s: AsepriteFileV, c: FrameCel) -> bool {
    c.layer_index < s.layers.len() && c.image_index < s.images.len() && c.size == (s.images[c.image_index as int].width, s.images[c.image_index as int].height)
}
pub open spec fn sprite_wf(s: AsepriteFileV) -> bool {
    forall |i: int, j: int| 0 <= i < s.frames.len() && 0 <= j < s.frames[i].cels.len() ==> cel_wf(s, #[trigger] s.frames[i].cels[j])
}
// ------------------------------------------------------ layer selection ----
pub open spec fn selected(sel: LayerSelectionV, i: int, layer: LayerV) -> bool {
    match sel { LayerSelectionV::Visible => layer.visible, LayerSelectionV::All => true, LayerSelectionV::Mask(m) => i < m.len() && m[i] }
}
// ------------------------------------------------------------ rendering ----
/// Color at pixel `p` of an RGBA buffer.
pub open spec fn px(t: Seq<u8>, p: int) -> Color { Color { r: t[4 * p], g: t[4 * p + 1], b: t[4 * p + 2], a: t[4 * p + 3] } }
pub open spec fn byte_of(c: Color, j: int) -> u8 { if j == 0 { c.r } else if j == 1 { c.g } else if j == 2 { c.b } else { c.a } }
/// Does the cel cover pixel `p` of a canvas of width `w`?
pub open spec fn covers(c: FrameCel, w: int, p: int) -> bool { 0 <= p % w - c.origin.0 < c.size.0 && 0 <= p / w - c.origin.1 < c.size.1 }
/// Pixel of the cel image at pixel `p` of the canvas.
pub open spec fn cel_pos(c: FrameCel, w: int, p: int) -> int { (p / w - c.origin.1) * c.size.0 + (p % w - c.origin.0) }
pub open spec fn cel_px(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, t: Seq<u8>, p: int) -> Color {
    if covers(c, w, p) { s_blend(mode, px(t, p), px(pix, cel_pos(c, w, p)), opacity) } else { px(t, p) }
}
/// One cel drawn on a canvas of `w` by `h` pixels.
pub open spec fn s_cel(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t: Seq<u8>) -> Seq<u8> {
    Seq::new(t.len(), |k: int| if k < 4 * (w * h) { byte_of(cel_px(c, pix, mode, opacity, w, t, k / 4), k % 4) } else { t[k] })
}
/// One cel of a frame; None if it cannot be rendered.
pub open spec fn s_one(s: AsepriteFileV, sel: LayerSelectionV, c: FrameCel, t: Seq<u8>) -> Option<Seq<u8>> {
    let layer = s.layers[c.layer_index as int];
    if layer.layer_type is Group || !selected(sel, c.layer_index as int, layer) { Some(t) } else {
        match image_rgba(s.file.header.color_depth, s.images[c.image_index as int], s.file.palette) {
            None => None,
            Some(pix) => if layer.blend_mode is Unknown { None } else {
                Some(s_cel(c, pix, layer.blend_mode, layer.opacity, s.file.header.width as int, s.file.header.height as int, t))
            },
        }
    }
}
/// The first `n` cels of a frame in order.
pub open spec fn s_cels(s: AsepriteFileV, sel: LayerSelectionV, cels: Seq<FrameCel>, n: int, t: Seq<u8>) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(t) } else { match s_cels(s, sel, cels, n - 1, t) { None => None, Some(t1) => s_one(s, sel, cels[n - 1], t1) } }
}
pub proof fn l_cels_none(s: AsepriteFileV, sel: LayerSelectionV, cels: Seq<FrameCel>, k: int, n: int, t: Seq<u8>)
    requires 0 <= k <= n, s_cels(s, sel, cels, k, t) is None
    ensures s_cels(s, sel, cels, n, t) is None
    decreases n - k
{ if k < n { l_cels_none(s, sel, cels, k + 1, n, t); } }
pub open spec fn canvas(s: AsepriteFileV) -> int { 4 * area(s.file.header.width, s.file.header.height) }
pub open spec fn s_render(s: AsepriteFileV, frame: int, sel: LayerSelectionV, t: Seq<u8>) -> Option<Seq<u8>> {
    if t.len() < canvas(s) { None } else { s_cels(s, sel, s.frames[frame].cels, s.frames[frame].cels.len() as int, t) }
}
/// Pixels of the canvas and their coordinates.
pub proof fn l_pos(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h
    ensures (y * w + x) / w == y, (y * w + x) % w == x, 0 <= y * w + x < w * h
{
    lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
    assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= w, 0 <= y;
}
pub proof fn l_coord(p: int, w: int, h: int)
    requires 0 <= p < w * h, 0 < w
    ensures 0 <= p % w < w, 0 <= p / w < h, p == (p / w) * w + p % w
{
    lemma_fundamental_div_mod(p, w);
    assert(w * (p / w) == (p / w) * w) by (nonlinear_arith);
    assert(p / w < h) by (nonlinear_arith) requires 0 <= p < w * h, p == (p / w) * w + p % w, p % w >= 0, 0 < w;
    assert(p / w >= 0) by (nonlinear_arith) requires 0 <= p, 0 < w;
}
/// Is cel pixel (column, row) of canvas pixel `p` before (x, y) in row order?
pub open spec fn before(c: FrameCel, w: int, p: int, y: int, x: int) -> bool { p / w - c.origin.1 < y || (p / w - c.origin.1 == y && p % w - c.origin.0 < x) }
pub open spec fn px_upto(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, t0: Seq<u8>, y: int, x: int, p: int) -> Color {
    if before(c, w, p, y, x) { cel_px(c, pix, mode, opacity, w, t0, p) } else { px(t0, p) }
}
/// `t` is `t0` with the cel pixels before (x, y) drawn.
#[verifier::opaque]
pub open spec fn drawn(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, y: int, x: int) -> bool {
    &&& t.len() == t0.len()
    &&& forall |p: int| 0 <= p < w * h ==> #[trigger] px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y, x, p)
    &&& forall |k: int| 4 * (w * h) <= k < t.len() ==> #[trigger] t[k] == t0[k]
}
pub proof fn l_drawn_start(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>)
    ensures drawn(c, pix, mode, opacity, w, h, t0, t0, 0, 0)
{ reveal(drawn); }
pub proof fn l_drawn_row(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, y: int)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, y, c.size.0 as int), w > 0
    ensures drawn(c, pix, mode, opacity, w, h, t0, t, y + 1, 0)
{ reveal(drawn); }
pub proof fn l_drawn_none(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, y: int, x: int, y2: int, x2: int)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, y, x), w == 0
    ensures drawn(c, pix, mode, opacity, w, h, t0, t, y2, x2)
{ reveal(drawn); assert(w * h == 0); }
pub proof fn l_drawn_skip(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, y: int, x: int)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, y, x), w >= 0, h >= 0, !(0 <= x + c.origin.0 < w && 0 <= y + c.origin.1 < h)
    ensures drawn(c, pix, mode, opacity, w, h, t0, t, y, x + 1)
{
    reveal(drawn);
    assert forall |p: int| 0 <= p < w * h implies #[trigger] px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y, x + 1, p) by {
        if w == 0 { assert(w * h == 0); } else { l_coord(p, w, h); }
        assert(px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y, x, p));
    }
}
pub proof fn l_drawn_skip_row(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, y: int)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, y, 0), w >= 0, h >= 0, !(0 <= y + c.origin.1 < h)
    ensures drawn(c, pix, mode, opacity, w, h, t0, t, y + 1, 0)
{
    reveal(drawn);
    assert forall |p: int| 0 <= p < w * h implies #[trigger] px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y + 1, 0, p) by {
        if w == 0 { assert(w * h == 0); } else { l_coord(p, w, h); }
        assert(px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y, 0, p));
    }
}
pub proof fn l_drawn_step(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>, t2: Seq<u8>, y: int, x: int)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, y, x), 0 <= x < c.size.0, 0 <= y < c.size.1, t.len() >= 4 * (w * h),
        0 <= x + c.origin.0 < w, 0 <= y + c.origin.1 < h,
        t2.len() == t.len(),
        px(t2, (y + c.origin.1) * w + (x + c.origin.0)) == s_blend(mode, px(t, (y + c.origin.1) * w + (x + c.origin.0)), px(pix, y * c.size.0 + x), opacity),
        forall |k: int| 0 <= k < t.len() && !(4 * ((y + c.origin.1) * w + (x + c.origin.0)) <= k < 4 * ((y + c.origin.1) * w + (x + c.origin.0)) + 4) ==> #[trigger] t2[k] == t[k],
    ensures drawn(c, pix, mode, opacity, w, h, t0, t2, y, x + 1)
{
    reveal(drawn);
    let tx = x + c.origin.0; let ty = y + c.origin.1; let p0 = ty * w + tx;
    l_pos(tx, ty, w, h);
    assert forall |p: int| 0 <= p < w * h implies #[trigger] px(t2, p) == px_upto(c, pix, mode, opacity, w, t0, y, x + 1, p) by {
        l_coord(p, w, h);
        assert(px(t, p) == px_upto(c, pix, mode, opacity, w, t0, y, x, p));
        if p != p0 { assert(!(p % w == tx && p / w == ty)); assert(px(t2, p) == px(t, p)); }
        else { assert(!before(c, w, p, y, x)); assert(covers(c, w, p)); assert(cel_pos(c, w, p) == y * c.size.0 + x); }
    }
}
pub proof fn l_drawn_done(c: FrameCel, pix: Seq<u8>, mode: BlendMode, opacity: u8, w: int, h: int, t0: Seq<u8>, t: Seq<u8>)
    requires drawn(c, pix, mode, opacity, w, h, t0, t, c.size.1 as int, 0), w >= 0, h >= 0, t.len() >= 4 * (w * h)
    ensures t == s_cel(c, pix, mode, opacity, w, h, t0)
{
    reveal(drawn);
    let e = s_cel(c, pix, mode, opacity, w, h, t0);
    assert forall |k: int| 0 <= k < t.len() implies t[k] == e[k] by {
        if k < 4 * (w * h) {
            let p = k / 4;
            if w == 0 { assert(w * h == 0); } else { l_coord(p, w, h); }
            assert(px(t, p) == px_upto(c, pix, mode, opacity, w, t0, c.size.1 as int, 0, p));
            assert(px(t, p) == cel_px(c, pix, mode, opacity, w, t0, p));
            assert(t[k] == byte_of(px(t, p), k % 4));
        }
    }
    assert(t =~= e);
}
// ---------------------------------------------------- deprecated render ----
pub open spec fn cel_hash(c: FrameCel, st: int) -> int { (c.image_index, c.layer_index, c.origin, c.size).hs(st) }
pub open spec fn cels_hash(cels: Seq<FrameCel>, n: int) -> int
    decreases n
{ if n <= 0 { hash_init() } else { cel_hash(cels[n - 1], cels_hash(cels, n - 1)) } }
/// C15: equal cel lists have equal fingerprints.
pub proof fn thm_fingerprint(a: Seq<FrameCel>, b: Seq<FrameCel>)
    requires a == b
    ensures hash_fin(cels_hash(a, a.len() as int)) == hash_fin(cels_hash(b, b.len() as int))
{}
}
