// Specification of image decoding: the RGBA pixels an image denotes.
pub mod spec_image {
use vstd::prelude::*;
use crate::vx::*;
use crate::binary::color_depth::ColorDepth;
use crate::binary::image::ImageV;
use crate::binary::palette::PaletteV;
use crate::binary::scalars::Color;

pub open spec fn area(w: u16, h: u16) -> int { w * h }
pub broadcast proof fn l_area(w: u16, h: u16) ensures 0 <= #[trigger] area(w, h) <= 65535 * 65535
{ assert(0 <= w * h <= 65535 * 65535) by (nonlinear_arith) requires 0 <= w <= 65535, 0 <= h <= 65535; }
/// Gray value and alpha to RGBA.
pub open spec fn gray_at(s: Seq<u8>, k: int) -> u8 { s[2 * (k / 4) + if k % 4 == 3 { 1int } else { 0int }] }
pub open spec fn gray_rgba(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len() * 2, |k: int| gray_at(s, k)) }
/// Palette index to RGBA.
pub open spec fn color_byte(c: Color, j: int) -> u8 { if j == 0 { c.red } else if j == 1 { c.green } else if j == 2 { c.blue } else { c.alpha } }
pub open spec fn index_at(s: Seq<u8>, p: Seq<Color>, k: int) -> u8 { color_byte(p[s[k / 4] as int], k % 4) }
pub open spec fn index_rgba(s: Seq<u8>, p: Seq<Color>) -> Seq<u8> { Seq::new(s.len() * 4, |k: int| index_at(s, p, k)) }
/// Raw pixel bytes of an image, if it has exactly `n` of them.
pub open spec fn pixel_bytes(image: ImageV, n: int) -> Option<Seq<u8>> {
    if image.compressed {
        match zlib_stream(image.data) { Some(s) => if s.len() == n { Some(s) } else { None }, None => None }
    } else if image.data.len() == n { Some(image.data) } else { None }
}
pub open spec fn image_rgba(depth: ColorDepth, image: ImageV, palette: Option<PaletteV>) -> Option<Seq<u8>> {
    let n = area(image.width, image.height);
    match depth {
        ColorDepth::Rgba => pixel_bytes(image, n * 4),
        ColorDepth::Grayscale => match pixel_bytes(image, n * 2) { Some(s) => Some(gray_rgba(s)), None => None },
        ColorDepth::Indexed => match (pixel_bytes(image, n), palette) { (Some(s), Some(p)) => Some(index_rgba(s, p.colors)), _ => None },
        ColorDepth::Unknown(_) => None,
    }
}
pub proof fn l_rgba_len(depth: ColorDepth, image: ImageV, palette: Option<PaletteV>)
    requires image_rgba(depth, image, palette) is Some
    ensures image_rgba(depth, image, palette)->Some_0.len() == 4 * area(image.width, image.height)
{}
/// `new` is `old` with the first bytes replaced by `pix`.
pub open spec fn overwritten(old: Seq<u8>, pix: Seq<u8>, new: Seq<u8>) -> bool {
    &&& pix.len() <= new.len() && new.len() == old.len()
    &&& forall |k: int| 0 <= k < old.len() ==> #[trigger] new[k] == if k < pix.len() { pix[k] } else { old[k] }
}
pub open spec fn same_behind(old: Seq<u8>, n: int, new: Seq<u8>) -> bool { new.len() == old.len() && forall |k: int| n <= k < old.len() ==> #[trigger] new[k] == old[k] }
}
