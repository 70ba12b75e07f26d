// Specification of loading: the sprite view of a parsed file.
pub mod spec_load {
use vstd::prelude::*;
use crate::vx::*;
use crate::spec_loader::*;
use crate::binary::file::FileV;
use crate::binary::frame::FrameV;
use crate::binary::image::ImageV;
use crate::binary::chunks::cel::{CelChunk, CelChunkV, CelContentV};
use crate::binary::chunks::layer::LayerChunkV;
use crate::binary::chunks::tags::TagV;
use crate::loader::{AsepriteFileV, LayerV, FrameCel};

/// Layers of other kinds are not part of the sprite.
pub open spec fn shown(l: LayerChunkV) -> bool { l.layer_type is Normal || l.layer_type is Group }
pub open spec fn s_layer(l: LayerChunkV) -> LayerV {
    LayerV { name: l.name, opacity: l.opacity, blend_mode: l.blend_mode, visible: l.flags.vxbits & 1 == 1, layer_type: l.layer_type }
}
/// The layers of the sprite among the first `k` layers of the file.
pub open spec fn s_layers(ls: Seq<LayerChunkV>, k: int) -> Seq<LayerV> decreases k
{ if k <= 0 { Seq::empty() } else if shown(ls[k - 1]) { s_layers(ls, k - 1).push(s_layer(ls[k - 1])) } else { s_layers(ls, k - 1) } }
/// Number of layer `l` of the file in the sprite.
pub open spec fn layer_no(ls: Seq<LayerChunkV>, l: int) -> Option<usize> { if shown(ls[l]) { Some(s_layers(ls, l).len() as usize) } else { None } }
pub open spec fn layer_nos(ls: Seq<LayerChunkV>, k: int) -> Seq<Option<usize>> { Seq::new(k as nat, |l: int| layer_no(ls, l)) }

/// The cels there are, in layer order.
pub open spec fn present(cels: Seq<Option<CelChunkV>>) -> Seq<CelChunkV> { seq_filter_map(cels, cel_of()) }
pub open spec fn cel_of() -> spec_fn(Option<CelChunkV>) -> Option<CelChunkV> { |c: Option<CelChunkV>| c }
pub open spec fn is_present<'a, 'b>(c: &'a Option<CelChunk<'b>>, r: Option<&'a CelChunk<'b>>) -> bool { r.vw() == c.vw() }
/// Images of the first `k` cels.
pub open spec fn imgs(cels: Seq<CelChunkV>, k: int) -> Seq<ImageV> decreases k
{ if k <= 0 { Seq::empty() } else { match cels[k - 1].content { CelContentV::Image(i) => imgs(cels, k - 1).push(i), _ => imgs(cels, k - 1) } } }
pub open spec fn f_imgs(f: FrameV) -> Seq<ImageV> { imgs(present(f.cels), present(f.cels).len() as int) }
/// Images of the first `k` frames, frame by frame.
pub open spec fn s_images(fs: Seq<FrameV>, k: int) -> Seq<ImageV> decreases k
{ if k <= 0 { Seq::empty() } else { s_images(fs, k - 1) + f_imgs(fs[k - 1]) } }
/// The cel of a frame on layer `l` holds an image.
pub open spec fn has_image(fs: Seq<FrameV>, f: int, l: int) -> bool {
    0 <= f < fs.len() && 0 <= l < fs[f].cels.len() && fs[f].cels[l] is Some && fs[f].cels[l]->Some_0.content is Image
}
/// How many cels of a frame are on layers below `l`.
pub open spec fn pos(cels: Seq<Option<CelChunkV>>, l: int) -> int { present(cels.take(l)).len() as int }
/// Number of the image on layer `l` of frame `f`.
pub open spec fn image_no(fs: Seq<FrameV>, f: int, l: int) -> int { (s_images(fs, f).len() + imgs(present(fs[f].cels), pos(fs[f].cels, l)).len()) as int }
/// Image shown by a cel of frame `f`.
pub open spec fn cel_image(fs: Seq<FrameV>, f: int, c: CelChunkV) -> Option<int> {
    match c.content {
        CelContentV::Image(_) => Some(image_no(fs, f, c.layer_index as int)),
        CelContentV::LinkedCel { frame_position } => if has_image(fs, frame_position as int, c.layer_index as int) { Some(image_no(fs, frame_position as int, c.layer_index as int)) } else { None },
        _ => None,
    }
}
/// None: the cel cannot be loaded. Some(None): its layer is not part of the sprite.
pub open spec fn s_fcel(file: FileV, f: int, c: CelChunkV) -> Option<Option<FrameCel>> {
    match cel_image(file.frames, f, c) {
        None => None,
        Some(k) => match layer_no(file.layers, c.layer_index as int) {
            None => Some(None),
            Some(layer_index) => {
                let image = s_images(file.frames, file.frames.len() as int)[k];
                Some(Some(FrameCel { origin: (c.x, c.y), size: (image.width, image.height), layer_index, image_index: k as usize }))
            },
        },
    }
}
pub open spec fn s_fcels(file: FileV, f: int, cels: Seq<CelChunkV>, k: int) -> Option<Seq<FrameCel>> decreases k
{
    if k <= 0 { Some(Seq::empty()) } else {
        match (s_fcels(file, f, cels, k - 1), s_fcel(file, f, cels[k - 1])) {
            (Some(s), Some(Some(c))) => Some(s.push(c)),
            (Some(s), Some(None)) => Some(s),
            _ => None,
        }
    }
}
pub open spec fn s_lframe(file: FileV, f: int) -> Option<crate::loader::FrameV> {
    let cels = present(file.frames[f].cels);
    match s_fcels(file, f, cels, cels.len() as int) { None => None, Some(cels) => Some(crate::loader::FrameV { duration: file.frames[f].duration, origin: (0i16, 0i16), cels }) }
}
pub open spec fn s_lframes(file: FileV, k: int) -> Option<Seq<crate::loader::FrameV>> decreases k
{
    if k <= 0 { Some(Seq::empty()) } else {
        match (s_lframes(file, k - 1), s_lframe(file, k - 1)) { (Some(s), Some(f)) => Some(s.push(f)), _ => None }
    }
}
pub open spec fn s_tag(t: TagV) -> crate::loader::TagV {
    crate::loader::TagV { name: t.name, range: t.frames, direction: t.animation_direction, repeat: if t.animation_repeat > 0 { Some(t.animation_repeat) } else { None } }
}
pub open spec fn s_tags(ts: Seq<TagV>, k: int) -> Seq<crate::loader::TagV> { Seq::new(k as nat, |i: int| s_tag(ts[i])) }
pub open spec fn s_load(file: FileV) -> Option<AsepriteFileV> {
    match s_lframes(file, file.frames.len() as int) {
        None => None,
        Some(frames) => Some(AsepriteFileV { file, layers: s_layers(file.layers, file.layers.len() as int), frames, tags: s_tags(file.tags, file.tags.len() as int), images: s_images(file.frames, file.frames.len() as int) }),
    }
}
pub open spec fn p_load(i: Seq<u8>) -> Option<AsepriteFileV> { match crate::spec_file::p_file(i) { None => None, Some(file) => s_load(file) } }

// ------------------------------------------------------------- lemmas ----
/// What parsing guarantees: one slot per layer, each cel in the slot of its layer.
pub open spec fn file_wf(file: FileV) -> bool { forall |f: int| 0 <= f < file.frames.len() ==> cels_wf(file, (#[trigger] file.frames[f]).cels) }
pub open spec fn cels_wf(file: FileV, cels: Seq<Option<CelChunkV>>) -> bool { cels.len() == file.layers.len() && slots_wf(cels) }
pub open spec fn slots_wf(cels: Seq<Option<CelChunkV>>) -> bool { forall |l: int| 0 <= l < cels.len() ==> ((#[trigger] cels[l]) is Some ==> cels[l]->Some_0.layer_index == l) }
pub proof fn l_vec_len<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX { let n = vstd::std_specs::vec::spec_vec_len(v); }
pub proof fn l_slot(cels: Seq<CelChunkV>, k: int, l: int)
    ensures crate::spec_file::slot(cels, k, l) is Some ==> crate::spec_file::slot(cels, k, l)->Some_0.layer_index == l
    decreases k
{ if k > 0 { l_slot(cels, k - 1, l); } }
pub proof fn l_file_wf(i: Seq<u8>)
    ensures crate::spec_file::p_file(i) is Some ==> file_wf(crate::spec_file::p_file(i)->Some_0)
{
    if crate::spec_file::p_file(i) is Some {
        let file = crate::spec_file::p_file(i)->Some_0;
        let raw = crate::spec::p_raw_file(i)->Some_0;
        let all = crate::spec_file::s_frames(raw.frames, raw.frames.len() as int);
        let n = all.acc.layers.len() as int;
        assert forall |f: int| 0 <= f < file.frames.len() implies cels_wf(file, (#[trigger] file.frames[f]).cels) by {
            let cs = all.frames[f].1;
            assert(crate::spec_file::cels_ok(cs, n));
            assert(file.frames[f].cels == crate::spec_file::slots(cs, cs.len() as int, n));
            assert forall |l: int| 0 <= l < n implies ((#[trigger] file.frames[f].cels[l]) is Some ==> file.frames[f].cels[l]->Some_0.layer_index == l) by { l_slot(cs, cs.len() as int, l); }
        }
    }
}
/// Slot `l` is at position `pos(l)` of the cels there are.
pub proof fn l_pos(cels: Seq<Option<CelChunkV>>, l: int)
    requires 0 <= l < cels.len()
    ensures 0 <= pos(cels, l) <= present(cels).len(),
        cels[l] is Some ==> pos(cels, l) < present(cels).len() && present(cels)[pos(cels, l)] == cels[l]->Some_0,
    decreases cels.len()
{
    if l == cels.len() - 1 { assert(cels.take(l) =~= cels.drop_last()); }
    else { l_pos(cels.drop_last(), l); assert(cels.drop_last().take(l) =~= cels.take(l)); assert(cels.drop_last()[l] == cels[l]); }
}
/// Position `q` of the cels there are is the slot of its layer.
pub proof fn l_at(cels: Seq<Option<CelChunkV>>, q: int)
    requires slots_wf(cels), 0 <= q < present(cels).len()
    ensures ({ let l = present(cels)[q].layer_index as int; 0 <= l < cels.len() && cels[l] == Some(present(cels)[q]) && pos(cels, l) == q })
    decreases cels.len()
{
    let d = cels.drop_last();
    assert(cels.len() > 0);
    assert(slots_wf(d)) by { assert forall |l: int| 0 <= l < d.len() implies ((#[trigger] d[l]) is Some ==> d[l]->Some_0.layer_index == l) by { assert(d[l] == cels[l]); } }
    assert(cels[cels.len() - 1] is Some ==> cels[cels.len() - 1]->Some_0.layer_index == cels.len() - 1);
    if q < present(d).len() {
        l_at(d, q);
        let l = present(d)[q].layer_index as int;
        assert(d.take(l) =~= cels.take(l));
        assert(present(cels)[q] == present(d)[q]);
    } else {
        assert(cels.take(cels.len() - 1) =~= d);
    }
}
pub proof fn l_imgs_len(cels: Seq<CelChunkV>, j: int, k: int)
    requires 0 <= j <= k <= cels.len()
    ensures imgs(cels, j).len() <= imgs(cels, k).len(), imgs(cels, j) == imgs(cels, k).take(imgs(cels, j).len() as int)
    decreases k
{
    if j < k { l_imgs_len(cels, j, k - 1); }
    assert(imgs(cels, j) =~= imgs(cels, k).take(imgs(cels, j).len() as int));
}
pub proof fn l_images_prefix(fs: Seq<FrameV>, j: int, k: int)
    requires 0 <= j <= k <= fs.len()
    ensures s_images(fs, j).len() <= s_images(fs, k).len(), forall |i: int| 0 <= i < s_images(fs, j).len() ==> #[trigger] s_images(fs, k)[i] == s_images(fs, j)[i]
    decreases k
{ if j < k { l_images_prefix(fs, j, k - 1); } }
/// Image numbers are valid and denote the image of the cel.
pub proof fn l_image_no(fs: Seq<FrameV>, f: int, l: int, k: int)
    requires has_image(fs, f, l), f < k <= fs.len()
    ensures 0 <= image_no(fs, f, l) < s_images(fs, k).len(), s_images(fs, k)[image_no(fs, f, l)] == fs[f].cels[l]->Some_0.content->Image_0
{
    let p = present(fs[f].cels); let q = pos(fs[f].cels, l);
    l_pos(fs[f].cels, l);
    l_imgs_len(p, q + 1, p.len() as int);
    assert(imgs(p, q + 1) == imgs(p, q).push(fs[f].cels[l]->Some_0.content->Image_0));
    assert(f_imgs(fs[f])[imgs(p, q).len() as int] == imgs(p, q + 1)[imgs(p, q).len() as int]);
    assert(s_images(fs, f + 1) == s_images(fs, f) + f_imgs(fs[f]));
    l_images_prefix(fs, f + 1, k);
}
/// The image numbers recorded after `q` cels of frame `k`.
#[verifier::opaque]
pub open spec fn map_ok(m: Map<(usize, usize), usize>, fs: Seq<FrameV>, k: int, q: int) -> bool {
    forall |f: usize, l: usize| (#[trigger] m.dom().contains((f, l))) == (has_image(fs, f as int, l as int) && (f < k || (f == k && pos(fs[f as int].cels, l as int) < q)))
        && (m.dom().contains((f, l)) ==> m[(f, l)] == image_no(fs, f as int, l as int))
}
pub proof fn l_map_0(fs: Seq<FrameV>) ensures map_ok(Map::empty(), fs, 0, 0) { reveal(map_ok); }
/// Cel `q` of frame `k` has no image.
pub proof fn l_map_skip(m: Map<(usize, usize), usize>, fs: Seq<FrameV>, k: int, q: int)
    requires map_ok(m, fs, k, q), 0 <= k < fs.len(), slots_wf(fs[k].cels), 0 <= q < present(fs[k].cels).len(), !(present(fs[k].cels)[q].content is Image)
    ensures map_ok(m, fs, k, q + 1)
{
    reveal(map_ok);
    assert forall |f: usize, l: usize| has_image(fs, f as int, l as int) && f == k implies #[trigger] pos(fs[f as int].cels, l as int) != q by { l_pos(fs[k].cels, l as int); }
}
pub proof fn l_map_insert(m: Map<(usize, usize), usize>, fs: Seq<FrameV>, k: usize, q: int, l: usize, n: usize)
    requires map_ok(m, fs, k as int, q), 0 <= k < fs.len(), slots_wf(fs[k as int].cels), 0 <= q < present(fs[k as int].cels).len(),
        present(fs[k as int].cels)[q].content is Image, l == present(fs[k as int].cels)[q].layer_index,
        n == s_images(fs, k as int).len() + imgs(present(fs[k as int].cels), q).len(),
    ensures map_ok(m.insert((k, l), n), fs, k as int, q + 1)
{
    reveal(map_ok);
    let cels = fs[k as int].cels;
    l_at(cels, q);
    assert forall |f: usize, l2: usize| has_image(fs, f as int, l2 as int) && f == k && #[trigger] pos(fs[f as int].cels, l2 as int) == q implies l2 == l by {
        l_pos(cels, l2 as int);
        assert(cels[l2 as int]->Some_0.layer_index == l2);
    }
    let m2 = m.insert((k, l), n);
    assert forall |f: usize, l2: usize| (#[trigger] m2.dom().contains((f, l2))) == (has_image(fs, f as int, l2 as int) && (f < k || (f == k && pos(fs[f as int].cels, l2 as int) < q + 1)))
        && (m2.dom().contains((f, l2)) ==> m2[(f, l2)] == image_no(fs, f as int, l2 as int)) by {
        assert(m2.dom().contains((f, l2)) == (m.dom().contains((f, l2)) || (f == k && l2 == l)));
        if f == k && l2 != l && has_image(fs, f as int, l2 as int) { assert(pos(fs[f as int].cels, l2 as int) != q); }
    }
}
pub proof fn l_map_next(m: Map<(usize, usize), usize>, fs: Seq<FrameV>, k: int)
    requires map_ok(m, fs, k, present(fs[k].cels).len() as int), 0 <= k < fs.len()
    ensures map_ok(m, fs, k + 1, 0)
{
    reveal(map_ok);
    assert forall |f: usize, l: usize| has_image(fs, f as int, l as int) && f == k implies #[trigger] pos(fs[f as int].cels, l as int) < present(fs[k].cels).len() by { l_pos(fs[k].cels, l as int); }
}
/// Lookup in the complete table.
pub proof fn l_map_get(m: Map<(usize, usize), usize>, fs: Seq<FrameV>, f: usize, l: usize)
    requires map_ok(m, fs, fs.len() as int, 0)
    ensures m.dom().contains((f, l)) == has_image(fs, f as int, l as int),
        m.dom().contains((f, l)) ==> m[(f, l)] == image_no(fs, f as int, l as int) && m[(f, l)] < s_images(fs, fs.len() as int).len()
{ reveal(map_ok); if has_image(fs, f as int, l as int) { l_image_no(fs, f as int, l as int, fs.len() as int); } }
pub proof fn l_none_cels(file: FileV, f: int, cels: Seq<CelChunkV>, k: int, n: int)
    requires k <= n, s_fcels(file, f, cels, k) is None
    ensures s_fcels(file, f, cels, n) is None
    decreases n - k
{ if k < n { l_none_cels(file, f, cels, k + 1, n); } }
pub proof fn l_none_frames(file: FileV, k: int, n: int)
    requires k <= n, s_lframes(file, k) is None
    ensures s_lframes(file, n) is None
    decreases n - k
{ if k < n { l_none_frames(file, k + 1, n); } }
/// A cel which cannot be loaded fails the whole file.
pub proof fn l_fail(file: FileV, f: int, q: int)
    requires 0 <= f < file.frames.len(), 0 <= q < present(file.frames[f].cels).len(), cel_image(file.frames, f, present(file.frames[f].cels)[q]) is None
    ensures s_load(file) is None
{
    let cels = present(file.frames[f].cels);
    assert(s_fcels(file, f, cels, q + 1) is None);
    l_none_cels(file, f, cels, q + 1, cels.len() as int);
    assert(s_lframes(file, f + 1) is None);
    l_none_frames(file, f + 1, file.frames.len() as int);
}
pub proof fn l_layers_len(ls: Seq<LayerChunkV>, j: int, k: int)
    requires 0 <= j <= k
    ensures s_layers(ls, j).len() <= s_layers(ls, k).len(), s_layers(ls, k).len() <= k
    decreases k
{ if k > 0 { if j < k { l_layers_len(ls, j, k - 1); } else { l_layers_len(ls, j - 1, k - 1); } } }
/// Cels of loaded sprites refer to existing layers and images.
pub proof fn l_load_wf(file: FileV)
    requires file_wf(file), s_load(file) is Some, file.layers.len() <= usize::MAX, s_images(file.frames, file.frames.len() as int).len() <= usize::MAX
    ensures sprite_wf(s_load(file)->Some_0)
{
    let s = s_load(file)->Some_0;
    l_frames_wf(file, file.frames.len() as int);
    assert forall |i: int, j: int| 0 <= i < s.frames.len() && 0 <= j < s.frames[i].cels.len() implies cel_wf(s, #[trigger] s.frames[i].cels[j]) by {
        let cels = present(file.frames[i].cels);
        l_fcels_wf(file, i, cels.len() as int);
    }
}
pub proof fn l_frames_wf(file: FileV, k: int)
    requires 0 <= k <= file.frames.len(), s_lframes(file, k) is Some
    ensures s_lframes(file, k)->Some_0.len() == k, forall |i: int| 0 <= i < k ==> Some(#[trigger] s_lframes(file, k)->Some_0[i]) == s_lframe(file, i)
    decreases k
{ if k > 0 { l_frames_wf(file, k - 1); } }
pub proof fn l_fcels_wf(file: FileV, f: int, k: int)
    requires file_wf(file), 0 <= f < file.frames.len(), 0 <= k <= present(file.frames[f].cels).len(), s_fcels(file, f, present(file.frames[f].cels), k) is Some, s_load(file) is Some,
        file.layers.len() <= usize::MAX, s_images(file.frames, file.frames.len() as int).len() <= usize::MAX
    ensures forall |j: int| 0 <= j < s_fcels(file, f, present(file.frames[f].cels), k)->Some_0.len() ==> cel_wf(s_load(file)->Some_0, #[trigger] s_fcels(file, f, present(file.frames[f].cels), k)->Some_0[j])
    decreases k
{
    if k > 0 {
        let cels = present(file.frames[f].cels); let c = cels[k - 1]; let l = c.layer_index as int;
        l_fcels_wf(file, f, k - 1);
        assert(cels_wf(file, file.frames[f].cels));
        l_at(file.frames[f].cels, k - 1);
        assert(s_fcel(file, f, c) is Some);
        match c.content {
            CelContentV::Image(_) => { l_image_no(file.frames, f, l, file.frames.len() as int); },
            CelContentV::LinkedCel { frame_position } => { l_image_no(file.frames, frame_position as int, l, file.frames.len() as int); },
            _ => {},
        }
        l_layers_len(file.layers, l, file.layers.len() as int);
        if shown(file.layers[l]) { l_layers_len(file.layers, l + 1, file.layers.len() as int); assert(s_layers(file.layers, l + 1).len() == s_layers(file.layers, l).len() + 1); }
    }
}
}
