// Specification of the file assembled from the chunks of all frames.
pub mod spec_file {
use vstd::prelude::*;
use crate::vx::*;
use crate::binary::chunk::{Chunk, ChunkV};
use crate::binary::raw_frame::RawFrameV;
use crate::binary::raw_file::RawFileV;
use crate::binary::file::FileV;
use crate::binary::frame::{Frame, FrameV};
use crate::binary::palette::PaletteV;
use crate::binary::errors::ParseError;
use crate::binary::color_depth::ColorDepth;
use crate::binary::chunks::cel::{CelChunk, CelChunkV};
use crate::binary::chunks::layer::LayerChunkV;
use crate::binary::chunks::slice::SliceChunkV;
use crate::binary::chunks::tags::TagV;
use crate::binary::chunks::user_data::UserDataChunkV;

/// User data chunk at position `i`.
pub open spec fn ud_at(cs: Seq<ChunkV>, i: int) -> Option<UserDataChunkV> {
    if 0 <= i < cs.len() { match cs[i] { ChunkV::UserData(u) => Some(u), _ => None } } else { None }
}
/// The chunks from `i` to `i + n` are user data.
pub open spec fn uds(cs: Seq<ChunkV>, i: int, n: int) -> bool { forall |k: int| i <= k <= i + n ==> (#[trigger] ud_at(cs, k)) is Some }
/// The `n` chunks from `i` on are user data.
#[verifier::opaque]
pub open spec fn ud_n(cs: Seq<ChunkV>, i: int, n: int) -> bool { forall |k: int| i <= k < i + n ==> (#[trigger] ud_at(cs, k)) is Some }
pub proof fn l_ud_0(cs: Seq<ChunkV>, i: int) ensures ud_n(cs, i, 0) { reveal(ud_n); }
/// Tag `j` of a tags chunk followed by user data from `i` on.
pub open spec fn tag_with(cs: Seq<ChunkV>, i: int, j: int, t: TagV) -> TagV {
    TagV { user_data: if uds(cs, i, j) { ud_at(cs, i + j) } else { None }, ..t }
}
pub open spec fn tags_with(cs: Seq<ChunkV>, i: int, ts: Seq<TagV>) -> Seq<TagV> { Seq::new(ts.len(), |j: int| tag_with(cs, i, j, ts[j])) }

pub proof fn l_tag(cs: Seq<ChunkV>, i: int, j: int, t: TagV)
    requires 0 <= j, ud_n(cs, i, j)
    ensures tag_with(cs, i, j, t) == (TagV { user_data: ud_at(cs, i + j), ..t }), ud_at(cs, i + j) is Some ==> ud_n(cs, i, j + 1)
{ reveal(ud_n); if ud_at(cs, i + j) is Some { assert(uds(cs, i, j)); } }
/// The first `n` tags have been looked at, the others are as they were.
pub proof fn l_tags(cs: Seq<ChunkV>, i: int, n: int, ts: Seq<TagV>, out: Seq<TagV>)
    requires 0 <= n <= ts.len(), out.len() == ts.len(),
        forall |j: int| 0 <= j < n ==> (#[trigger] out[j]) == tag_with(cs, i, j, ts[j]),
        forall |j: int| n <= j < ts.len() ==> (#[trigger] out[j]) == ts[j],
        forall |j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]).user_data is None,
        n < ts.len() ==> n > 0 && ud_at(cs, i + n - 1) is None,
    ensures out == tags_with(cs, i, ts)
{
    assert forall |j: int| 0 <= j < ts.len() implies out[j] == tag_with(cs, i, j, ts[j]) by {
        if j >= n { assert(ts[j].user_data is None); assert(!uds(cs, i, j)) by { assert(ud_at(cs, i + n - 1) is None); } }
    }
    assert(out =~= tags_with(cs, i, ts));
}
pub proof fn l_cat<T: Vw>(a: Seq<T>, b: Seq<T>) ensures vws(a + b) == vws(a) + vws(b) { assert(vws(a + b) =~= vws(a) + vws(b)); }
/// What has been collected from the chunks read so far.
pub ghost struct Acc {
    pub layers: Seq<LayerChunkV>,
    /// Cels of the current frame.
    pub cels: Seq<CelChunkV>,
    pub tags: Seq<TagV>,
    pub slices: Seq<SliceChunkV>,
    pub user_data: Option<UserDataChunkV>,
}
/// Chunk `i` of a frame.
pub open spec fn step(first: bool, cs: Seq<ChunkV>, i: int, s: Acc) -> Acc {
    match cs[i] {
        ChunkV::Layer(l) => Acc { layers: s.layers.push(LayerChunkV { user_data: ud_at(cs, i + 1), ..l }), ..s },
        ChunkV::Cel(c) => Acc { cels: s.cels.push(CelChunkV { user_data: ud_at(cs, i + 1), ..c }), ..s },
        ChunkV::Slice(c) => Acc { slices: s.slices.push(SliceChunkV { user_data: ud_at(cs, i + 1), ..c }), ..s },
        ChunkV::Tags(t) => Acc { tags: s.tags + tags_with(cs, i + 1, t.tags), ..s },
        ChunkV::Palette(_) => if first && s.user_data is None { Acc { user_data: ud_at(cs, i + 1), ..s } } else { s },
        ChunkV::Palette0004(_) => if first && s.user_data is None { Acc { user_data: ud_at(cs, i + 1), ..s } } else { s },
        ChunkV::Palette0011(_) => if first && s.user_data is None { Acc { user_data: ud_at(cs, i + 1), ..s } } else { s },
        _ => s,
    }
}
pub open spec fn steps(first: bool, cs: Seq<ChunkV>, k: int, s: Acc) -> Acc decreases k
{ if k <= 0 { s } else { step(first, cs, k - 1, steps(first, cs, k - 1, s)) } }
/// The state after `k` chunks, by components.
pub open spec fn at(first: bool, cs: Seq<ChunkV>, k: int, s: Acc, layers: Seq<LayerChunkV>, cels: Seq<CelChunkV>, tags: Seq<TagV>, slices: Seq<SliceChunkV>, user_data: Option<UserDataChunkV>) -> bool
{ steps(first, cs, k, s) == (Acc { layers, cels, tags, slices, user_data }) }
/// `r` holds the last chunks of `cs`.
#[verifier::opaque]
pub open spec fn left<'a>(cs: Seq<ChunkV>, r: Seq<Chunk<'a>>) -> bool { r.len() <= cs.len() && vws(r) == cs.subrange(cs.len() - r.len(), cs.len() as int) }
pub broadcast proof fn l_left<'a>(cs: Seq<ChunkV>, r: Seq<Chunk<'a>>)
    requires #[trigger] left(cs, r)
    ensures r.len() <= cs.len(), ud_at(vws(r), 0) == ud_at(cs, cs.len() - r.len()), r.len() > 0 ==> r[0].vw() == cs[cs.len() - r.len()],
{ reveal(left); if r.len() > 0 { assert(vws(r)[0] == r[0].vw()); } }
pub broadcast proof fn l_left_next<'a>(cs: Seq<ChunkV>, r: Seq<Chunk<'a>>)
    requires r.len() > 0, #[trigger] left(cs, r)
    ensures left(cs, #[trigger] r.drop_first()), r.drop_first().len() == r.len() - 1
{
    reveal(left);
    assert(vws(r.drop_first()) =~= vws(r).drop_first());
    assert(vws(r.drop_first()) =~= cs.subrange(cs.len() - r.drop_first().len(), cs.len() as int));
}
pub proof fn l_left_all<'a>(r: Seq<Chunk<'a>>) ensures left(vws(r), r)
{ reveal(left); assert(vws(r).subrange(0, r.len() as int) =~= vws(r)); }
/// The state after one more chunk.
pub proof fn l_step(first: bool, cs: Seq<ChunkV>, i: int, s: Acc)
    requires 0 <= i < cs.len()
    ensures steps(first, cs, i + 1, s) == step(first, cs, i, steps(first, cs, i, s))
{}
pub proof fn l_step_tags(first: bool, cs: Seq<ChunkV>, i: int, s: Acc)
    requires 0 <= i < cs.len(), cs[i] is Tags
    ensures steps(first, cs, i + 1, s) == (Acc { tags: steps(first, cs, i, s).tags + tags_with(cs, i + 1, cs[i]->Tags_0.tags), ..steps(first, cs, i, s) })
{}
pub proof fn l_frames_step(fs: Seq<RawFrameV>, k: int)
    requires 0 <= k < fs.len()
    ensures ({ let p = s_frames(fs, k); let acc = steps(k == 0, fs[k].chunks, fs[k].chunks.len() as int, start(p.acc));
        s_frames(fs, k + 1) == (Frames { acc, frames: p.frames.push((fs[k].duration, acc.cels)) }) }),
{}
pub proof fn l_frames_0(fs: Seq<RawFrameV>) ensures s_frames(fs, 0) == (Frames { acc: Acc { layers: Seq::empty(), cels: Seq::empty(), tags: Seq::empty(), slices: Seq::empty(), user_data: None }, frames: Seq::empty() }) {}
pub proof fn l_steps_0(first: bool, cs: Seq<ChunkV>, s: Acc) ensures steps(first, cs, 0, s) == s {}
/// User data chunks change nothing by themselves.
pub proof fn l_steps_ud(first: bool, cs: Seq<ChunkV>, k: int, n: int, s: Acc)
    requires 0 <= k, 0 <= n, ud_n(cs, k, n) || n == 0 || (n == 1 && ud_at(cs, k) is Some)
    ensures steps(first, cs, k + n, s) == steps(first, cs, k, s)
    decreases n
{ reveal(ud_n); if n > 0 { l_steps_ud(first, cs, k, n - 1, s); assert(ud_at(cs, k + n - 1) is Some); } }

/// The collection together with the duration and the cels of each frame.
pub ghost struct Frames { pub acc: Acc, pub frames: Seq<(u16, Seq<CelChunkV>)> }
pub open spec fn start(s: Acc) -> Acc { Acc { cels: Seq::empty(), ..s } }
pub open spec fn s_frames(fs: Seq<RawFrameV>, k: int) -> Frames decreases k
{
    if k <= 0 { Frames { acc: Acc { layers: Seq::empty(), cels: Seq::empty(), tags: Seq::empty(), slices: Seq::empty(), user_data: None }, frames: Seq::empty() } } else {
        let p = s_frames(fs, k - 1);
        let acc = steps(k == 1, fs[k - 1].chunks, fs[k - 1].chunks.len() as int, start(p.acc));
        Frames { acc, frames: p.frames.push((fs[k - 1].duration, acc.cels)) }
    }
}
/// Cel of layer `l`: the last one wins.
pub open spec fn slot(cels: Seq<CelChunkV>, k: int, l: int) -> Option<CelChunkV> decreases k
{ if k <= 0 { None } else if cels[k - 1].layer_index == l { Some(cels[k - 1]) } else { slot(cels, k - 1, l) } }
pub open spec fn slots(cels: Seq<CelChunkV>, k: int, n: int) -> Seq<Option<CelChunkV>> { Seq::new(n as nat, |l: int| slot(cels, k, l)) }
/// Every cel belongs to one of the `n` layers.
pub open spec fn cels_ok(cels: Seq<CelChunkV>, n: int) -> bool { forall |i: int| 0 <= i < cels.len() ==> (#[trigger] cels[i]).layer_index < n }
pub open spec fn s_frame(f: (u16, Seq<CelChunkV>), n: int) -> Option<FrameV> {
    if cels_ok(f.1, n) { Some(FrameV { duration: f.0, cels: slots(f.1, f.1.len() as int, n) }) } else { None }
}
pub open spec fn is_frame<'a>(f: (u16, Vec<CelChunk<'a>>), n: int, r: Result<Frame<'a>, nom::Err<ParseError<'a>>>) -> bool {
    match r { Ok(x) => s_frame(f.vw(), n) == Some(x.vw()), Err(e) => s_frame(f.vw(), n) is None && !(e is Incomplete) }
}
pub open spec fn all_ok(fs: Seq<(u16, Seq<CelChunkV>)>, n: int) -> bool { forall |i: int| 0 <= i < fs.len() ==> cels_ok((#[trigger] fs[i]).1, n) }
pub open spec fn frames_of(fs: Seq<(u16, Seq<CelChunkV>)>, n: int) -> Seq<FrameV> { Seq::new(fs.len(), |i: int| s_frame(fs[i], n)->Some_0) }
pub proof fn l_frames<'a>(fv: Seq<(u16, Vec<CelChunk<'a>>)>, r: Seq<Frame<'a>>, n: int)
    requires fv.len() == r.len(), forall |i: int| 0 <= i < r.len() ==> #[trigger] is_frame(fv[i], n, Ok(r[i]))
    ensures vws(r) == frames_of(vws(fv), n), all_ok(vws(fv), n)
{
    assert forall |i: int| 0 <= i < r.len() implies s_frame(#[trigger] vws(fv)[i], n) == Some(vws(r)[i]) by { assert(is_frame(fv[i], n, Ok(r[i]))); }
    assert(vws(r) =~= frames_of(vws(fv), n));
}
pub open spec fn s_file(raw: RawFileV) -> Option<FileV> {
    let p = crate::spec_palette::s_palette(raw.header.transparent_index, raw.frames);
    let all = s_frames(raw.frames, raw.frames.len() as int);
    let n = all.acc.layers.len() as int;
    if raw.header.color_depth is Indexed && p is None || !all_ok(all.frames, n) { None } else {
        Some(FileV { header: raw.header, palette: if raw.header.color_depth is Indexed { Some(PaletteV { colors: p->Some_0 }) } else { None },
            layers: all.acc.layers, frames: frames_of(all.frames, n), tags: all.acc.tags, slices: all.acc.slices, user_data: all.acc.user_data })
    }
}
pub open spec fn p_file(i: Seq<u8>) -> Option<FileV> { match crate::spec::p_raw_file(i) { None => None, Some(raw) => s_file(raw) } }
}
