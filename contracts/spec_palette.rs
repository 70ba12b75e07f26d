// Specification of the palette of a sprite.
pub mod spec_palette {
use vstd::prelude::*;
use crate::vx::*;
use crate::binary::scalars::{Color, RGB};
use vstd::std_specs::iter::IteratorSpec;
use crate::binary::chunk::{Chunk, ChunkV};
use crate::binary::chunks::palette::{PaletteChunk, PaletteChunkV};
use crate::binary::chunks::old_palette::{OldPaletteChunk, OldPaletteChunkV, PacketV};
use crate::binary::raw_frame::{RawFrame, RawFrameV};

pub open spec fn blank() -> Seq<Color> { Seq::new(256, |k: int| Color { red: 0, green: 0, blue: 0, alpha: 0 }) }
pub proof fn l_blank() ensures vstd::array::spec_array_fill_for_copy_type::<Color, 256>(Color { red: 0, green: 0, blue: 0, alpha: 0 })@ == blank()
{ assert(vstd::array::spec_array_fill_for_copy_type::<Color, 256>(Color { red: 0, green: 0, blue: 0, alpha: 0 })@ =~= blank()); }
/// The transparent index has alpha zero.
pub open spec fn clear(t: u8, p: Seq<Color>) -> Seq<Color> { p.update(t as int, Color { red: p[t as int].red, green: p[t as int].green, blue: p[t as int].blue, alpha: 0 }) }

// ------------------------------------------------------- new palette ----
/// What the parser guarantees about the index range of a chunk.
pub open spec fn range_ok(c: PaletteChunkV) -> bool { c.indices.0 <= c.indices.1 && !c.indices.2 }
pub open spec fn ranges_ok(cs: Seq<PaletteChunkV>) -> bool { forall |i: int| 0 <= i < cs.len() ==> range_ok(#[trigger] cs[i]) }
/// Number of entries of a chunk which are assigned.
pub open spec fn cnt(c: PaletteChunkV) -> int {
    let n = c.indices.1 - c.indices.0 + 1;
    if c.entries.len() < n { c.entries.len() as int } else { n }
}
/// The first `k` entries of a chunk assigned from its first index on.
pub open spec fn put(c: PaletteChunkV, k: int, p: Seq<Color>) -> Seq<Color> decreases k
{ if k <= 0 { p } else { put(c, k - 1, p).update(c.indices.0 + k - 1, c.entries[k - 1].color) } }
pub open spec fn puts(cs: Seq<PaletteChunkV>, k: int, p: Seq<Color>) -> Seq<Color> decreases k
{ if k <= 0 { p } else { put(cs[k - 1], cnt(cs[k - 1]), puts(cs, k - 1, p)) } }
pub open spec fn some_entry(cs: Seq<PaletteChunkV>, k: int) -> bool { exists |i: int| 0 <= i < k && cnt(#[trigger] cs[i]) > 0 }
pub open spec fn s_new(t: u8, cs: Seq<PaletteChunkV>, p: Seq<Color>) -> Option<Seq<Color>>
{ if some_entry(cs, cs.len() as int) { Some(clear(t, puts(cs, cs.len() as int, p))) } else { None } }

// ------------------------------------------------------- old palette ----
/// Component of an old palette as 8 bit value: the six bit range is scaled
/// by repeating the two high bits; larger values count as 63.
pub open spec fn scaled(v: u8, six: bool) -> u8 { if six { let m = if v < 63 { v } else { 63u8 }; (m * 4 + m / 16) as u8 } else { v } }
pub open spec fn opaque_rgb(c: RGB, six: bool) -> Color { Color { red: scaled(c.red, six), green: scaled(c.green, six), blue: scaled(c.blue, six), alpha: 255 } }
pub open spec fn put_rgb(cs: Seq<RGB>, six: bool, start: int, k: int, p: Seq<Color>) -> Seq<Color> decreases k
{ if k <= 0 { p } else { put_rgb(cs, six, start, k - 1, p).update(start + k - 1, opaque_rgb(cs[k - 1], six)) } }
/// Index behind the first `k` packets and the colors after them.
pub open spec fn s_packets(ps: Seq<PacketV>, six: bool, k: int, p: Seq<Color>) -> Option<(int, Seq<Color>)> decreases k
{
    if k <= 0 { Some((0, p)) } else {
        match s_packets(ps, six, k - 1, p) { None => None, Some((at, q)) => {
            let start = at + ps[k - 1].entries_to_skip;
            let n = ps[k - 1].colors.len() as int;
            if start + n > 256 { None } else { Some((start + n, put_rgb(ps[k - 1].colors, six, start, n, q))) }
        } }
    }
}
pub open spec fn s_olds(cs: Seq<OldPaletteChunkV>, six: bool, k: int, p: Seq<Color>) -> Option<Seq<Color>> decreases k
{
    if k <= 0 { Some(p) } else {
        match s_olds(cs, six, k - 1, p) { None => None, Some(q) => match s_packets(cs[k - 1].packets, six, cs[k - 1].packets.len() as int, q) { None => None, Some((_, r)) => Some(r) } }
    }
}
pub open spec fn some_packet(ps: Seq<PacketV>, k: int) -> bool { exists |i: int| 0 <= i < k && (#[trigger] ps[i]).colors.len() > 0 }
pub open spec fn some_color(cs: Seq<OldPaletteChunkV>, k: int) -> bool { exists |i: int| 0 <= i < k && some_packet((#[trigger] cs[i]).packets, cs[i].packets.len() as int) }
pub open spec fn s_old(t: u8, cs: Seq<OldPaletteChunkV>, six: bool, p: Seq<Color>) -> Option<Seq<Color>> {
    if !some_color(cs, cs.len() as int) { None } else { match s_olds(cs, six, cs.len() as int, p) { None => None, Some(q) => Some(clear(t, q)) } }
}
pub proof fn l_packets_none(ps: Seq<PacketV>, six: bool, k: int, n: int, p: Seq<Color>)
    requires k <= n, s_packets(ps, six, k, p) is None
    ensures s_packets(ps, six, n, p) is None
    decreases n - k
{ if k < n { l_packets_none(ps, six, k + 1, n, p); } }
pub proof fn l_olds_none(cs: Seq<OldPaletteChunkV>, six: bool, k: int, n: int, p: Seq<Color>)
    requires k <= n, s_olds(cs, six, k, p) is None
    ensures s_olds(cs, six, n, p) is None
    decreases n - k
{ if k < n { l_olds_none(cs, six, k + 1, n, p); } }
pub proof fn l_some_entry(cs: Seq<PaletteChunkV>, k: int) requires k > 0
    ensures some_entry(cs, k) == (some_entry(cs, k - 1) || cnt(cs[k - 1]) > 0)
{ if cnt(cs[k - 1]) > 0 {} if some_entry(cs, k - 1) { let i = choose |i: int| 0 <= i < k - 1 && cnt(#[trigger] cs[i]) > 0; assert(0 <= i < k && cnt(cs[i]) > 0); } }
pub proof fn l_some_packet(ps: Seq<PacketV>, k: int) requires k > 0
    ensures some_packet(ps, k) == (some_packet(ps, k - 1) || ps[k - 1].colors.len() > 0)
{ if some_packet(ps, k - 1) { let i = choose |i: int| 0 <= i < k - 1 && (#[trigger] ps[i]).colors.len() > 0; assert(0 <= i < k && ps[i].colors.len() > 0); } }
pub proof fn l_some_color(cs: Seq<OldPaletteChunkV>, k: int) requires k > 0
    ensures some_color(cs, k) == (some_color(cs, k - 1) || some_packet(cs[k - 1].packets, cs[k - 1].packets.len() as int))
{ if some_color(cs, k - 1) { let i = choose |i: int| 0 <= i < k - 1 && some_packet((#[trigger] cs[i]).packets, cs[i].packets.len() as int); assert(0 <= i < k && some_packet(cs[i].packets, cs[i].packets.len() as int)); } }
pub proof fn l_scaled(v: u8) requires v <= 63 ensures ((v << 2) | (v >> 4)) == (v * 4 + v / 16) as u8, v * 4 + v / 16 <= 255
{ assert(((v << 2) | (v >> 4)) == (v * 4 + v / 16) as u8) by (bit_vector) requires v <= 63; }

// ------------------------------------------------------------ choice ----
pub open spec fn new_of(c: ChunkV) -> Option<PaletteChunkV> { match c { ChunkV::Palette(p) => Some(p), _ => None } }
pub open spec fn old4_of(c: ChunkV) -> Option<OldPaletteChunkV> { match c { ChunkV::Palette0004(p) => Some(p), _ => None } }
pub open spec fn old11_of(c: ChunkV) -> Option<OldPaletteChunkV> { match c { ChunkV::Palette0011(p) => Some(p), _ => None } }
pub open spec fn sel_new() -> spec_fn(ChunkV) -> Option<PaletteChunkV> { |c: ChunkV| new_of(c) }
pub open spec fn sel_old4() -> spec_fn(ChunkV) -> Option<OldPaletteChunkV> { |c: ChunkV| old4_of(c) }
pub open spec fn sel_old11() -> spec_fn(ChunkV) -> Option<OldPaletteChunkV> { |c: ChunkV| old11_of(c) }
/// All chunks of one kind, over all frames, in file order.
pub open spec fn picked<B>(sel: spec_fn(ChunkV) -> Option<B>) -> spec_fn(RawFrameV) -> Seq<B> { |f: RawFrameV| seq_filter_map(f.chunks, sel) }
pub open spec fn pick<B>(fs: Seq<RawFrameV>, sel: spec_fn(ChunkV) -> Option<B>) -> Seq<B> { seq_flat_map(fs, picked(sel)) }
pub open spec fn is_new<'a, 'b>(c: &'a Chunk<'b>, r: Option<&'a PaletteChunk<'b>>) -> bool { r.vw() == sel_new()(c.vw()) }
#[verifier::prophetic] pub open spec fn are_new<'a, 'b>(f: &'a RawFrame<'b>, r: std::vec::IntoIter<&'a PaletteChunk<'b>>) -> bool { vws(r.remaining()) == picked(sel_new())(f.vw()) }
pub open spec fn is_old4<'a, 'b>(c: &'a Chunk<'b>, r: Option<&'a OldPaletteChunk>) -> bool { r.vw() == sel_old4()(c.vw()) }
#[verifier::prophetic] pub open spec fn are_old4<'a, 'b>(f: &'a RawFrame<'b>, r: std::vec::IntoIter<&'a OldPaletteChunk>) -> bool { vws(r.remaining()) == picked(sel_old4())(f.vw()) }
pub open spec fn is_old11<'a, 'b>(c: &'a Chunk<'b>, r: Option<&'a OldPaletteChunk>) -> bool { r.vw() == sel_old11()(c.vw()) }
#[verifier::prophetic] pub open spec fn are_old11<'a, 'b>(f: &'a RawFrame<'b>, r: std::vec::IntoIter<&'a OldPaletteChunk>) -> bool { vws(r.remaining()) == picked(sel_old11())(f.vw()) }
pub broadcast proof fn l_colors(s: Seq<Color>) ensures #[trigger] vws(s) == s { assert(vws(s) =~= s); }
pub open spec fn s_palette(t: u8, fs: Seq<RawFrameV>) -> Option<Seq<Color>> {
    if pick(fs, sel_new()).len() > 0 { s_new(t, pick(fs, sel_new()), blank()) }
    else if pick(fs, sel_old4()).len() > 0 { s_old(t, pick(fs, sel_old4()), false, blank()) }
    else if pick(fs, sel_old11()).len() > 0 { s_old(t, pick(fs, sel_old11()), true, blank()) }
    else { None }
}
pub open spec fn chunk_ok(c: ChunkV) -> bool { match c { ChunkV::Palette(p) => range_ok(p), ChunkV::Tags(t) => forall |j: int| 0 <= j < t.tags.len() ==> (#[trigger] t.tags[j]).user_data is None, _ => true } }
pub open spec fn frame_ok(f: RawFrameV) -> bool { forall |i: int| 0 <= i < f.chunks.len() ==> chunk_ok(#[trigger] f.chunks[i]) }
pub open spec fn frames_ok(fs: Seq<RawFrameV>) -> bool { forall |i: int| 0 <= i < fs.len() ==> frame_ok(#[trigger] fs[i]) }
pub proof fn l_sel_ok(s: Seq<ChunkV>) requires forall |i: int| 0 <= i < s.len() ==> chunk_ok(#[trigger] s[i])
    ensures ranges_ok(seq_filter_map(s, sel_new()))
    decreases s.len()
{ if s.len() > 0 { assert forall |i: int| 0 <= i < s.drop_last().len() implies chunk_ok(#[trigger] s.drop_last()[i]) by { assert(chunk_ok(s[i])); } l_sel_ok(s.drop_last()); assert(chunk_ok(s[s.len() - 1])); } }
pub proof fn l_pick_ok(fs: Seq<RawFrameV>) requires frames_ok(fs) ensures ranges_ok(pick(fs, sel_new())) decreases fs.len()
{
    if fs.len() > 0 {
        assert forall |i: int| 0 <= i < fs.drop_last().len() implies frame_ok(#[trigger] fs.drop_last()[i]) by { assert(frame_ok(fs[i])); }
        l_pick_ok(fs.drop_last()); assert(frame_ok(fs[fs.len() - 1])); l_sel_ok(fs.last().chunks);
        let a = seq_flat_map(fs.drop_last(), picked(sel_new())); let b = seq_filter_map(fs.last().chunks, sel_new());
        assert forall |i: int| 0 <= i < (a + b).len() implies range_ok(#[trigger] (a + b)[i]) by { if i < a.len() { assert(range_ok(a[i])); } else { assert(range_ok(b[i - a.len()])); } }
    }
}
// Frames from the parser satisfy this.
pub proof fn l_tags_ok(n: nat, i: Seq<u8>)
    ensures crate::vx::p_count(crate::spec::sp_tag(), n, i) is Some ==> forall |k: int| 0 <= k < crate::vx::p_count(crate::spec::sp_tag(), n, i)->Some_0.0.len() ==> (#[trigger] crate::vx::p_count(crate::spec::sp_tag(), n, i)->Some_0.0[k]).user_data is None
    decreases n
{ if n > 0 { l_tags_ok((n - 1) as nat, i); } }
pub proof fn l_chunk_ok(i: Seq<u8>) ensures crate::spec::p_chunk(i) is Some ==> chunk_ok(crate::spec::p_chunk(i)->Some_0.0)
{
    if crate::spec::p_chunk(i) is Some { let d = sbs(i, 6, u32_at(i, 0) as int); l_tags_ok(u16_at(d, 0) as nat, sk(d, 10)); }
}
pub proof fn l_count_ok(n: nat, i: Seq<u8>)
    ensures crate::vx::p_count(crate::spec::sp_chunk(), n, i) is Some ==> forall |k: int| 0 <= k < crate::vx::p_count(crate::spec::sp_chunk(), n, i)->Some_0.0.len() ==> chunk_ok(#[trigger] crate::vx::p_count(crate::spec::sp_chunk(), n, i)->Some_0.0[k])
    decreases n
{ if n > 0 { l_count_ok((n - 1) as nat, i); if let Some((vs, rest)) = crate::vx::p_count(crate::spec::sp_chunk(), (n - 1) as nat, i) { l_chunk_ok(rest); } } }
pub proof fn l_frame_ok(i: Seq<u8>) ensures crate::spec::p_frame(i) is Some ==> frame_ok(crate::spec::p_frame(i)->Some_0.0)
{ l_count_ok(u16_at(i, 6) as nat, sbs(i, 16, u32_at(i, 0) as int)); l_count_ok(u32_at(i, 12) as nat, sbs(i, 16, u32_at(i, 0) as int)); }
pub proof fn l_all_ok(i: Seq<u8>) ensures p_all(crate::spec::sp_frame(), i) is Some ==> frames_ok(p_all(crate::spec::sp_frame(), i)->Some_0)
    decreases i.len()
{
    l_frame_ok(i);
    match crate::spec::p_frame(i) { None => {}, Some((v, rest)) => if rest.len() > 0 && rest.len() < i.len() { l_all_ok(rest); } }
}
pub proof fn l_parsed_ok(i: Seq<u8>) ensures crate::spec::p_raw_file(i) is Some ==> frames_ok(crate::spec::p_raw_file(i)->Some_0.frames)
{ match crate::spec::p_header(i) { Some((h, r)) => { l_all_ok(r); } None => {} } }
}
