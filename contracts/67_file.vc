@mod binary::file
//broadcast crate::spec_file::l_left
//broadcast crate::spec_file::l_left_next
//broadcast crate::spec_palette::l_colors
// Assembly of the file.
@fn binary::file::next_user_data
@props C01 C07
@ens $r.vw() == crate::spec_file::ud_at(crate::vx::vws(old($0).rest()), 0)
@ens final($0).rest() == if $r is Some { old($0).rest().drop_first() } else { old($0).rest() }
@closure 0
@ret bool
@cens vxq == (*$a is UserData)
@fn binary::file::parse_file
@props C01 C06 C07
@ens crate::spec::raw_match(crate::spec_file::p_file($0@), vxr)
@attr #[verifier::rlimit(30)]
@attr #[verifier::loop_isolation(true)]
@entry hide(crate::spec::p_raw_file); hide(crate::spec_palette::s_palette); hide(crate::spec_file::steps); hide(crate::spec_file::s_frames); hide(crate::spec_file::slots); hide(crate::spec_file::tags_with); hide(crate::spec_file::tag_with); hide(crate::spec_file::frames_of);
proof { crate::spec_palette::l_parsed_ok($0@); }
@before let mut frames = ::> let ghost vx_raw = raw_file.vw(); let ghost vx_fs = vx_raw.frames;
proof { assert(palette.vw() == if vx_raw.header.color_depth is Indexed { Some(crate::binary::palette::PaletteV { colors: crate::spec_palette::s_palette(vx_raw.header.transparent_index, vx_raw.frames)->Some_0 }) } else { None });
assert(vx_raw.header.color_depth is Indexed ==> crate::spec_palette::s_palette(vx_raw.header.transparent_index, vx_raw.frames) is Some); }
@before let frames = ::> let ghost vx_fv = frames@; let ghost vx_ff = frames.vw();
proof { assert forall |i: int| 0 <= i < vx_fv.len() implies (#[trigger] vx_fv[i]).vw() == vx_ff[i] by {} }
@before Ok(File ::> proof { assert(frames@.len() == vx_fv.len()); assert forall |i: int| 0 <= i < frames@.len() implies #[trigger] crate::spec_file::is_frame(vx_fv[i], layers@.len() as int, Ok(frames@[i])) by { let x = frames@[i]; } crate::spec_file::l_frames(vx_fv, frames@, layers@.len() as int);
assert(vx_ff == crate::vx::vws(vx_fv));
let vx_all = crate::spec_file::s_frames(vx_fs, vx_fs.len() as int);
assert(vx_all.frames == vx_ff);
assert(vx_all.acc.layers == layers.vw() && vx_all.acc.tags == tags.vw() && vx_all.acc.slices == slices.vw() && vx_all.acc.user_data == user_data.vw());
assert(frames.vw() == crate::spec_file::frames_of(vx_ff, layers.vw().len() as int));
assert(crate::spec_file::all_ok(vx_ff, layers.vw().len() as int));
assert(raw_file.header.vw() == vx_raw.header);
}
@loop 0
@lbefore proof { crate::spec_file::l_frames_0(vx_fs); }
@inv vx_fs == crate::vx::vws($s) && crate::spec_palette::frames_ok(vx_fs)
@inv crate::spec_file::s_frames(vx_fs, $it.index()).acc.layers == layers.vw()
@inv crate::spec_file::s_frames(vx_fs, $it.index()).acc.tags == tags.vw()
@inv crate::spec_file::s_frames(vx_fs, $it.index()).acc.slices == slices.vw()
@inv crate::spec_file::s_frames(vx_fs, $it.index()).acc.user_data == user_data.vw()
@inv crate::spec_file::s_frames(vx_fs, $it.index()).frames == frames.vw()
@inv frames@.len() == $it.index()
@lbody let ghost vx_f = $it.index() - 1; let ghost vx_cs = $x.chunks.vw(); let ghost vx_first = vx_f == 0; let ghost vx_s0 = crate::spec_file::start(crate::spec_file::s_frames(vx_fs, vx_f).acc);
proof { assert(vx_fs[vx_f] == $x.vw()); crate::spec_file::l_left_all($x.chunks@); crate::spec_file::l_steps_0(vx_first, vx_cs, vx_s0); crate::spec_file::l_frames_step(vx_fs, vx_f); }
@loop 1
@inv vx_first == (frames@.len() == 0) && (forall |k: int| 0 <= k < vx_cs.len() ==> crate::spec_palette::chunk_ok(#[trigger] vx_cs[k]))
@inv crate::spec_file::left(vx_cs, chunks.rest())
@inv crate::spec_file::at(vx_first, vx_cs, vx_cs.len() - chunks.rest().len(), vx_s0, layers.vw(), cels.vw(), tags.vw(), slices.vw(), user_data.vw())
@lens chunks.rest().len() == 0 && crate::spec_file::at(vx_first, vx_cs, vx_cs.len() as int, vx_s0, layers.vw(), cels.vw(), tags.vw(), slices.vw(), user_data.vw())
@ldec chunks.rest().len()
@lbody let ghost vx_i = vx_cs.len() - chunks.rest().len() - 1;
proof { assert(chunk.vw() == vx_cs[vx_i]); assert(crate::spec_file::left(vx_cs, chunks.rest())); crate::spec_file::l_step(vx_first, vx_cs, vx_i, vx_s0); }
@lend proof { crate::spec_file::l_steps_ud(vx_first, vx_cs, vx_i + 1, vx_cs.len() - chunks.rest().len() - vx_i - 1, vx_s0); }
@loop 2
@lbefore let ghost vx_ts = vx_cs[vx_i]->Tags_0.tags; proof { assert(vx_cs[vx_i] is Tags); crate::spec_file::l_step_tags(vx_first, vx_cs, vx_i, vx_s0); crate::spec_file::l_ud_0(vx_cs, vx_i + 1); assert(crate::spec_palette::chunk_ok(vx_cs[vx_i])); assert forall |j: int| 0 <= j < $s.len() implies (*(#[trigger] $s[j])).vw() == vx_ts[j] by { } }
@inv 0 <= vx_i && (forall |j: int| 0 <= j < vx_ts.len() ==> (#[trigger] vx_ts[j]).user_data is None)
@inv forall |j: int| 0 <= j < $s.len() ==> (*(#[trigger] $s[j])).vw() == vx_ts[j]
@inv crate::spec_file::left(vx_cs, chunks.rest())
@inv vx_cs.len() - chunks.rest().len() == vx_i + 1 + $it.index()
@inv crate::spec_file::ud_n(vx_cs, vx_i + 1, $it.index())
@inv forall |j: int| 0 <= j < $it.index() ==> (*final(#[trigger] $s[j])).vw() == crate::spec_file::tag_with(vx_cs, vx_i + 1, j, vx_ts[j])
@inv $s.len() == vx_ts.len()
@lbody proof { crate::spec_file::l_tag(vx_cs, vx_i + 1, $it.index() - 1, vx_ts[$it.index() - 1]); }
@lens vx_i + 1 <= vx_cs.len() - chunks.rest().len()
@lens crate::spec_file::left(vx_cs, chunks.rest())
@lens crate::spec_file::ud_n(vx_cs, vx_i + 1, vx_cs.len() - chunks.rest().len() - vx_i - 1)
@lens forall |j: int| 0 <= j < $it.index() ==> (*final(#[trigger] $s[j])).vw() == crate::spec_file::tag_with(vx_cs, vx_i + 1, j, vx_ts[j])
@lens $it.index() < $s.len() ==> $it.index() > 0 && crate::spec_file::ud_at(vx_cs, vx_i + $it.index()) is None
@lens $it.wf() && $it.seq() == $s && $s.len() == vx_ts.len()
@lafter proof { crate::spec_file::l_tags(vx_cs, vx_i + 1, vx_n, vx_ts, tags_chunk.tags.vw()); crate::spec_file::l_cat(tags@, tags_chunk.tags@); assert(tags_chunk.tags.vw() == crate::spec_file::tags_with(vx_cs, vx_i + 1, vx_ts)); }
@ldone let ghost vx_n = $it.index();
@closure 0
@ret nom::Err<ParseError<'_>>
@cens vxq is Failure
@closure 1
@ret Result<_, _>
@cens crate::spec_file::is_frame($a, layers@.len() as int, vxq)
@loop 3
@lbefore let ghost vx_fc = frame_cels.vw();
@inv cels@.len() == $it.index()
@inv forall |l: int| 0 <= l < cels@.len() ==> #[trigger] cels@[l] is None
@loop 4
@lbefore proof { reveal(crate::spec_file::slots); assert(cels.vw() =~= crate::spec_file::slots(vx_fc, 0, layers@.len() as int)); }
@inv cels@.len() == layers@.len() && vx_fc == crate::vx::vws($s) && vx_fc == vx_p1_0.vw().1
@inv cels.vw() == crate::spec_file::slots(vx_fc, $it.index(), layers@.len() as int)
@inv forall |i: int| 0 <= i < $it.index() ==> (#[trigger] vx_fc[i]).layer_index < layers@.len()
@lbody let ghost vx_c0 = cels.vw(); proof { assert($x.vw() == vx_fc[$it.index() - 1]); }
@lend proof { reveal(crate::spec_file::slots); assert(cels.vw() =~= vx_c0.update(vx_fc[$it.index() - 1].layer_index as int, Some(vx_fc[$it.index() - 1]))); assert(cels.vw() =~= crate::spec_file::slots(vx_fc, $it.index(), layers@.len() as int)); }
