// Loading.
@mod loader
//broadcast crate::vx::l_refs
@fn loader::AsepriteFile::load
@props C01 C02 C09
@ens vxr is Ok == crate::spec_load::p_load($0@) is Some
@ens vxr is Ok ==> vxr->Ok_0.vw() == crate::spec_load::p_load($0@)->Some_0
@ens vxr is Ok ==> crate::spec_loader::sprite_wf(vxr->Ok_0.vw())
@attr #[verifier::rlimit(30)]
@attr #[verifier::loop_isolation(true)]
@entry hide(crate::spec_file::p_file);
proof { crate::spec_load::l_file_wf($0@); }
@before let mut layers ::> let ghost vx_file = file.vw(); let ghost vx_fs = vx_file.frames; let ghost vx_ls = vx_file.layers; proof { crate::spec_load::l_vec_len(&file.frames); crate::spec_load::l_vec_len(&file.layers); }
@before frames.push( ::> let ghost vx_c = cels@;
@before Ok(AsepriteFile ::> proof { crate::spec_load::l_vec_len(&image_vec); crate::spec_load::l_load_wf(vx_file); }
@closure 0
@ret LoadSpriteError
@loop 0
@inv crate::vx::vws($s) == vx_ls
@inv layers.vw() == crate::spec_load::s_layers(vx_ls, $it.index())
@inv layer_indices@ == crate::spec_load::layer_nos(vx_ls, $it.index())
@lend proof { assert(layer_indices@ =~= crate::spec_load::layer_nos(vx_ls, $it.index())); }
@lbefore proof { assert(layer_indices@ =~= crate::spec_load::layer_nos(vx_ls, 0)); }
@loop 1
@lbefore proof { crate::spec_load::l_map_0(vx_fs); }
@inv $s.len() == vx_fs.len() && (forall |i: int| 0 <= i < $s.len() ==> (#[trigger] $s[i]).0 == i && (*$s[i].1).vw() == vx_fs[i])
@inv crate::spec_load::file_wf(vx_file) && vx_fs == vx_file.frames
@inv image_vec.vw() == crate::spec_load::s_images(vx_fs, $it.index())
@inv crate::spec_load::map_ok(image_map.m(), vx_fs, $it.index(), 0)
@lbody let ghost vx_f = $it.index() - 1; let ghost vx_pc = crate::spec_load::present(vx_fs[vx_f].cels);
proof { assert(frame.vw() == vx_fs[vx_f]); assert(crate::spec_load::cels_wf(vx_file, vx_fs[vx_f].cels)); }
@lend proof { crate::spec_load::l_map_next(image_map.m(), vx_fs, vx_f); }
@closure |x| x.as_ref()
@ret Option<_>
@cbody let $a: &Option<crate::binary::chunks::cel::CelChunk<'_>> = $a;
@cens crate::spec_load::is_present($a, vxq)
@wrap crate::vx::vx_c( $$ , Ghost(crate::spec_load::cel_of()))
@loop 2
@inv crate::vx::vws($s) == vx_pc && vx_f == frame_index && vx_pc == crate::spec_load::present(vx_fs[vx_f].cels) && 0 <= vx_f < vx_fs.len() && crate::spec_load::slots_wf(vx_fs[vx_f].cels)
@inv image_vec.vw() == crate::spec_load::s_images(vx_fs, vx_f) + crate::spec_load::imgs(vx_pc, $it.index())
@inv crate::spec_load::map_ok(image_map.m(), vx_fs, vx_f, $it.index())
@lbody let ghost vx_q = $it.index() - 1; let ghost vx_m0 = image_map.m(); let ghost vx_n = image_vec@.len() as usize; proof { crate::spec_load::l_vec_len(&image_vec); }
proof { assert(cel.vw() == vx_pc[vx_q]); assert(image_vec.vw().len() == image_vec@.len()); assert(vx_n == image_vec@.len()); assert(image_vec.vw().len() == crate::spec_load::s_images(vx_fs, vx_f).len() + crate::spec_load::imgs(vx_pc, vx_q).len()); if !(vx_pc[vx_q].content is Image) { crate::spec_load::l_map_skip(vx_m0, vx_fs, vx_f, vx_q); } else { crate::spec_load::l_map_insert(vx_m0, vx_fs, frame_index, vx_q, cel.layer_index as usize, vx_n); } }
@lend proof { assert(image_vec.vw() =~= crate::spec_load::s_images(vx_fs, vx_f) + crate::spec_load::imgs(vx_pc, $it.index())); }
@loop 3
@inv crate::vx::vws($s) == vx_file.tags
@inv tags.vw() == crate::spec_load::s_tags(vx_file.tags, $it.index())
@lbefore proof { assert(tags.vw() =~= crate::spec_load::s_tags(vx_file.tags, 0)); }
@lend proof { assert(tags.vw() =~= crate::spec_load::s_tags(vx_file.tags, $it.index())); }
@loop 4
@inv $s.len() == vx_fs.len() && (forall |i: int| 0 <= i < $s.len() ==> (#[trigger] $s[i]).0 == i && (*$s[i].1).vw() == vx_fs[i])
@inv crate::spec_load::file_wf(vx_file) && vx_fs == vx_file.frames && vx_ls == vx_file.layers
@inv image_vec.vw() == crate::spec_load::s_images(vx_fs, vx_fs.len() as int)
@inv crate::spec_load::map_ok(image_map.m(), vx_fs, vx_fs.len() as int, 0)
@inv layer_indices@ == crate::spec_load::layer_nos(vx_ls, vx_ls.len() as int)
@inv crate::spec_load::s_lframes(vx_file, $it.index()) == Some(frames.vw())
@inv crate::spec_file::p_file($0@) == Some(vx_file)
@lbody let ghost vx_f = $it.index() - 1; let ghost vx_pc = crate::spec_load::present(vx_fs[vx_f].cels);
proof { assert(frame.vw() == vx_fs[vx_f]); assert(crate::spec_load::cels_wf(vx_file, vx_fs[vx_f].cels)); }
@lend proof { assert(crate::vx::vws(vx_c) =~= vx_c); assert(crate::spec_load::s_lframe(vx_file, vx_f) is Some); }
@closure || LoadSpriteError
@ret LoadSpriteError
@loop 5
@inv crate::vx::vws($s) == vx_pc && vx_f == index && vx_pc == crate::spec_load::present(vx_fs[vx_f].cels) && 0 <= vx_f < vx_fs.len() && crate::spec_load::cels_wf(vx_file, vx_fs[vx_f].cels) && vx_fs == vx_file.frames && vx_ls == vx_file.layers
@inv image_vec.vw() == crate::spec_load::s_images(vx_fs, vx_fs.len() as int)
@inv crate::spec_load::map_ok(image_map.m(), vx_fs, vx_fs.len() as int, 0)
@inv layer_indices@ == crate::spec_load::layer_nos(vx_ls, vx_ls.len() as int)
@inv crate::spec_load::s_fcels(vx_file, vx_f, vx_pc, $it.index()) == Some(cels@)
@inv crate::spec_file::p_file($0@) == Some(vx_file)
@lbody let ghost vx_q = $it.index() - 1;
proof {
    crate::spec_load::l_vec_len(&image_vec);
    assert(cel.vw() == vx_pc[vx_q]);
    crate::spec_load::l_at(vx_fs[vx_f].cels, vx_q);
    match vx_pc[vx_q].content {
        crate::binary::chunks::cel::CelContentV::Image(_) => { crate::spec_load::l_map_get(image_map.m(), vx_fs, index, cel.layer_index as usize); },
        crate::binary::chunks::cel::CelContentV::LinkedCel { frame_position } => { crate::spec_load::l_map_get(image_map.m(), vx_fs, frame_position as usize, cel.layer_index as usize); },
        _ => {},
    }
    if crate::spec_load::cel_image(vx_fs, vx_f, vx_pc[vx_q]) is None { crate::spec_load::l_fail(vx_file, vx_f, vx_q); }
}
