// The loader view.
@fn loader::LayerSelection::is_selected
@props C11 C14
@ens vxr == crate::spec_loader::selected(self.vw(), $0 as int, $1.vw())
@fn loader::AsepriteFile::size
@props C09
@ens vxr == (self.file.header.width, self.file.header.height)
@fn loader::AsepriteFile::tags
@props C09
@ens vxr@ == self.tags@
@fn loader::AsepriteFile::layers
@props C09
@ens vxr@ == self.layers@
@fn loader::AsepriteFile::frames
@props C09
@ens vxr@ == self.frames@
@fn loader::AsepriteFile::image_count
@props C09
@ens vxr == self.images@.len()
@fn loader::AsepriteFile::slices
@props C09
@ens vxr@ == self.file.slices@
@fn loader::AsepriteFile::select_layers
@props C14
@req forall |l: &Layer| #[trigger] call_requires($0, (l,))
@ens vxr is Mask && vxr->Mask_0@.len() == self.layers@.len()
@ens forall |i: int| 0 <= i < self.layers@.len() ==> call_ensures($0, (&self.layers@[i],), #[trigger] vxr->Mask_0@[i])
@fn loader::AsepriteFile::select_layers_by_name
@props C14
@ens vxr is Mask && vxr->Mask_0@.len() == self.layers@.len()
@ens forall |i: int| 0 <= i < self.layers@.len() ==> #[trigger] vxr->Mask_0@[i] == (exists |k: int| 0 <= k < $0@.len() && (#[trigger] $0@[k])@ == self.layers@[i].name@)
@closure 0
@params l: &Layer
@ret bool
@cens vxq == (exists |k: int| 0 <= k < $0@.len() && (#[trigger] $0@[k])@ == l.name@)
@fn loader::AsepriteFile::combined_frame_image
@props C02 C15
@req crate::spec_loader::sprite_wf(self.vw()) && $0 < self.frames@.len()
@ens vxr is Ok == crate::spec_loader::s_render(self.vw(), $0 as int, LayerSelectionV::Visible, old($1)@) is Some
@ens vxr is Ok ==> final($1)@ == crate::spec_loader::s_render(self.vw(), $0 as int, LayerSelectionV::Visible, old($1)@)->Some_0
@ens vxr is Ok ==> vxr->Ok_0 == crate::vx::hash_fin(crate::spec_loader::cels_hash(self.frames@[$0 as int].cels@, self.frames@[$0 as int].cels@.len() as int))
@loop 0
@inv hasher.st() == crate::spec_loader::cels_hash(self.frames@[$0 as int].cels@, $it.index())
@fn loader::AsepriteFile::render_frame
@props C02 C11 ~C14
@req crate::spec_loader::sprite_wf(self.vw()) && $0 < self.frames@.len()
@ens vxr is Ok == crate::spec_loader::s_render(self.vw(), $0 as int, $2.vw(), old($1)@) is Some
@ens vxr is Ok ==> final($1)@ == crate::spec_loader::s_render(self.vw(), $0 as int, $2.vw(), old($1)@)->Some_0
@ens final($1)@.len() == old($1)@.len()
@attr #[verifier::rlimit(80)]
@entry hide(crate::spec_blend::s_blend); hide(crate::spec_image::image_rgba); hide(crate::spec_loader::s_cel);
let ghost vx_s = self.vw(); let ghost vx_fc = self.frames@[$0 as int].cels@; let ghost vx_w = self.file.header.width as int; let ghost vx_h = self.file.header.height as int;
proof { crate::spec_image::l_area(self.file.header.width, self.file.header.height); assert(vx_s.frames[$0 as int].cels =~= vx_fc); }
@loop 0
@inv $1@.len() == old($1)@.len()
@inv crate::spec_loader::s_cels(vx_s, $2.vw(), vx_fc, $it.index(), old($1)@) == Some($1@)
@lbody let ghost vx_c: FrameCel = *$x; let ghost vx_t0 = $1@;
let ghost vx_l = vx_s.layers[vx_c.layer_index as int];
let ghost vx_pix = crate::spec_image::image_rgba(vx_s.file.header.color_depth, vx_s.images[vx_c.image_index as int], vx_s.file.palette)->Some_0;
proof {
    assert(vx_c == vx_s.frames[$0 as int].cels[$it.index() - 1]);
    assert(crate::spec_loader::cel_wf(vx_s, vx_c));
    if crate::spec_loader::s_cels(vx_s, $2.vw(), vx_fc, $it.index(), old($1)@) is None {
        crate::spec_loader::l_cels_none(vx_s, $2.vw(), vx_fc, $it.index(), vx_fc.len() as int, old($1)@);
    }
    if crate::spec_image::image_rgba(vx_s.file.header.color_depth, vx_s.images[vx_c.image_index as int], vx_s.file.palette) is Some { crate::spec_image::l_rgba_len(vx_s.file.header.color_depth, vx_s.images[vx_c.image_index as int], vx_s.file.palette); }
    crate::spec_image::l_area(vx_c.size.0, vx_c.size.1);
    crate::spec_loader::l_drawn_start(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0);
}
@lend proof { crate::spec_loader::l_drawn_done(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@); }
@loop 1
@inv crate::spec_loader::drawn(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, $it.index(), 0)
@inv $1@.len() == vx_t0.len()
@lbody let ghost vx_y = $x as int;
proof { if !(0 <= vx_y + vx_c.origin.1 < vx_h) { crate::spec_loader::l_drawn_skip_row(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, vx_y); } }
@lend proof { if vx_w > 0 { crate::spec_loader::l_drawn_row(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, vx_y); } else { crate::spec_loader::l_drawn_none(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, vx_y, vx_c.size.0 as int, vx_y + 1, 0); } }
@loop 2
@inv crate::spec_loader::drawn(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, vx_y, $it.index())
@inv $1@.len() == vx_t0.len()
@lbody let ghost vx_x = $x as int; let ghost vx_t1 = $1@;
proof {
    if 0 <= vx_x + vx_c.origin.0 < vx_w && 0 <= vx_y + vx_c.origin.1 < vx_h {
        crate::spec_loader::l_pos(vx_x + vx_c.origin.0, vx_y + vx_c.origin.1, vx_w, vx_h);
        crate::spec_loader::l_pos(vx_x, vx_y, vx_c.size.0 as int, vx_c.size.1 as int);
    } else {
        crate::spec_loader::l_drawn_skip(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, $1@, vx_y, vx_x);
    }
}
@lend proof { crate::spec_loader::l_drawn_step(vx_c, vx_pix, vx_l.blend_mode, vx_l.opacity, vx_w, vx_h, vx_t0, vx_t1, $1@, vx_y, vx_x); }
