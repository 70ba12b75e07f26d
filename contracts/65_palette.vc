// The palette.
@fn binary::palette::Palette::default
@props C06
@ens vxr.colors@ == crate::spec_palette::blank()
@entry proof { crate::spec_palette::l_blank(); }
@fn binary::palette::scale_component
@props C06
@ens $r == crate::spec_palette::scaled($0, $1)
@entry proof { if $0 <= 63 { crate::spec_palette::l_scaled($0); } else { crate::spec_palette::l_scaled(63); } }
@fn binary::palette::process_palette_chunks
@props C01 C06
@req crate::spec_palette::ranges_ok($1.vw())
@ens $r is Ok == crate::spec_palette::s_new($0, $1.vw(), old($2).colors@) is Some
@ens $r is Ok ==> final($2).colors@ == crate::spec_palette::s_new($0, $1.vw(), old($2).colors@)->Some_0
@loop 0
@inv $2.colors@ == crate::spec_palette::puts($1.vw(), $it.index(), old($2).colors@)
@inv ok == crate::spec_palette::some_entry($1.vw(), $it.index())
@lbody let ghost vx_c = (*$x).vw(); let ghost vx_p = $2.colors@; let ghost vx_ok = ok; proof { assert(vx_c == $1.vw()[$it.index() - 1]); assert(crate::spec_palette::range_ok(vx_c)); }
@lend proof { crate::spec_palette::l_some_entry($1.vw(), $it.index()); }
@loop 1
@inv $2.colors@ == crate::spec_palette::put(vx_c, $it.index(), vx_p)
@inv ok == (vx_ok || $it.index() > 0)
@inv $s.len() == crate::spec_palette::cnt(vx_c)
@lbody proof { assert($x.0.color == vx_c.entries[$it.index() - 1].color); assert($x.1 == vx_c.indices.0 + $it.index() - 1); }
@fn binary::palette::process_old_palette_chunks
@props C01 C06
@ens $r is Ok == crate::spec_palette::s_old($0, $1.vw(), $2, old($3).colors@) is Some
@ens $r is Ok ==> final($3).colors@ == crate::spec_palette::s_old($0, $1.vw(), $2, old($3).colors@)->Some_0
@loop 0
@inv crate::spec_palette::s_olds($1.vw(), $2, $it.index(), old($3).colors@) == Some($3.colors@)
@inv ok == crate::spec_palette::some_color($1.vw(), $it.index())
@lbody let ghost vx_c = (*$x).vw(); let ghost vx_p = $3.colors@; let ghost vx_ok = ok;
proof { assert(vx_c == $1.vw()[$it.index() - 1]);
    if crate::spec_palette::s_olds($1.vw(), $2, $it.index(), old($3).colors@) is None { crate::spec_palette::l_olds_none($1.vw(), $2, $it.index(), $1.vw().len() as int, old($3).colors@); } }
@lend proof { crate::spec_palette::l_some_color($1.vw(), $it.index()); }
@loop 1
@inv crate::spec_palette::s_packets(vx_c.packets, $2, $it.index(), vx_p) == Some((color_idx as int, $3.colors@))
@inv ok == (vx_ok || crate::spec_palette::some_packet(vx_c.packets, $it.index()))
@inv color_idx <= 256
@lbody let ghost vx_k = (*$x).vw(); let ghost vx_q = $3.colors@; let ghost vx_ok1 = ok; let ghost vx_at = color_idx as int;
proof { assert(vx_k == vx_c.packets[$it.index() - 1]);
    if crate::spec_palette::s_packets(vx_c.packets, $2, $it.index(), vx_p) is None { crate::spec_palette::l_packets_none(vx_c.packets, $2, $it.index(), vx_c.packets.len() as int, vx_p); } }
@lend proof { crate::spec_palette::l_some_packet(vx_c.packets, $it.index()); }
@loop 2
@inv $3.colors@ == crate::spec_palette::put_rgb(vx_k.colors, $2, vx_at + vx_k.entries_to_skip, $it.index(), vx_q)
@inv color_idx == vx_at + vx_k.entries_to_skip + $it.index() && vx_at + vx_k.entries_to_skip + vx_k.colors.len() <= 256
@inv ok == (vx_ok1 || $it.index() > 0)
@fn binary::palette::create_palette
@props C01 C06
@req crate::spec_palette::frames_ok($1.vw())
@ens $r is Ok == crate::spec_palette::s_palette($0.transparent_index, $1.vw()) is Some
@ens $r is Ok ==> $r->Ok_0.colors@ == crate::spec_palette::s_palette($0.transparent_index, $1.vw())->Some_0
@entry proof { crate::spec_palette::l_pick_ok($1.vw()); }
broadcast use crate::vx::l_refs;
@closure 0
@ret std::vec::IntoIter<_>
@cbody let $a: &RawFrame<'_> = $a;
@cens crate::spec_palette::are_new($a, vxq)
@wrap crate::vx::vx_cf( $$ , Ghost(crate::spec_palette::picked(crate::spec_palette::sel_new())))
@closure 1
@ret Option<_>
@cbody let $a: &Chunk<'_> = $a;
@cens crate::spec_palette::is_new($a, vxq)
@wrap crate::vx::vx_c( $$ , Ghost(crate::spec_palette::sel_new()))
@closure 2
@ret std::vec::IntoIter<_>
@cbody let $a: &RawFrame<'_> = $a;
@cens crate::spec_palette::are_old4($a, vxq)
@wrap crate::vx::vx_cf( $$ , Ghost(crate::spec_palette::picked(crate::spec_palette::sel_old4())))
@closure 3
@ret Option<_>
@cbody let $a: &Chunk<'_> = $a;
@cens crate::spec_palette::is_old4($a, vxq)
@wrap crate::vx::vx_c( $$ , Ghost(crate::spec_palette::sel_old4()))
@closure 4
@ret std::vec::IntoIter<_>
@cbody let $a: &RawFrame<'_> = $a;
@cens crate::spec_palette::are_old11($a, vxq)
@wrap crate::vx::vx_cf( $$ , Ghost(crate::spec_palette::picked(crate::spec_palette::sel_old11())))
@closure 5
@ret Option<_>
@cbody let $a: &Chunk<'_> = $a;
@cens crate::spec_palette::is_old11($a, vxq)
@wrap crate::vx::vx_c( $$ , Ghost(crate::spec_palette::sel_old11()))
