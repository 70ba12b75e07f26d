// Header, frames and chunks.
@fn binary::header::parse_header
@props C01 C04 ~C05
@p crate::spec::p_header($0@)
@fn binary::chunk::parse_chunks
@props C01 C03
@p crate::vx::p_count(crate::spec::sp_chunk(), $1 as nat, $0@)
@fn binary::chunk::parse_chunk
@props C01 C03
@p crate::spec::p_chunk($0@)
@sp crate::spec::sp_chunk()
@fn binary::raw_frame::parse_frames
@props C01 C03
@p crate::vx::comb::p_all_consuming(crate::spec::sp_frame(), $0@)
@fn binary::raw_frame::parse_rawframe
@props C01 C03
@p crate::spec::p_frame($0@)
@sp crate::spec::sp_frame()
@ens[eof] $0@.len() < 4 && vxr is Err ==> vxr->Err_0 is Error
@fn binary::raw_file::parse_raw_file
@props C01 C03
@ens crate::spec::raw_match(crate::spec::p_raw_file($0@), vxr)
@fn binary::raw_frame::RawFrame::cels
@props C01 C03
@nclos 1
@entry broadcast use crate::vx::l_refs;
@ens crate::vx::vws(vxr.remaining()) == crate::vx::seq_filter_map(crate::vx::vws(self.chunks@), crate::spec::sel_cel())
@closure 0
@params $a: &crate::binary::chunk::Chunk<'_>
@ret Option<&CelChunk<'_>>
@cens vxq.vw() == crate::spec::sel_cel()($a.vw())
@wrap crate::vx::vx_c( $$ , Ghost(crate::spec::sel_cel()))
