// Scalar parsers.
@fn binary::scalars::byte
@props C01 C04
@p crate::vx::prim::p_u8($0@)
@sp crate::vx::prim::sp_u8()
@ens[eof] crate::vx::prim::perr($0, vxr)
@fn binary::scalars::word
@props C01 C04
@p crate::vx::prim::p_u16($0@)
@sp crate::vx::prim::sp_u16()
@ens[eof] crate::vx::prim::perr($0, vxr)
@fn binary::scalars::short
@props C01 C04
@p crate::vx::prim::p_i16($0@)
@sp crate::vx::prim::sp_i16()
@ens[eof] crate::vx::prim::perr($0, vxr)
@fn binary::scalars::dword
@props C01 C04
@p crate::vx::prim::p_u32($0@)
@sp crate::vx::prim::sp_u32()
@ens[eof] crate::vx::prim::perr($0, vxr)
@fn binary::scalars::long
@props C01 C04
@p crate::vx::prim::p_i32($0@)
@sp crate::vx::prim::sp_i32()
@ens[eof] crate::vx::prim::perr($0, vxr)
@fn binary::scalars::parse_point
@props C01 C04 C08
@p crate::spec::p_point($0@)
@sp crate::spec::sp_point()
@fn binary::scalars::parse_size
@props C01 C04 C08
@p crate::spec::p_size($0@)
@sp crate::spec::sp_size()
@fn binary::scalars::parse_rect
@props C01 C04 C08
@p crate::spec::p_rect($0@)
@sp crate::spec::sp_rect()
@fn binary::scalars::dword_size
@props C01 C03
@req forall|s: u32| call_requires($1, (s,))
@p crate::spec::p_own_size($0@)
@ens[eof] $0@.len() < 4 && vxr is Err ==> vxr->Err_0 is Error
@fn binary::scalars::parse_dword_as_usize
@props C01 C03
@p crate::spec::p_usize($0@)
@sp crate::spec::sp_usize()
@closure 0
@ret nom::Err<ParseError<'_>>
@cens vxq is Failure
@fn binary::scalars::parse_dword_as_u8
@props C01 C06
@p crate::spec::p_small($0@)
@closure 0
@ret nom::Err<ParseError<'_>>
@cens vxq is Failure
@fn binary::scalars::parse_string
@props C01 C04
@p crate::spec::p_string($0@)
@sp crate::spec::sp_string()
@fn binary::scalars::parse_uuid
@props C01 C08
@p crate::vx::prim::p_u128($0@)
@sp crate::vx::prim::sp_u128()
@fn binary::scalars::fixed
@props C01 C04 C08
@p crate::spec::p_fixed($0@)
@sp crate::spec::sp_fixed()
@fn binary::scalars::parse_color
@props C01 C04 C06
@p crate::spec::p_color($0@)
@sp crate::spec::sp_color()
@fn binary::scalars::parse_rgb
@props C01 C04 C06
@p crate::spec::p_rgb($0@)
@sp crate::spec::sp_rgb()
