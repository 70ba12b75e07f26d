// Code tables.
@fn binary::color_depth::ColorDepth::bpp
@props C05
@ens match *self { ColorDepth::Rgba => vxr == 32, ColorDepth::Grayscale => vxr == 16, ColorDepth::Indexed => vxr == 8, ColorDepth::Unknown(n) => vxr == n }
@fn binary::color_depth::ColorDepth::pixel_size
@props C05 C10
@ens vxr == crate::spec::pixel_size(*self)
@fn binary::color_depth::ColorDepth::from<Word>
@props C05
@ens $r == crate::spec::color_depth_of($0)
@fn binary::color_depth::parse_color_depth
@props C01 C05
@p crate::spec::p_color_depth($0@)
@fn binary::blend_mode::BlendMode::from<Word>
@props C05
@ens $r == crate::spec::blend_mode_of($0)
@fn binary::blend_mode::parse_blend_mode
@props C01 C05
@p crate::spec::p_blend_mode($0@)
@fn binary::chunk_type::parse_chunk_type
@props C01 C03 C05
@p crate::spec::p_chunk_type($0@)
@closure 0
@params n: u16
@ret Result<ChunkType, u16>
@cens vxq == crate::spec::chunk_type_of(n)
@wrap crate::vx::vx_g( $$ , Ghost(|n: u16| crate::spec::chunk_type_of(n)))
