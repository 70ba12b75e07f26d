// Chunk parsers.
@fn binary::chunks::cel::CelType::from<Word>
@props C05
@ens $r == crate::spec::cel_type_of($0)
@fn binary::chunks::cel::parse_cel_chunk
@props C01 C04 ~C05
@ens crate::spec::vmatch(crate::spec::p_cel($0@), vxr)
@fn binary::chunks::cel_extra::parse_cel_extra_chunk
@props C01 C04
@ens crate::spec::vmatch(crate::spec::p_cel_extra($0@), vxr)
@fn binary::chunks::color_profile::parse_color_profile
@props C01 C04 C05
@p crate::spec::p_color_profile($0@)
@fn binary::chunks::external_files::ExternalFileType::from<Byte>
@props C05
@ens $r == crate::spec::file_type_of($0)
@fn binary::chunks::external_files::parse_external_files_chunk
@props C01 C04 ~C05
@p crate::spec::p_external_files($0@)
@fn binary::chunks::external_files::parse_external_file
@props C01 C04 ~C05
@p crate::spec::p_external_file($0@)
@sp crate::spec::sp_external_file()
@fn binary::chunks::layer::LayerType::from<Word>
@props C05
@ens $r == crate::spec::layer_type_of($0)
@fn binary::chunks::layer::parse_layer_chunk
@props C01 C04 ~C05
@p crate::spec::p_layer($0@)
@fn binary::chunks::mask::parse_mask_chunk
@props C01 C04
@ens crate::spec::vmatch(crate::spec::p_mask($0@), vxr)
@fn binary::chunks::old_palette::parse_old_palette_chunk
@props C01 C04 C06
@p crate::spec::p_old_palette($0@)
@fn binary::chunks::old_palette::parse_packet
@props C01 C04 C06
@p crate::spec::p_old_packet($0@)
@sp crate::spec::sp_old_packet()
@fn binary::chunks::palette::parse_palette_chunk
@props C01 C04 C06
@p crate::spec::p_palette($0@)
@fn binary::chunks::palette::parse_palette_entry
@props C01 C04 C06
@p crate::spec::p_palette_entry($0@)
@sp crate::spec::sp_palette_entry()
@fn binary::chunks::slice::parse_slice_chunk
@props C01 C04 ~C05
@p crate::spec::p_slice($0@)
@fn binary::chunks::slice::parse_slice_key
@props C01 C04
@p crate::spec::p_slice_key(($1).vxbits & 1 == 1, ($1).vxbits & 2 == 2, $0@)
@sp crate::spec::sp_slice_key(($1).vxbits & 1 == 1, ($1).vxbits & 2 == 2)
@fn binary::chunks::slice::parse_nine_patch
@props C01 C04
@p crate::spec::p_nine_patch($0@)
@sp crate::spec::sp_nine_patch()
@fn binary::chunks::slice::parse_pivot
@props C01 C04
@p crate::spec::p_pivot($0@)
@sp crate::spec::sp_pivot()
@fn binary::chunks::tags::AnimationDirection::from<Byte>
@props C05
@ens $r == crate::spec::direction_of($0)
@fn binary::chunks::tags::parse_tags_chunk
@props C01 C04
@p crate::spec::p_tags($0@)
@fn binary::chunks::tags::parse_tag
@props C01 C04 ~C05
@p crate::spec::p_tag($0@)
@sp crate::spec::sp_tag()
@fn binary::chunks::tileset::parse_tileset_chunk
@props C01 C04 ~C05
@p crate::spec::p_tileset($0@)
@fn binary::chunks::tileset::parse_external_file
@props C01 C04
@p crate::spec::p_tileset_ext($0@)
@sp crate::spec::sp_tileset_ext()
@fn binary::chunks::tileset::parse_tiles
@props C01 C04
@p crate::spec::p_tiles($0@)
@sp crate::spec::sp_tiles()
@closure 0
@params data: &'_ [u8]
@ret TilesetTiles<'_>
@cens vxq == (TilesetTiles { data })
@wrap crate::vx::vx_g( $$ , Ghost(|data: Seq<u8>| TilesetTilesV { data }))
