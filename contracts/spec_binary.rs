// Functional specification of the binary format, written from the Aseprite
// file format documentation: one partial function from bytes to values per
// structure, with explicit offsets.
pub mod spec {
use vstd::prelude::*;
use crate::vx::*;
use crate::vx::prim::*;
use crate::binary::scalars::*;
use crate::binary::header::Header;
use crate::binary::color_depth::ColorDepth;
use crate::binary::blend_mode::BlendMode;
use crate::binary::chunk_type::ChunkType;
use crate::binary::chunk::ChunkV;
use crate::binary::image::ImageV;
use crate::binary::raw_frame::RawFrameV;
use crate::binary::raw_file::RawFileV;
use crate::binary::chunks::cel::*;
use crate::binary::chunks::cel_extra::*;
use crate::binary::chunks::color_profile::*;
use crate::binary::chunks::external_files::*;
use crate::binary::chunks::layer::*;
use crate::binary::chunks::mask::*;
use crate::binary::chunks::old_palette::*;
use crate::binary::chunks::palette::*;
use crate::binary::chunks::slice::*;
use crate::binary::chunks::tags::*;
use crate::binary::chunks::tileset::{TilesetChunkV, TilesetFlags, TilesetExternalFile, TilesetTilesV};

// ------------------------------------------------------------- scalars ----
pub open spec fn p_point(i: Seq<u8>) -> Pv<Point> { if i.len() < 8 { None } else { Some((Point { x: i32_at(i, 0), y: i32_at(i, 4) }, sk(i, 8))) } }
pub open spec fn p_size(i: Seq<u8>) -> Pv<Size> { if i.len() < 8 { None } else { Some((Size { width: i32_at(i, 0), height: i32_at(i, 4) }, sk(i, 8))) } }
pub open spec fn p_rect(i: Seq<u8>) -> Pv<Rect> {
    if i.len() < 16 { None } else { Some((Rect { point: Point { x: i32_at(i, 0), y: i32_at(i, 4) }, size: Size { width: i32_at(i, 8), height: i32_at(i, 12) } }, sk(i, 16))) }
}
pub open spec fn p_color(i: Seq<u8>) -> Pv<Color> { if i.len() < 4 { None } else { Some((Color { red: i[0], green: i[1], blue: i[2], alpha: i[3] }, sk(i, 4))) } }
pub open spec fn p_rgb(i: Seq<u8>) -> Pv<RGB> { if i.len() < 3 { None } else { Some((RGB { red: i[0], green: i[1], blue: i[2] }, sk(i, 3))) } }
/// 16.16 fixed point number: integer part and fraction.
pub open spec fn fixed_at(i: Seq<u8>, o: int) -> Fixed { Fixed(u16_at(i, o + 2), u16_at(i, o)) }
pub open spec fn p_fixed(i: Seq<u8>) -> Pv<Fixed> { if i.len() < 4 { None } else { Some((fixed_at(i, 0), sk(i, 4))) } }
pub open spec fn p_usize(i: Seq<u8>) -> Pv<usize> { if i.len() < 4 { None } else { Some((u32_at(i, 0) as usize, sk(i, 4))) } }
pub open spec fn p_small(i: Seq<u8>) -> Pv<u8> { if i.len() < 4 || u32_at(i, 0) > 255 { None } else { Some((u32_at(i, 0) as u8, sk(i, 4))) } }
/// Size field which includes itself.
pub open spec fn p_own_size(i: Seq<u8>) -> Pv<u32> { if i.len() < 4 || u32_at(i, 0) < 4 { None } else { Some((u32_at(i, 0), sk(i, 4))) } }
pub open spec fn p_string(i: Seq<u8>) -> Pv<Seq<char>> {
    if i.len() < 2 || i.len() < 2 + u16_at(i, 0) { None } else {
        let e = 2 + u16_at(i, 0) as int;
        if utf8_valid(sbs(i, 2, e)) { Some((utf8_str(sbs(i, 2, e)), sk(i, e))) } else { None }
    }
}
/// DWORD length followed by as many bytes.
pub open spec fn p_blob(i: Seq<u8>) -> Pv<Seq<u8>> {
    if i.len() < 4 || i.len() < 4 + u32_at(i, 0) { None } else { let e = 4 + u32_at(i, 0) as int; Some((sbs(i, 4, e), sk(i, e))) }
}
pub open spec fn opt<W>(b: bool, p: Pv<W>, i: Seq<u8>) -> Pv<Option<W>> {
    if b { match p { Some((v, r)) => Some((Some(v), r)), None => None } } else { Some((None, i)) }
}
pub open spec fn p_bool(i: Seq<u8>) -> Pv<bool> { if i.len() < 1 { None } else { Some((i[0] != 0, sk(i, 1))) } }
pub open spec fn sp_bool() -> Sp<bool> { |i: Seq<u8>| p_bool(i) }
pub open spec fn sp_point() -> Sp<Point> { |i: Seq<u8>| p_point(i) }
pub open spec fn sp_size() -> Sp<Size> { |i: Seq<u8>| p_size(i) }
pub open spec fn sp_rect() -> Sp<Rect> { |i: Seq<u8>| p_rect(i) }
pub open spec fn sp_color() -> Sp<Color> { |i: Seq<u8>| p_color(i) }
pub open spec fn sp_rgb() -> Sp<RGB> { |i: Seq<u8>| p_rgb(i) }
pub open spec fn sp_fixed() -> Sp<Fixed> { |i: Seq<u8>| p_fixed(i) }
pub open spec fn sp_usize() -> Sp<usize> { |i: Seq<u8>| p_usize(i) }
pub open spec fn sp_string() -> Sp<Seq<char>> { |i: Seq<u8>| p_string(i) }

// -------------------------------------------------------- code tables ----
pub open spec fn color_depth_of(w: u16) -> ColorDepth { if w == 32 { ColorDepth::Rgba } else if w == 16 { ColorDepth::Grayscale } else if w == 8 { ColorDepth::Indexed } else { ColorDepth::Unknown(w) } }
pub open spec fn blend_mode_of(w: u16) -> BlendMode {
    if w == 0 { BlendMode::Normal } else if w == 1 { BlendMode::Multiply } else if w == 2 { BlendMode::Screen } else if w == 3 { BlendMode::Overlay }
    else if w == 4 { BlendMode::Darken } else if w == 5 { BlendMode::Lighten } else if w == 6 { BlendMode::ColorDodge } else if w == 7 { BlendMode::ColorBurn }
    else if w == 8 { BlendMode::HardLight } else if w == 9 { BlendMode::SoftLight } else if w == 10 { BlendMode::Difference } else if w == 11 { BlendMode::Exclusion }
    else if w == 12 { BlendMode::Hue } else if w == 13 { BlendMode::Saturation } else if w == 14 { BlendMode::Color } else if w == 15 { BlendMode::Luminosity }
    else if w == 16 { BlendMode::Addition } else if w == 17 { BlendMode::Subtract } else if w == 18 { BlendMode::Divide } else { BlendMode::Unknown(w) }
}
pub open spec fn layer_type_of(w: u16) -> LayerType { if w == 0 { LayerType::Normal } else if w == 1 { LayerType::Group } else if w == 2 { LayerType::Tilemap } else { LayerType::Unknown(w) } }
pub open spec fn cel_type_of(w: u16) -> CelType { if w == 0 { CelType::RawImageData } else if w == 1 { CelType::LinkedCel } else if w == 2 { CelType::CompressedImage } else if w == 3 { CelType::CompressedTilemap } else { CelType::Unknown(w) } }
pub open spec fn direction_of(b: u8) -> AnimationDirection { if b == 0 { AnimationDirection::Forward } else if b == 1 { AnimationDirection::Reverse } else if b == 2 { AnimationDirection::PingPong } else if b == 3 { AnimationDirection::PingPongReverse } else { AnimationDirection::Unknown(b) } }
pub open spec fn file_type_of(b: u8) -> ExternalFileType { if b == 0 { ExternalFileType::ExternalPalette } else if b == 1 { ExternalFileType::ExternalTileset } else if b == 2 { ExternalFileType::ExtensionNameForProperties } else { ExternalFileType::Unknown(b) } }
pub open spec fn chunk_type_of(w: u16) -> Result<ChunkType, u16> {
    if w == 0x0004 { Ok(ChunkType::Palette0004) } else if w == 0x0011 { Ok(ChunkType::Palette0011) } else if w == 0x2004 { Ok(ChunkType::Layer) }
    else if w == 0x2005 { Ok(ChunkType::Cel) } else if w == 0x2006 { Ok(ChunkType::CelExtra) } else if w == 0x2007 { Ok(ChunkType::ColorProfile) }
    else if w == 0x2008 { Ok(ChunkType::ExternalFile) } else if w == 0x2016 { Ok(ChunkType::Mask) } else if w == 0x2017 { Ok(ChunkType::Path) }
    else if w == 0x2018 { Ok(ChunkType::Tags) } else if w == 0x2019 { Ok(ChunkType::Palette) } else if w == 0x2020 { Ok(ChunkType::UserData) }
    else if w == 0x2022 { Ok(ChunkType::Slice) } else if w == 0x2023 { Ok(ChunkType::Tileset) } else { Err(w) }
}

pub open spec fn pixel_size(d: ColorDepth) -> Option<usize> { match d { ColorDepth::Rgba => Some(4), ColorDepth::Grayscale => Some(2), ColorDepth::Indexed => Some(1), ColorDepth::Unknown(_) => None } }
pub open spec fn p_color_depth(i: Seq<u8>) -> Pv<ColorDepth> { if i.len() < 2 { None } else { Some((color_depth_of(u16_at(i, 0)), sk(i, 2))) } }
pub open spec fn p_blend_mode(i: Seq<u8>) -> Pv<BlendMode> { if i.len() < 2 { None } else { Some((blend_mode_of(u16_at(i, 0)), sk(i, 2))) } }
pub open spec fn p_chunk_type(i: Seq<u8>) -> Pv<Result<ChunkType, u16>> { if i.len() < 2 { None } else { Some((chunk_type_of(u16_at(i, 0)), sk(i, 2))) } }
// -------------------------------------------------------------- header ----
pub open spec fn zeros8(i: Seq<u8>, a: int) -> bool { i[a] == 0 && i[a + 1] == 0 && i[a + 2] == 0 && i[a + 3] == 0 && i[a + 4] == 0 && i[a + 5] == 0 && i[a + 6] == 0 && i[a + 7] == 0 }
pub open spec fn p_header(i: Seq<u8>) -> Pv<Header> {
    if i.len() < 128 || !(i[4] == 0xE0 && i[5] == 0xA5) || !zeros8(i, 20) { None } else {
        Some((Header {
            file_size: u32_at(i, 0), frames: u16_at(i, 6), width: u16_at(i, 8), height: u16_at(i, 10),
            color_depth: color_depth_of(u16_at(i, 12)), flags: u32_at(i, 14), speed: u16_at(i, 18),
            transparent_index: i[28], color_count: u16_at(i, 32), pixel_width: i[34], pixel_height: i[35],
            grid_x: i16_at(i, 36), grid_y: i16_at(i, 38), grid_width: u16_at(i, 40), grid_height: u16_at(i, 42),
        }, sk(i, 128)))
    }
}
// -------------------------------------------------------------- chunks ----
pub open spec fn p_old_packet(i: Seq<u8>) -> Pv<PacketV> {
    if i.len() < 2 { None } else {
        let n = if i[1] == 0 { 256nat } else { i[1] as nat };
        match p_count(sp_rgb(), n, sk(i, 2)) { None => None, Some((cs, r)) => Some((PacketV { entries_to_skip: i[0], colors: cs }, r)) }
    }
}
pub open spec fn sp_old_packet() -> Sp<PacketV> { |i: Seq<u8>| p_old_packet(i) }
pub open spec fn p_old_palette(i: Seq<u8>) -> Pv<OldPaletteChunkV> {
    if i.len() < 2 { None } else { match p_count(sp_old_packet(), u16_at(i, 0) as nat, sk(i, 2)) { None => None, Some((ps, r)) => Some((OldPaletteChunkV { packets: ps }, r)) } }
}
pub open spec fn p_layer(i: Seq<u8>) -> Pv<LayerChunkV> {
    if i.len() < 16 { None } else {
        match p_string(sk(i, 16)) {
            None => None,
            Some((name, r)) => match opt(u16_at(i, 2) == 2, p_u32(r), r) {
                None => None,
                Some((t, r)) => Some((LayerChunkV {
                    flags: LayerFlags { vxbits: u16_at(i, 0) & 0x7f }, layer_type: layer_type_of(u16_at(i, 2)), child_level: u16_at(i, 4),
                    blend_mode: blend_mode_of(u16_at(i, 10)), opacity: i[12], name, tileset_index: t, user_data: None,
                }, r)),
            },
        }
    }
}
pub open spec fn p_cel_content(t: u16, i: Seq<u8>) -> Option<CelContentV> {
    if t == 0 || t == 2 {
        if i.len() < 4 { None } else { Some(CelContentV::Image(ImageV { width: u16_at(i, 0), height: u16_at(i, 2), data: sk(i, 4), compressed: t == 2 })) }
    } else if t == 1 {
        if i.len() < 2 { None } else { Some(CelContentV::LinkedCel { frame_position: u16_at(i, 0) }) }
    } else if t == 3 {
        if i.len() < 32 { None } else { Some(CelContentV::CompressedTilemap {
            width: u16_at(i, 0), height: u16_at(i, 2), bits_per_tile: u16_at(i, 4), bitmask_tile_id: u32_at(i, 6), bitmask_x_flip: u32_at(i, 10),
            bitmask_y_flip: u32_at(i, 14), bitmask_diagonal_flip: u32_at(i, 18), data: sk(i, 32) }) }
    } else { Some(CelContentV::Unknown { cel_type: t, data: i }) }
}
pub open spec fn p_cel(i: Seq<u8>) -> Option<CelChunkV> {
    if i.len() < 16 { None } else {
        match p_cel_content(u16_at(i, 7), sk(i, 16)) {
            None => None,
            Some(content) => Some(CelChunkV { layer_index: u16_at(i, 0), x: i16_at(i, 2), y: i16_at(i, 4), opacity: i[6], z_index: i16_at(i, 9), content, user_data: None }),
        }
    }
}
/// Value of a structure which extends to the end of the input.
pub open spec fn vmatch<'a, O: Vw>(o: Option<O::W>, r: PR<'a, O>) -> bool {
    match r { Ok((rest, v)) => o == Some(v.vw()), Err(e) => o is None && !(e is Incomplete) }
}
pub open spec fn p_cel_extra(i: Seq<u8>) -> Option<CelExtraChunkV> {
    if i.len() < 20 { None } else { Some(CelExtraChunkV { flags: CelExtraFlags { vxbits: u32_at(i, 0) & 1 }, precise_x_position: fixed_at(i, 4), precise_y_position: fixed_at(i, 8),
        width_of_the_cel: fixed_at(i, 12), height_of_the_cel: fixed_at(i, 16), future: sk(i, 20) }) }
}
pub open spec fn p_profile(t: u16, i: Seq<u8>) -> Pv<ColorProfileV> {
    if t == 0 { Some((ColorProfileV::NoColorProfile, i)) } else if t == 1 { Some((ColorProfileV::Srgb, i)) }
    else if t == 2 { match p_blob(i) { Some((d, r)) => Some((ColorProfileV::EmbeddedICC(d), r)), None => None } }
    else { Some((ColorProfileV::Unknown(t), i)) }
}
pub open spec fn p_color_profile(i: Seq<u8>) -> Pv<ColorProfileChunkV> {
    if i.len() < 16 { None } else {
        match p_profile(u16_at(i, 0), sk(i, 16)) {
            None => None,
            Some((profile, r)) => Some((ColorProfileChunkV { fixed_gamma: if u16_at(i, 2) & 1 == 1 { Some(fixed_at(i, 4)) } else { None }, profile }, r)),
        }
    }
}
pub open spec fn p_external_file(i: Seq<u8>) -> Pv<ExternalFileV> {
    if i.len() < 12 { None } else { match p_string(sk(i, 12)) { None => None,
        Some((n, r)) => Some((ExternalFileV { entry_id: u32_at(i, 0), file_type: file_type_of(i[4]), file_name: n }, r)) } }
}
pub open spec fn sp_external_file() -> Sp<ExternalFileV> { |i: Seq<u8>| p_external_file(i) }
pub open spec fn p_external_files(i: Seq<u8>) -> Pv<ExternalFilesChunkV> {
    if i.len() < 12 { None } else { match p_count(sp_external_file(), u32_at(i, 0) as nat, sk(i, 12)) { None => None, Some((files, r)) => Some((ExternalFilesChunkV { files }, r)) } }
}
pub open spec fn p_mask(i: Seq<u8>) -> Option<MaskChunkV> {
    if i.len() < 16 { None } else { match p_string(sk(i, 16)) { None => None,
        Some((name, r)) => Some(MaskChunkV { x: i16_at(i, 0), y: i16_at(i, 2), width: u16_at(i, 4), height: u16_at(i, 6), name, data: r }) } }
}
pub open spec fn p_palette_entry(i: Seq<u8>) -> Pv<PaletteEntryV> {
    if i.len() < 6 { None } else {
        match opt(u16_at(i, 0) & 1 == 1, p_string(sk(i, 6)), sk(i, 6)) { None => None,
            Some((name, r)) => Some((PaletteEntryV { color: Color { red: i[2], green: i[3], blue: i[4], alpha: i[5] }, name }, r)) }
    }
}
pub open spec fn sp_palette_entry() -> Sp<PaletteEntryV> { |i: Seq<u8>| p_palette_entry(i) }
pub open spec fn p_palette(i: Seq<u8>) -> Pv<PaletteChunkV> {
    if i.len() < 20 || u32_at(i, 8) > 255 || u32_at(i, 4) > u32_at(i, 8) { None } else {
        match p_count(sp_palette_entry(), (u32_at(i, 8) - u32_at(i, 4) + 1) as nat, sk(i, 20)) { None => None,
            Some((entries, r)) => Some((PaletteChunkV { indices: (u32_at(i, 4) as u8, u32_at(i, 8) as u8, false), entries }, r)) }
    }
}
pub open spec fn p_nine_patch(i: Seq<u8>) -> Pv<NinePatch> { if i.len() < 16 { None } else { Some((NinePatch { x: i32_at(i, 0), y: i32_at(i, 4), width: u32_at(i, 8), height: u32_at(i, 12) }, sk(i, 16))) } }
pub open spec fn p_pivot(i: Seq<u8>) -> Pv<Pivot> { if i.len() < 8 { None } else { Some((Pivot { x: i32_at(i, 0), y: i32_at(i, 4) }, sk(i, 8))) } }
pub open spec fn sp_nine_patch() -> Sp<NinePatch> { |i: Seq<u8>| p_nine_patch(i) }
pub open spec fn sp_pivot() -> Sp<Pivot> { |i: Seq<u8>| p_pivot(i) }
pub open spec fn p_slice_key(nine: bool, pivot: bool, i: Seq<u8>) -> Pv<SliceKey> {
    if i.len() < 20 { None } else {
        match opt(nine, p_nine_patch(sk(i, 20)), sk(i, 20)) { None => None, Some((np, r)) =>
            match opt(pivot, p_pivot(r), r) { None => None, Some((pv, r2)) =>
                Some((SliceKey { frame_number: u32_at(i, 0), x: i32_at(i, 4), y: i32_at(i, 8), width: u32_at(i, 12), height: u32_at(i, 16), nine_patch: np, pivot: pv }, r2)) } }
    }
}
pub open spec fn sp_slice_key(nine: bool, pivot: bool) -> Sp<SliceKey> { |i: Seq<u8>| p_slice_key(nine, pivot, i) }
pub open spec fn p_slice(i: Seq<u8>) -> Pv<SliceChunkV> {
    if i.len() < 12 { None } else {
        match p_string(sk(i, 12)) { None => None, Some((name, r)) =>
            match p_count(sp_slice_key(u32_at(i, 4) & 1 == 1, u32_at(i, 4) & 2 == 2), u32_at(i, 0) as nat, r) { None => None, Some((ks, r2)) =>
                Some((SliceChunkV { name, flags: SliceFlags { vxbits: u32_at(i, 4) & 3 }, slice_keys: ks, user_data: None }, r2)) } }
    }
}
pub open spec fn p_tag(i: Seq<u8>) -> Pv<TagV> {
    if i.len() < 17 || u16_at(i, 0) > u16_at(i, 2) { None } else {
        match p_string(sk(i, 17)) { None => None, Some((name, r)) =>
            Some((TagV { frames: (u16_at(i, 0), u16_at(i, 2), false), animation_direction: direction_of(i[4]), animation_repeat: u16_at(i, 5), color: seq![i[13], i[14], i[15]], name, user_data: None }, r)) }
    }
}
pub open spec fn sp_tag() -> Sp<TagV> { |i: Seq<u8>| p_tag(i) }
pub open spec fn p_tags(i: Seq<u8>) -> Pv<TagsChunkV> {
    if i.len() < 10 { None } else { match p_count(sp_tag(), u16_at(i, 0) as nat, sk(i, 10)) { None => None, Some((tags, r)) => Some((TagsChunkV { tags }, r)) } }
}
pub open spec fn p_tileset_ext(i: Seq<u8>) -> Pv<TilesetExternalFile> { if i.len() < 8 { None } else { Some((TilesetExternalFile { external_file_id: u32_at(i, 0), tileset_id: u32_at(i, 4) }, sk(i, 8))) } }
pub open spec fn p_tiles(i: Seq<u8>) -> Pv<TilesetTilesV> { match p_blob(i) { Some((data, r)) => Some((TilesetTilesV { data }, r)), None => None } }
pub open spec fn sp_tileset_ext() -> Sp<TilesetExternalFile> { |i: Seq<u8>| p_tileset_ext(i) }
pub open spec fn sp_tiles() -> Sp<TilesetTilesV> { |i: Seq<u8>| p_tiles(i) }
pub open spec fn p_tileset(i: Seq<u8>) -> Pv<TilesetChunkV> {
    if i.len() < 32 { None } else {
        match p_string(sk(i, 32)) { None => None, Some((name, r)) =>
            match opt(u32_at(i, 4) & 1 == 1, p_tileset_ext(r), r) { None => None, Some((external_file, r2)) =>
                match opt(u32_at(i, 4) & 2 == 2, p_tiles(r2), r2) { None => None, Some((tiles, r3)) =>
                    Some((TilesetChunkV { id: u32_at(i, 0), flags: TilesetFlags { vxbits: u32_at(i, 4) & 63 }, number_of_tiles: u32_at(i, 8), width: u16_at(i, 12), height: u16_at(i, 14),
                        base_index: i16_at(i, 16), name, external_file, tiles }, r3)) } } }
    }
}
// -------------------------------------------------- framing of chunks ----
pub open spec fn mapc<W>(p: Pv<W>, f: spec_fn(W) -> ChunkV) -> Option<ChunkV> { match p { Some((v, _)) => Some(f(v)), None => None } }
pub open spec fn mapo<W>(p: Option<W>, f: spec_fn(W) -> ChunkV) -> Option<ChunkV> { match p { Some(v) => Some(f(v)), None => None } }
/// Content of a chunk of type `t`. It only depends on the bytes of the chunk.
pub open spec fn chunk_value(t: u16, d: Seq<u8>) -> Option<ChunkV> {
    if t == 0x0004 { mapc(p_old_palette(d), |v: OldPaletteChunkV| ChunkV::Palette0004(v)) }
    else if t == 0x0011 { mapc(p_old_palette(d), |v: OldPaletteChunkV| ChunkV::Palette0011(v)) }
    else if t == 0x2004 { mapc(p_layer(d), |v: LayerChunkV| ChunkV::Layer(v)) }
    else if t == 0x2005 { mapo(p_cel(d), |v: CelChunkV| ChunkV::Cel(v)) }
    else if t == 0x2006 { mapo(p_cel_extra(d), |v: CelExtraChunkV| ChunkV::CelExtra(v)) }
    else if t == 0x2007 { mapc(p_color_profile(d), |v: ColorProfileChunkV| ChunkV::ColorProfile(v)) }
    else if t == 0x2008 { mapc(p_external_files(d), |v: ExternalFilesChunkV| ChunkV::ExternalFiles(v)) }
    else if t == 0x2016 { mapo(p_mask(d), |v: MaskChunkV| ChunkV::Mask(v)) }
    else if t == 0x2017 { Some(ChunkV::Path) }
    else if t == 0x2018 { mapc(p_tags(d), |v: TagsChunkV| ChunkV::Tags(v)) }
    else if t == 0x2019 { mapc(p_palette(d), |v: PaletteChunkV| ChunkV::Palette(v)) }
    else if t == 0x2020 { mapc(crate::spec_ud::p_user_data(d), |v: crate::binary::chunks::user_data::UserDataChunkV| ChunkV::UserData(v)) }
    else if t == 0x2022 { mapc(p_slice(d), |v: SliceChunkV| ChunkV::Slice(v)) }
    else if t == 0x2023 { mapc(p_tileset(d), |v: TilesetChunkV| ChunkV::Tileset(v)) }
    else { Some(ChunkV::Unsupported(t)) }
}
pub open spec fn p_chunk(i: Seq<u8>) -> Pv<ChunkV> {
    if i.len() < 6 || u32_at(i, 0) < 6 || i.len() < u32_at(i, 0) { None } else {
        let n = u32_at(i, 0) as int;
        match chunk_value(u16_at(i, 4), sbs(i, 6, n)) { None => None, Some(c) => Some((c, sk(i, n))) }
    }
}
pub open spec fn sp_chunk() -> Sp<ChunkV> { |i: Seq<u8>| p_chunk(i) }
pub open spec fn p_frame(i: Seq<u8>) -> Pv<RawFrameV> {
    if i.len() < 16 || u32_at(i, 0) < 16 || i.len() < u32_at(i, 0) || !(i[4] == 0xFA && i[5] == 0xF1) { None } else {
        let n = u32_at(i, 0) as int;
        let chunks = if u32_at(i, 12) == 0 { u16_at(i, 6) as nat } else { u32_at(i, 12) as nat };
        match p_count(sp_chunk(), chunks, sbs(i, 16, n)) { None => None, Some((cs, _)) => Some((RawFrameV { duration: u16_at(i, 8), chunks: cs }, sk(i, n))) }
    }
}
pub open spec fn sel_cel() -> spec_fn(ChunkV) -> Option<CelChunkV> { |c: ChunkV| match c { ChunkV::Cel(x) => Some(x), _ => None } }
pub open spec fn sp_frame() -> Sp<RawFrameV> { |i: Seq<u8>| p_frame(i) }
pub open spec fn p_frames(i: Seq<u8>) -> Pv<Seq<RawFrameV>> { p_all_consuming_frames(i) }
pub open spec fn p_all_consuming_frames(i: Seq<u8>) -> Pv<Seq<RawFrameV>> { match p_all(sp_frame(), i) { Some(v) => Some((v, Seq::empty())), None => None } }
pub open spec fn raw_match<'a, O: Vw>(o: Option<O::W>, r: Result<O, nom::Err<crate::binary::errors::ParseError<'a>>>) -> bool {
    match r { Ok(v) => o == Some(v.vw()), Err(e) => o is None && !(e is Incomplete) }
}
pub open spec fn p_raw_file(i: Seq<u8>) -> Option<RawFileV> {
    match p_header(i) { None => None, Some((header, r)) => match p_all(sp_frame(), r) { None => None, Some(frames) => Some(RawFileV { header, frames }) } }
}
}
