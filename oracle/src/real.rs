//! Values of the real code as canonical values.
use crate::refp::{fixed as vfixed, CEL_EXTRA_FLAGS, TYPE_NAMES};
use crate::v::*;
use aseprite_loader::binary::blend_mode::BlendMode;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunk_type::ChunkType;
use aseprite_loader::binary::chunks::cel::*;
use aseprite_loader::binary::chunks::cel_extra::*;
use aseprite_loader::binary::chunks::color_profile::*;
use aseprite_loader::binary::chunks::external_files::*;
use aseprite_loader::binary::chunks::layer::*;
use aseprite_loader::binary::chunks::mask::*;
use aseprite_loader::binary::chunks::old_palette::*;
use aseprite_loader::binary::chunks::palette::*;
use aseprite_loader::binary::chunks::slice::*;
use aseprite_loader::binary::chunks::tags::*;
use aseprite_loader::binary::chunks::tileset::*;
use aseprite_loader::binary::chunks::user_data::*;
use aseprite_loader::binary::color_depth::ColorDepth;
use aseprite_loader::binary::file::File;
use aseprite_loader::binary::header::Header;
use aseprite_loader::binary::image::Image;
use aseprite_loader::binary::raw_frame::RawFrame;
use aseprite_loader::binary::scalars::*;
use aseprite_loader::loader::AsepriteFile;

pub fn fx(f: &Fixed) -> V {
    vfixed(f.0, f.1)
}
fn d(b: &[u8]) -> V {
    V::D(b.to_vec())
}
fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn point(p: &Point) -> V {
    V::R("point", vec![("x", n(p.x)), ("y", n(p.y))])
}
pub fn size(p: &Size) -> V {
    V::R("size", vec![("w", n(p.width)), ("h", n(p.height))])
}
pub fn rect(p: &Rect) -> V {
    V::R("rect", vec![("p", point(&p.point)), ("s", size(&p.size))])
}
pub fn color(c: &Color) -> V {
    V::R("color", vec![("r", n(c.red)), ("g", n(c.green)), ("b", n(c.blue)), ("a", n(c.alpha))])
}
pub fn rgb(c: &RGB) -> V {
    V::R("rgb", vec![("r", n(c.red)), ("g", n(c.green)), ("b", n(c.blue))])
}
pub fn depth(c: &ColorDepth) -> V {
    match c {
        ColorDepth::Rgba => V::Code(true, 32),
        ColorDepth::Grayscale => V::Code(true, 16),
        ColorDepth::Indexed => V::Code(true, 8),
        ColorDepth::Unknown(w) => V::Code(false, *w as u64),
    }
}
pub fn blend_mode(b: &BlendMode) -> V {
    let k = match b {
        BlendMode::Normal => 0,
        BlendMode::Multiply => 1,
        BlendMode::Screen => 2,
        BlendMode::Overlay => 3,
        BlendMode::Darken => 4,
        BlendMode::Lighten => 5,
        BlendMode::ColorDodge => 6,
        BlendMode::ColorBurn => 7,
        BlendMode::HardLight => 8,
        BlendMode::SoftLight => 9,
        BlendMode::Difference => 10,
        BlendMode::Exclusion => 11,
        BlendMode::Hue => 12,
        BlendMode::Saturation => 13,
        BlendMode::Color => 14,
        BlendMode::Luminosity => 15,
        BlendMode::Addition => 16,
        BlendMode::Subtract => 17,
        BlendMode::Divide => 18,
        BlendMode::Unknown(w) => return V::Code(false, *w as u64),
    };
    V::Code(true, k)
}
pub fn layer_type(t: &LayerType) -> V {
    match t {
        LayerType::Normal => V::Code(true, 0),
        LayerType::Group => V::Code(true, 1),
        LayerType::Tilemap => V::Code(true, 2),
        LayerType::Unknown(w) => V::Code(false, *w as u64),
    }
}
pub fn direction(t: &AnimationDirection) -> V {
    match t {
        AnimationDirection::Forward => V::Code(true, 0),
        AnimationDirection::Reverse => V::Code(true, 1),
        AnimationDirection::PingPong => V::Code(true, 2),
        AnimationDirection::PingPongReverse => V::Code(true, 3),
        AnimationDirection::Unknown(w) => V::Code(false, *w as u64),
    }
}
pub fn file_type(t: &ExternalFileType) -> V {
    match t {
        ExternalFileType::ExternalPalette => V::Code(true, 0),
        ExternalFileType::ExternalTileset => V::Code(true, 1),
        ExternalFileType::ExtensionNameForProperties => V::Code(true, 2),
        ExternalFileType::Unknown(w) => V::Code(false, *w as u64),
    }
}
pub fn chunk_type(t: &Result<ChunkType, u16>) -> V {
    let k = match t {
        Ok(ChunkType::Palette0004) => 0x0004,
        Ok(ChunkType::Palette0011) => 0x0011,
        Ok(ChunkType::Layer) => 0x2004,
        Ok(ChunkType::Cel) => 0x2005,
        Ok(ChunkType::CelExtra) => 0x2006,
        Ok(ChunkType::ColorProfile) => 0x2007,
        Ok(ChunkType::ExternalFile) => 0x2008,
        Ok(ChunkType::Mask) => 0x2016,
        Ok(ChunkType::Path) => 0x2017,
        Ok(ChunkType::Tags) => 0x2018,
        Ok(ChunkType::Palette) => 0x2019,
        Ok(ChunkType::UserData) => 0x2020,
        Ok(ChunkType::Slice) => 0x2022,
        Ok(ChunkType::Tileset) => 0x2023,
        Err(w) => return V::Code(false, *w as u64),
    };
    V::Code(true, k)
}
#[allow(deprecated)]
pub fn header(h: &Header) -> V {
    V::R(
        "header",
        vec![
            ("file_size", n(h.file_size)),
            ("frames", n(h.frames)),
            ("width", n(h.width)),
            ("height", n(h.height)),
            ("depth", depth(&h.color_depth)),
            ("flags", n(h.flags)),
            ("speed", n(h.speed)),
            ("transparent", n(h.transparent_index)),
            ("color_count", n(h.color_count)),
            ("pixel_width", n(h.pixel_width)),
            ("pixel_height", n(h.pixel_height)),
            ("grid_x", n(h.grid_x)),
            ("grid_y", n(h.grid_y)),
            ("grid_width", n(h.grid_width)),
            ("grid_height", n(h.grid_height)),
        ],
    )
}
fn ud(u: &Option<UserDataChunk<'_>>) -> V {
    opt(u.as_ref().map(user_data))
}
pub fn layer(l: &LayerChunk<'_>) -> V {
    let f = &l.flags;
    V::R(
        "layer",
        vec![
            (
                "flags",
                V::Flags(vec![
                    ("visible", f.contains(LayerFlags::VISIBLE)),
                    ("editable", f.contains(LayerFlags::EDITABLE)),
                    ("lock", f.contains(LayerFlags::LOCK_MOVEMENT)),
                    ("background", f.contains(LayerFlags::BACKGROUND)),
                    ("linked", f.contains(LayerFlags::PREFER_LINKED_CELS)),
                    ("collapsed", f.contains(LayerFlags::COLLAPSED)),
                    ("reference", f.contains(LayerFlags::REFERENCE)),
                ]),
            ),
            ("type", layer_type(&l.layer_type)),
            ("child_level", n(l.child_level)),
            ("blend_mode", blend_mode(&l.blend_mode)),
            ("opacity", n(l.opacity)),
            ("name", s(l.name)),
            ("tileset", opt(l.tileset_index.map(n))),
            ("user_data", ud(&l.user_data)),
        ],
    )
}
pub fn image(i: &Image<'_>) -> V {
    V::R("image", vec![("w", n(i.width)), ("h", n(i.height)), ("compressed", n(i.compressed)), ("data", d(i.data))])
}
pub fn cel(c: &CelChunk<'_>) -> V {
    let content = match &c.content {
        CelContent::Image(i) => image(i),
        CelContent::LinkedCel { frame_position } => V::R("link", vec![("frame", n(*frame_position))]),
        CelContent::CompressedTilemap {
            width,
            height,
            bits_per_tile,
            bitmask_tile_id,
            bitmask_x_flip,
            bitmask_y_flip,
            bitmask_diagonal_flip,
            data,
        } => V::R(
            "tilemap",
            vec![
                ("w", n(*width)),
                ("h", n(*height)),
                ("bits", n(*bits_per_tile)),
                ("id", n(*bitmask_tile_id)),
                ("x", n(*bitmask_x_flip)),
                ("y", n(*bitmask_y_flip)),
                ("d", n(*bitmask_diagonal_flip)),
                ("data", d(data)),
            ],
        ),
        CelContent::Unknown { cel_type, data } => V::R("unknown_cel", vec![("type", V::Code(false, *cel_type as u64)), ("data", d(data))]),
    };
    V::R(
        "cel",
        vec![
            ("layer", n(c.layer_index)),
            ("x", n(c.x)),
            ("y", n(c.y)),
            ("opacity", n(c.opacity)),
            ("z", n(c.z_index)),
            ("content", content),
            ("user_data", ud(&c.user_data)),
        ],
    )
}
pub fn cel_extra(c: &CelExtraChunk<'_>) -> V {
    V::R(
        "cel_extra",
        vec![
            ("flags", V::Flags(vec![(CEL_EXTRA_FLAGS[0].0, c.flags.contains(CelExtraFlags::PRECISE_BOUNDS_ARE_SET))])),
            ("x", fx(&c.precise_x_position)),
            ("y", fx(&c.precise_y_position)),
            ("w", fx(&c.width_of_the_cel)),
            ("h", fx(&c.height_of_the_cel)),
            ("future", d(c.future)),
        ],
    )
}
pub fn color_profile(c: &ColorProfileChunk<'_>) -> V {
    let (t, icc) = match &c.profile {
        ColorProfile::NoColorProfile => (V::Code(true, 0), None),
        ColorProfile::Srgb => (V::Code(true, 1), None),
        ColorProfile::EmbeddedICC(b) => (V::Code(true, 2), Some(d(b))),
        ColorProfile::Unknown(w) => (V::Code(false, *w as u64), None),
    };
    V::R("color_profile", vec![("type", t), ("gamma", opt(c.fixed_gamma.as_ref().map(fx))), ("icc", opt(icc))])
}
pub fn external_file(f: &ExternalFile<'_>) -> V {
    V::R("external_file", vec![("id", n(f.entry_id)), ("type", file_type(&f.file_type)), ("name", s(f.file_name))])
}
pub fn external_files(f: &ExternalFilesChunk<'_>) -> V {
    V::L(f.files.iter().map(external_file).collect())
}
pub fn mask(m: &MaskChunk<'_>) -> V {
    V::R("mask", vec![("x", n(m.x)), ("y", n(m.y)), ("w", n(m.width)), ("h", n(m.height)), ("name", s(m.name)), ("data", d(m.data))])
}
pub fn packet(p: &Packet) -> V {
    V::R("packet", vec![("skip", n(p.entries_to_skip)), ("colors", V::L(p.colors.iter().map(rgb).collect()))])
}
pub fn old_palette(p: &OldPaletteChunk) -> V {
    V::L(p.packets.iter().map(packet).collect())
}
pub fn palette_entry(e: &PaletteEntry<'_>) -> V {
    V::R("entry", vec![("color", color(&e.color)), ("name", opt(e.name.map(s)))])
}
pub fn palette(p: &PaletteChunk<'_>) -> V {
    V::R(
        "palette",
        vec![
            ("first", n(*p.indices.start())),
            ("last", n(*p.indices.end())),
            ("entries", V::L(p.entries.iter().map(palette_entry).collect())),
        ],
    )
}
pub fn nine(p: &NinePatch) -> V {
    V::R("nine", vec![("x", n(p.x)), ("y", n(p.y)), ("w", n(p.width)), ("h", n(p.height))])
}
pub fn pivot(p: &Pivot) -> V {
    V::R("pivot", vec![("x", n(p.x)), ("y", n(p.y))])
}
pub fn slice_key(k: &SliceKey) -> V {
    V::R(
        "key",
        vec![
            ("frame", n(k.frame_number)),
            ("x", n(k.x)),
            ("y", n(k.y)),
            ("w", n(k.width)),
            ("h", n(k.height)),
            ("nine", opt(k.nine_patch.as_ref().map(nine))),
            ("pivot", opt(k.pivot.as_ref().map(pivot))),
        ],
    )
}
pub fn slice(c: &SliceChunk<'_>) -> V {
    V::R(
        "slice",
        vec![
            ("name", s(c.name)),
            ("flags", V::Flags(vec![("nine", c.flags.contains(SliceFlags::NINE_PATCH)), ("pivot", c.flags.contains(SliceFlags::PIVOT))])),
            ("keys", V::L(c.slice_keys.iter().map(slice_key).collect())),
            ("user_data", ud(&c.user_data)),
        ],
    )
}
#[allow(deprecated)]
pub fn tag(t: &Tag<'_>) -> V {
    V::R(
        "tag",
        vec![
            ("from", n(*t.frames.start())),
            ("to", n(*t.frames.end())),
            ("direction", direction(&t.animation_direction)),
            ("repeat", n(t.animation_repeat)),
            ("color", d(&t.color)),
            ("name", s(t.name)),
            ("user_data", ud(&t.user_data)),
        ],
    )
}
pub fn tags(t: &TagsChunk<'_>) -> V {
    V::L(t.tags.iter().map(tag).collect())
}
pub fn tileset_ext(e: &TilesetExternalFile) -> V {
    V::R("ext", vec![("file", n(e.external_file_id)), ("tileset", n(e.tileset_id))])
}
pub fn tiles(t: &TilesetTiles<'_>) -> V {
    d(t.data)
}
pub fn tileset(t: &TilesetChunk<'_>) -> V {
    let f = &t.flags;
    V::R(
        "tileset",
        vec![
            ("id", n(t.id)),
            (
                "flags",
                V::Flags(vec![
                    ("external", f.contains(TilesetFlags::EXTERNAL_FILE)),
                    ("tiles", f.contains(TilesetFlags::TILES)),
                    ("zero", f.contains(TilesetFlags::TILE_0_EMPTY)),
                    ("x", f.contains(TilesetFlags::XFLIP)),
                    ("y", f.contains(TilesetFlags::YFLIP)),
                    ("d", f.contains(TilesetFlags::DFLIP)),
                ]),
            ),
            ("tiles_n", n(t.number_of_tiles)),
            ("w", n(t.width)),
            ("h", n(t.height)),
            ("base", n(t.base_index)),
            ("name", s(t.name)),
            ("ext", opt(t.external_file.as_ref().map(tileset_ext))),
            ("tiles", opt(t.tiles.as_ref().map(tiles))),
        ],
    )
}
fn tv(t: usize, v: V) -> V {
    V::R(TYPE_NAMES[t], vec![("v", v)])
}
fn uuid(u: &u128) -> V {
    d(&u.to_le_bytes())
}
pub fn value(v: &Value<'_>) -> V {
    match v {
        Value::Bool(x) => tv(1, n(*x)),
        Value::Int8(x) => tv(2, n(*x)),
        Value::Uint8(x) => tv(3, n(*x)),
        Value::Int16(x) => tv(4, n(*x)),
        Value::Uint16(x) => tv(5, n(*x)),
        Value::Int32(x) => tv(6, n(*x)),
        Value::Uint32(x) => tv(7, n(*x)),
        Value::Int64(x) => tv(8, n(*x)),
        Value::Uint64(x) => tv(9, n(*x)),
        Value::Fixed(x) => tv(10, fx(x)),
        Value::Float(x) => tv(11, n(x.to_bits())),
        Value::Double(x) => tv(12, n(x.to_bits())),
        Value::String(x) => tv(13, s(x)),
        Value::Point(x) => tv(14, point(x)),
        Value::Size(x) => tv(15, size(x)),
        Value::Rect(x) => tv(16, rect(x)),
        Value::Vector(x) => tv(17, vector(x)),
        Value::MixedVector(x) => tv(0, V::L(x.iter().map(value).collect())),
        Value::PropertiesMap(x) => tv(18, pmap(x)),
        Value::Uuid(x) => tv(19, uuid(x)),
    }
}
pub fn vector(v: &Vector<'_>) -> V {
    let (t, l): (u16, Vec<V>) = match v {
        Vector::Mixed(x) => (0, x.iter().map(value).collect()),
        Vector::Bool(x) => (1, x.iter().map(|x| n(*x)).collect()),
        Vector::Int8(x) => (2, x.iter().map(|x| n(*x)).collect()),
        Vector::Uint8(x) => (3, x.iter().map(|x| n(*x)).collect()),
        Vector::Int16(x) => (4, x.iter().map(|x| n(*x)).collect()),
        Vector::Uint16(x) => (5, x.iter().map(|x| n(*x)).collect()),
        Vector::Int32(x) => (6, x.iter().map(|x| n(*x)).collect()),
        Vector::Uint32(x) => (7, x.iter().map(|x| n(*x)).collect()),
        Vector::Int64(x) => (8, x.iter().map(|x| n(*x)).collect()),
        Vector::Uint64(x) => (9, x.iter().map(|x| n(*x)).collect()),
        Vector::Fixed(x) => (10, x.iter().map(fx).collect()),
        Vector::Float(x) => (11, x.iter().map(|x| n(x.to_bits())).collect()),
        Vector::Double(x) => (12, x.iter().map(|x| n(x.to_bits())).collect()),
        Vector::String(x) => (13, x.iter().map(|x| s(x)).collect()),
        Vector::Point(x) => (14, x.iter().map(point).collect()),
        Vector::Size(x) => (15, x.iter().map(size).collect()),
        Vector::Rect(x) => (16, x.iter().map(rect).collect()),
        Vector::Vector(x) => (17, x.iter().map(vector).collect()),
        Vector::PropertiesMap(x) => (18, x.iter().map(pmap).collect()),
        Vector::Uuid(x) => (19, x.iter().map(uuid).collect()),
    };
    V::R("vec", vec![("type", n(t)), ("items", V::L(l))])
}
pub fn property(p: &Property<'_>) -> V {
    V::R("prop", vec![("name", s(p.name)), ("value", value(&p.value))])
}
pub fn pmap(m: &PropertiesMap<'_>) -> V {
    V::R("pmap", vec![("id", n(m.extension_entry_id)), ("props", V::L(m.properties.iter().map(property).collect()))])
}
pub fn maps(m: &aseprite_loader::binary::errors::ParseResult<'_, Vec<PropertiesMap<'_>>>) -> V {
    match m {
        Ok((rest, v)) => V::R("maps", vec![("maps", V::L(v.iter().map(pmap).collect())), ("rest", n(rest.len() as u64))]),
        Err(_) => V::Err,
    }
}
pub fn user_data(u: &UserDataChunk<'_>) -> V {
    V::R(
        "user_data",
        vec![("text", opt(u.text.map(s))), ("color", opt(u.color.as_ref().map(color))), ("maps", opt(u.properties_maps.as_ref().map(maps)))],
    )
}
pub fn chunk(c: &Chunk<'_>) -> V {
    let (k, v) = match c {
        Chunk::Palette0004(x) => ("palette0004", old_palette(x)),
        Chunk::Palette0011(x) => ("palette0011", old_palette(x)),
        Chunk::Layer(x) => ("layer", layer(x)),
        Chunk::Cel(x) => ("cel", cel(x)),
        Chunk::CelExtra(x) => ("cel_extra", cel_extra(x)),
        Chunk::ColorProfile(x) => ("color_profile", color_profile(x)),
        Chunk::ExternalFiles(x) => ("external_files", external_files(x)),
        Chunk::Mask(x) => ("mask", mask(x)),
        Chunk::Path => ("path", V::None),
        Chunk::Tags(x) => ("tags", tags(x)),
        Chunk::Palette(x) => ("palette", palette(x)),
        Chunk::UserData(x) => ("user_data", user_data(x)),
        Chunk::Slice(x) => ("slice", slice(x)),
        Chunk::Tileset(x) => ("tileset", tileset(x)),
        Chunk::Unsupported(t) => ("unsupported", n(*t)),
    };
    V::R("chunk", vec![(k, v)])
}
pub fn raw_frame(f: &RawFrame<'_>) -> V {
    // `cels` gives the cel chunks in order
    let mut want = f.chunks.iter().filter(|c| matches!(c, Chunk::Cel(_)));
    let same = f.cels().all(|c| matches!(want.next(), Some(Chunk::Cel(x)) if std::ptr::eq(x, c)));
    if !same || want.next().is_some() {
        return V::S("RawFrame::cels differs from the cel chunks".into());
    }
    V::R("frame", vec![("duration", n(f.duration)), ("chunks", V::L(f.chunks.iter().map(chunk).collect()))])
}
pub fn file(f: &File<'_>) -> V {
    V::R(
        "file",
        vec![
            ("header", header(&f.header)),
            (
                "palette",
                opt(f.palette.as_ref().map(|p| V::D(p.colors.iter().flat_map(|c| [c.red, c.green, c.blue, c.alpha]).collect()))),
            ),
            ("layers", V::L(f.layers.iter().map(layer).collect())),
            (
                "frames",
                V::L(
                    f.frames
                        .iter()
                        .map(|f| V::R("frame", vec![("duration", n(f.duration)), ("cels", V::L(f.cels.iter().map(|c| opt(c.as_ref().map(cel))).collect()))]))
                        .collect(),
                ),
            ),
            ("tags", V::L(f.tags.iter().map(tag).collect())),
            ("slices", V::L(f.slices.iter().map(slice).collect())),
            ("user_data", ud(&f.user_data)),
        ],
    )
}
pub fn sprite(f: &AsepriteFile<'_>) -> V {
    let (w, h) = f.size();
    V::R(
        "sprite",
        vec![
            ("size", V::L(vec![n(w), n(h)])),
            (
                "layers",
                V::L(
                    f.layers()
                        .iter()
                        .map(|l| {
                            V::R(
                                "layer",
                                vec![
                                    ("name", s(&l.name)),
                                    ("opacity", n(l.opacity)),
                                    ("blend_mode", blend_mode(&l.blend_mode)),
                                    ("visible", n(l.visible)),
                                    ("type", layer_type(&l.layer_type)),
                                ],
                            )
                        })
                        .collect(),
                ),
            ),
            (
                "tags",
                V::L(
                    f.tags()
                        .iter()
                        .map(|t| {
                            V::R(
                                "tag",
                                vec![
                                    ("name", s(&t.name)),
                                    ("from", n(*t.range.start())),
                                    ("to", n(*t.range.end())),
                                    ("direction", direction(&t.direction)),
                                    ("repeat", opt(t.repeat.map(n))),
                                ],
                            )
                        })
                        .collect(),
                ),
            ),
            (
                "frames",
                V::L(
                    f.frames()
                        .iter()
                        .map(|f| {
                            V::R(
                                "frame",
                                vec![
                                    ("duration", n(f.duration)),
                                    ("origin", V::L(vec![n(f.origin.0), n(f.origin.1)])),
                                    (
                                        "cels",
                                        V::L(
                                            f.cels
                                                .iter()
                                                .map(|c| {
                                                    V::R(
                                                        "cel",
                                                        vec![
                                                            ("x", n(c.origin.0)),
                                                            ("y", n(c.origin.1)),
                                                            ("w", n(c.size.0)),
                                                            ("h", n(c.size.1)),
                                                            ("layer", n(c.layer_index as u64)),
                                                            ("image", n(c.image_index as u64)),
                                                        ],
                                                    )
                                                })
                                                .collect(),
                                        ),
                                    ),
                                ],
                            )
                        })
                        .collect(),
                ),
            ),
            ("image_count", n(f.image_count() as u64)),
            ("images", V::L(f.images.iter().map(image).collect())),
            ("slices", V::L(f.slices().iter().map(slice).collect())),
        ],
    )
}
