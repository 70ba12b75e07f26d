//! A case is a kind, numbers and bytes. Running it compares the real code
//! with the reference and returns the violated properties.
use crate::gen::G;
use crate::real;
use crate::refb;
use crate::refl::{self, get, list, num, Sel};
use crate::refp::{self, Cur};
use crate::v::*;
use aseprite_loader::binary as rb;
use aseprite_loader::binary::errors::ParseResult;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: String,
    pub params: Vec<i64>,
    pub data: Vec<u8>,
}
impl Case {
    pub fn new(kind: &str, params: Vec<i64>, data: Vec<u8>) -> Case {
        Case { kind: kind.to_string(), params, data }
    }
    pub fn text(&self) -> String {
        let p: Vec<String> = self.params.iter().map(|x| x.to_string()).collect();
        let h: String = self.data.iter().map(|b| format!("{:02x}", b)).collect();
        format!("kind {}\nparams {}\ndata {}\n", self.kind, p.join(" "), h)
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("kind ") {
                c.kind = x.trim().to_string();
            } else if let Some(x) = l.strip_prefix("params ") {
                c.params = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            } else if let Some(x) = l.strip_prefix("data ") {
                let x = x.trim();
                c.data = (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[i * 2..i * 2 + 2], 16).ok()).collect();
            }
        }
        if c.kind.is_empty() {
            None
        } else {
            Some(c)
        }
    }
}
/// (property, what is wrong)
pub type Bad = Vec<(&'static str, String)>;
#[derive(Default, Clone, Copy)]
pub struct Stat {
    /// the reference accepts the input
    pub valid: bool,
}

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

type RefF = fn(&mut Cur<'_>) -> Option<V>;
/// Real result: Ok(value, remaining bytes) or Err. `None`: rest not compared.
fn rr<'a, T>(r: ParseResult<'a, T>, f: impl Fn(&T) -> V) -> Option<(V, usize)> {
    match r {
        Ok((rest, v)) => Some((f(&v), rest.len())),
        Err(_) => None,
    }
}
fn rstr(x: &&str) -> V {
    V::S(x.to_string())
}
macro_rules! num_of {
    ($f:expr, $i:expr) => {
        rr($f($i), |v| n(*v))
    };
}
/// name, reference, property
pub const PARSERS: &[(&str, &str)] = &[
    ("byte", "C04"),
    ("word", "C04"),
    ("short", "C04"),
    ("dword", "C04"),
    ("long", "C04"),
    ("fixed", "C04"),
    ("string", "C04"),
    ("uuid", "C04"),
    ("color", "C04"),
    ("rgb", "C04"),
    ("point", "C04"),
    ("size", "C04"),
    ("rect", "C04"),
    ("dword_usize", "C04"),
    ("dword_u8", "C04"),
    ("dword_size", "C03"),
    ("header", "C04"),
    ("color_depth", "C05"),
    ("blend_mode", "C05"),
    ("chunk_type", "C05"),
    ("layer", "C04"),
    ("cel", "C04"),
    ("cel_extra", "C04"),
    ("color_profile", "C04"),
    ("external_files", "C04"),
    ("external_file", "C04"),
    ("mask", "C04"),
    ("old_palette", "C04"),
    ("packet", "C04"),
    ("palette", "C04"),
    ("palette_entry", "C04"),
    ("slice", "C04"),
    ("slice_key", "C04"),
    ("nine_patch", "C04"),
    ("pivot", "C04"),
    ("tags", "C04"),
    ("tag", "C04"),
    ("tileset", "C04"),
    ("tileset_ext", "C04"),
    ("tiles", "C04"),
    ("user_data", "C08"),
    ("pmaps", "C08"),
    ("pmap", "C08"),
    ("property", "C08"),
    ("value", "C08"),
    ("vector", "C08"),
    ("chunk", "C03"),
    ("chunks", "C03"),
    ("rawframe", "C03"),
    ("frames", "C03"),
    ("raw_file", "C03"),
];
fn reference(name: &str, p: i64, c: &mut Cur<'_>) -> Option<V> {
    let f: RefF = match name {
        "byte" => |c| c.u(1),
        "word" => |c| c.u(2),
        "short" => |c| c.i(2),
        "dword" => |c| c.u(4),
        "long" => |c| c.i(4),
        "fixed" => |c| c.fixed(),
        "string" => |c| c.string(),
        "uuid" => |c| c.u(16),
        "color" => refp::color,
        "rgb" => refp::rgb,
        "point" => refp::point,
        "size" => refp::size,
        "rect" => refp::rect,
        "dword_usize" => |c| c.u(4),
        "dword_u8" => |c| c.u32().and_then(|x| if x < 256 { Some(n(x)) } else { None }),
        "dword_size" => |c| c.u32().and_then(|x| if x >= 4 { Some(n(x)) } else { None }),
        "header" => refp::header,
        "color_depth" => |c| Some(refp::color_depth(c.u16()?)),
        "blend_mode" => |c| Some(refp::code(c.u16()? as u64, 18)),
        "chunk_type" => |c| {
            let w = c.u16()? as u64;
            Some(V::Code(crate::gen::KINDS.contains(&w) || w == 0x2017, w))
        },
        "layer" => refp::layer,
        "cel" => refp::cel,
        "cel_extra" => |c| {
            let v = refp::cel_extra(c)?;
            Some(v)
        },
        "color_profile" => refp::color_profile,
        "external_files" => refp::external_files,
        "external_file" => refp::external_file,
        "mask" => refp::mask,
        "old_palette" => refp::old_palette,
        "packet" => refp::packet,
        "palette" => refp::palette,
        "palette_entry" => refp::palette_entry,
        "slice" => refp::slice,
        "slice_key" => return refp::slice_key(c, p as u32),
        "nine_patch" => refp::nine_patch,
        "pivot" => refp::pivot,
        "tags" => refp::tags,
        "tag" => refp::tag,
        "tileset" => refp::tileset,
        "tileset_ext" => refp::tileset_ext,
        "tiles" => |c| c.blob(),
        "user_data" => refp::user_data,
        "pmaps" => refp::maps,
        "pmap" => refp::map,
        "property" => |c| refp::property(c, 0),
        "value" => |c| refp::value(c, 0),
        "vector" => |c| refp::vector(c, 0),
        "chunk" => refp::chunk,
        "chunks" => return c.count(p as usize, &|c| refp::chunk(c)),
        "rawframe" => refp::frame,
        "frames" => refp::frames,
        "raw_file" => |c| {
            let v = refp::raw_file(c)?;
            Some(v)
        },
        _ => panic!("unknown parser {}", name),
    };
    f(c)
}
fn actual(name: &str, p: i64, i: &[u8]) -> Option<(V, usize)> {
    use rb::chunks as ch;
    use rb::errors::ParseError as PE;
    use rb::scalars as sc;
    match name {
        "byte" => num_of!(sc::byte, i),
        "word" => num_of!(sc::word, i),
        "short" => num_of!(sc::short, i),
        "dword" => num_of!(sc::dword, i),
        "long" => num_of!(sc::long, i),
        "fixed" => rr(sc::fixed(i), real::fx),
        "string" => rr(sc::parse_string(i), rstr),
        "uuid" => rr(sc::parse_uuid(i), |u| V::D(u.to_le_bytes().to_vec())),
        "color" => rr(sc::parse_color(i), real::color),
        "rgb" => rr(sc::parse_rgb(i), real::rgb),
        "point" => rr(sc::parse_point(i), real::point),
        "size" => rr(sc::parse_size(i), real::size),
        "rect" => rr(sc::parse_rect(i), real::rect),
        "dword_usize" => rr(sc::parse_dword_as_usize(i), |x| n(*x as u64)),
        "dword_u8" => rr(sc::parse_dword_as_u8(i, PE::LayerIndexOutOfBounds), |x| n(*x)),
        "dword_size" => rr(sc::dword_size(i, PE::InvalidFrameSize), |x| n(*x)),
        "header" => rr(rb::header::parse_header(i), real::header),
        "color_depth" => rr(rb::color_depth::parse_color_depth(i), real::depth),
        "blend_mode" => rr(rb::blend_mode::parse_blend_mode(i), real::blend_mode),
        "chunk_type" => rr(rb::chunk_type::parse_chunk_type(i), real::chunk_type),
        "layer" => rr(ch::layer::parse_layer_chunk(i), real::layer),
        "cel" => rr(ch::cel::parse_cel_chunk(i), real::cel),
        "cel_extra" => rr(ch::cel_extra::parse_cel_extra_chunk(i), real::cel_extra),
        "color_profile" => rr(ch::color_profile::parse_color_profile(i), real::color_profile),
        "external_files" => rr(ch::external_files::parse_external_files_chunk(i), real::external_files),
        "external_file" => rr(ch::external_files::parse_external_file(i), real::external_file),
        "mask" => rr(ch::mask::parse_mask_chunk(i), real::mask),
        "old_palette" => rr(ch::old_palette::parse_old_palette_chunk(i), real::old_palette),
        "packet" => rr(ch::old_palette::parse_packet(i), real::packet),
        "palette" => rr(ch::palette::parse_palette_chunk(i), real::palette),
        "palette_entry" => rr(ch::palette::parse_palette_entry(i), real::palette_entry),
        "slice" => rr(ch::slice::parse_slice_chunk(i), real::slice),
        "slice_key" => rr(ch::slice::parse_slice_key(i, ch::slice::SliceFlags::from_bits_truncate(p as u32)), real::slice_key),
        "nine_patch" => rr(ch::slice::parse_nine_patch(i), real::nine),
        "pivot" => rr(ch::slice::parse_pivot(i), real::pivot),
        "tags" => rr(ch::tags::parse_tags_chunk(i), real::tags),
        "tag" => rr(ch::tags::parse_tag(i), real::tag),
        "tileset" => rr(ch::tileset::parse_tileset_chunk(i), real::tileset),
        "tileset_ext" => rr(ch::tileset::parse_external_file(i), real::tileset_ext),
        "tiles" => rr(ch::tileset::parse_tiles(i), real::tiles),
        "user_data" => rr(ch::user_data::parse_user_data_chunk(i), real::user_data),
        "pmaps" => rr(ch::user_data::parse_properties_maps(i), real::maps),
        "pmap" => rr(ch::user_data::parse_properties_map(i), real::pmap),
        "property" => rr(ch::user_data::parse_property(i), real::property),
        "value" => rr(ch::user_data::parse_value(i), real::value),
        "vector" => rr(ch::user_data::parse_vector(i), real::vector),
        "chunk" => rr(rb::chunk::parse_chunk(i), real::chunk),
        "chunks" => rr(rb::chunk::parse_chunks(i, p as usize), |c| V::L(c.iter().map(real::chunk).collect())),
        "rawframe" => rr(rb::raw_frame::parse_rawframe(i), real::raw_frame),
        "frames" => rr(rb::raw_frame::parse_frames(i), |c| V::L(c.iter().map(real::raw_frame).collect())),
        "raw_file" => match rb::raw_file::parse_raw_file(i) {
            Ok(f) => Some((V::R("raw_file", vec![("header", real::header(&f.header)), ("frames", V::L(f.frames.iter().map(real::raw_frame).collect()))]), 0)),
            Err(_) => None,
        },
        _ => panic!("unknown parser {}", name),
    }
}
/// Only the framing of a value: kinds of chunks and lengths of data which
/// extends to the end of the chunk.
fn framing(v: &V) -> V {
    match v {
        V::L(l) => V::L(l.iter().map(framing).collect()),
        V::R("chunk", f) => V::R(
            "chunk",
            vec![(
                f[0].0,
                match &f[0].1 {
                    V::R("cel", c) => match &c[5].1 {
                        V::R(k, x) => V::R(k, x.iter().filter(|y| y.0 == "data").map(|y| ("data", y.1.clone())).collect()),
                        _ => V::None,
                    },
                    V::R("mask", c) => c[5].1.clone(),
                    V::R("cel_extra", c) => c[5].1.clone(),
                    V::N(x) => V::N(*x),
                    _ => V::None,
                },
            )],
        ),
        V::R(k, f) if *k == "frame" || *k == "raw_file" => {
            V::R(k, f.iter().filter(|x| x.0 == "frames" || x.0 == "chunks").map(|x| (x.0, framing(&x.1))).collect())
        }
        x => x.clone(),
    }
}
fn show(d: &[(String, String, String, bool)]) -> String {
    let mut s = String::new();
    for (p, e, a, _) in d.iter().take(3) {
        s += &format!("at {}: expected {} but got {}\n", p, e, a);
    }
    s
}
fn compare(name: &str, prop: &'static str, e: Option<(V, usize)>, a: Option<(V, usize)>, bad: &mut Bad) {
    match (e, a) {
        (None, None) => {}
        (Some((e, _)), None) => {
            bad.push((prop, format!("{}: rejected valid input; expected {}", name, brief(&e))));
            if prop == "C03" {
                bad.push(("C04", format!("{}: rejected valid input", name)));
            }
        }
        (None, Some((a, _))) => {
            bad.push((prop, format!("{}: accepted invalid input as {}", name, brief(&a))));
            if prop == "C03" {
                bad.push(("C04", format!("{}: accepted invalid input", name)));
            }
        }
        (Some((e, er)), Some((a, ar))) => {
            let mut d = vec![];
            diff("", &e, &a, &mut d);
            if er != ar {
                bad.push((prop, format!("{}: {} bytes must remain but {} do", name, er, ar)));
            }
            if !d.is_empty() {
                if prop == "C03" {
                    if framing(&e) != framing(&a) {
                        bad.push(("C03", format!("{}: {}", name, show(&d))));
                    }
                    bad.push(("C04", format!("{}: {}", name, show(&d))));
                } else {
                    bad.push((prop, format!("{}: {}", name, show(&d))));
                }
                if d.iter().any(|x| x.3) {
                    let c: Vec<_> = d.into_iter().filter(|x| x.3).collect();
                    bad.push(("C05", format!("{}: {}", name, show(&c))));
                }
            }
        }
    }
}
fn brief(v: &V) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
    }
    s
}
fn fill(seed: i64, len: usize) -> Vec<u8> {
    match seed {
        0 => vec![0; len],
        1 => vec![255; len],
        _ => {
            let mut g = G::new(seed as u64, Default::default());
            let m = g.below(3);
            (0..len)
                .map(|i| {
                    let x = g.next() as u8;
                    if i % 4 == 3 {
                        match m {
                            0 => 255,
                            1 => [0, 255, x, x | 128][i / 4 % 4],
                            _ => x,
                        }
                    } else {
                        x
                    }
                })
                .collect()
        }
    }
}
fn sel_of(p: &[i64]) -> (Sel, LayerSelection) {
    match p[0] {
        0 => (Sel::Visible, LayerSelection::Visible),
        1 => (Sel::All, LayerSelection::All),
        _ => {
            let m: Vec<bool> = (0..p[1] as usize).map(|i| (p[2] >> (i % 63)) & 1 == 1).collect();
            (Sel::Mask(m.clone()), LayerSelection::Mask(m))
        }
    }
}
fn first_diff(e: &[u8], a: &[u8]) -> String {
    let i = e.iter().zip(a).position(|(x, y)| x != y).unwrap_or(0);
    format!("byte {} (pixel {}): expected {} but got {}", i, i / 4, e[i], a[i])
}
/// Reference model of a loaded file.
pub struct Model {
    pub file: V,
    pub sprite: V,
}
pub fn model(data: &[u8]) -> Option<Model> {
    let file = refl::file(data).ok()?;
    let sprite = refl::sprite(&file).ok()?;
    Some(Model { file, sprite })
}

pub fn run(c: &Case, st: &mut Stat) -> Bad {
    let mut bad: Bad = vec![];
    let k = c.kind.as_str();
    if let Some(name) = k.strip_prefix("parse:") {
        let prop = PARSERS.iter().find(|x| x.0 == name).map_or("C04", |x| x.1);
        let p = c.params.get(0).copied().unwrap_or(0);
        let mut cur = Cur::new(&c.data);
        let e = reference(name, p, &mut cur).map(|v| (v, cur.left()));
        st.valid = e.is_some();
        let e = if name == "raw_file" { e.map(|x| (x.0, 0)) } else { e };
        match caught(|| actual(name, p, &c.data)) {
            Ok(a) => compare(name, prop, e, a, &mut bad),
            Err(m) => {
                bad.push(("C01", format!("{} panicked: {}", name, m)));
                bad.push((prop, format!("{} panicked: {}", name, m)));
            }
        }
        return bad;
    }
    match k {
        "table" => {
            let w = c.params[0] as u64;
            let mut t = |name: &str, e: V, a: V| {
                if e != a {
                    bad.push(("C05", format!("{} {}: expected {:?} but got {:?}", name, w, e, a)));
                }
            };
            let x = w as u16;
            t("blend mode", refp::code(w, 18), real::blend_mode(&x.into()));
            t("color depth", refp::color_depth(x), real::depth(&x.into()));
            t("layer type", refp::code(w, 2), real::layer_type(&x.into()));
            let d: rb::color_depth::ColorDepth = x.into();
            t("bits per pixel", n(w), n(d.bpp()));
            let ps = match w {
                8 => Some(1),
                16 => Some(2),
                32 => Some(4),
                _ => None,
            };
            t("pixel size", opt(ps.map(|x: u64| n(x))), opt(d.pixel_size().map(|x| n(x as u64))));
            if w < 256 {
                t("direction", refp::code(w, 3), real::direction(&(w as u8).into()));
                t("external file type", refp::code(w, 2), real::file_type(&(w as u8).into()));
            }
        }
        "file" => {
            let e = refl::file(&c.data);
            st.valid = e.is_ok();
            let a = caught(|| match rb::file::parse_file(&c.data) {
                Ok(f) => Ok(real::file(&f)),
                Err(e) => Err(format!("{:?}", e).chars().take(200).collect::<String>()),
            });
            match (e, a) {
                (e, Err(m)) => {
                    bad.push(("C01", format!("parsing the file panicked: {}", m)));
                    bad.push(("C07", format!("parsing the file panicked: {}", m)));
                    if let Ok(V::R(_, f)) = e {
                        if f[1].1 != V::None {
                            bad.push(("C06", format!("parsing the file panicked: {}", m)));
                        }
                    }
                }
                (Err(_), Ok(Err(_))) => {}
                (Ok(_), Ok(Err(m))) => {
                    let props: &[&'static str] = if m.contains("PaletteError") {
                        &["C06"]
                    } else if m.contains("LayerIndexOutOfBounds") {
                        &["C07"]
                    } else {
                        &["C06", "C07", "C03", "C04"]
                    };
                    for p in props {
                        bad.push((p, format!("valid file rejected: {}", m)));
                    }
                }
                (Err(w), Ok(Ok(v))) => {
                    let p = match w {
                        refl::Why::Palette => "C06",
                        refl::Why::LayerIndex => "C07",
                        _ => "C04",
                    };
                    bad.push((p, format!("invalid file ({:?}) accepted as {}", w, brief(&v))));
                }
                (Ok(e), Ok(Ok(a))) => {
                    let mut d = vec![];
                    diff("", &e, &a, &mut d);
                    let (pal, rest): (Vec<_>, Vec<_>) = d.into_iter().partition(|x| x.0.starts_with(".palette"));
                    if !pal.is_empty() {
                        let mut m = show(&pal);
                        if let (V::Some(x), V::Some(y)) = (get(&e, "palette"), get(&a, "palette")) {
                            m = format!("palette {}", first_diff(refl::bytes(x), refl::bytes(y)));
                        }
                        bad.push(("C06", m));
                    }
                    if !rest.is_empty() {
                        bad.push(("C07", show(&rest)));
                        if rest.iter().any(|x| x.3) {
                            bad.push(("C05", show(&rest.into_iter().filter(|x| x.3).collect::<Vec<_>>())));
                        }
                    }
                }
            }
        }
        "load" => {
            let f = refl::file(&c.data);
            let e = match &f {
                Ok(f) => refl::sprite(f),
                Err(w) => Err(*w),
            };
            st.valid = e.is_ok();
            let a = caught(|| match AsepriteFile::load(&c.data) {
                Ok(f) => {
                    let v = real::sprite(&f);
                    Ok((v, real::file(&f.file)))
                }
                Err(e) => Err(format!("{}", e).chars().take(200).collect::<String>()),
            });
            match (e, a) {
                (_, Err(m)) => {
                    bad.push(("C01", format!("loading panicked: {}", m)));
                    bad.push(("C09", format!("loading panicked: {}", m)));
                }
                (Err(_), Ok(Err(_))) => {}
                (Ok(_), Ok(Err(m))) => bad.push(("C09", format!("valid file rejected: {}", m))),
                (Err(w), Ok(Ok(v))) => bad.push(("C09", format!("invalid file ({:?}) accepted as {}", w, brief(&v.0)))),
                (Ok(e), Ok(Ok((a, fa)))) => {
                    let mut d = vec![];
                    diff("", &e, &a, &mut d);
                    diff(".file", f.as_ref().unwrap(), &fa, &mut d);
                    if !d.is_empty() {
                        bad.push(("C09", show(&d)));
                    }
                }
            }
        }
        // params: steps of (image, length, fill)
        "image" => {
            let Some(m) = model(&c.data) else { return bad };
            let images = list(get(&m.sprite, "images"));
            let Ok(Ok(f)) = caught(|| AsepriteFile::load(&c.data)) else {
                bad.push(("C10", "valid file does not load".into()));
                return bad;
            };
            for s in c.params.chunks(3) {
                let i = s[0] as usize;
                if i >= images.len() || i >= f.images.len() {
                    continue;
                }
                st.valid = true;
                let before = fill(s[2], s[1] as usize);
                let mut t = before.clone();
                let r = caught(|| f.load_image(i, &mut t).is_ok());
                let need = (num(get(&images[i], "w")) * num(get(&images[i], "h")) * 4) as usize;
                let px = if before.len() < need { None } else { refl::pixels(&m.file, &images[i]) };
                match r {
                    Err(m) => {
                        bad.push(("C02", format!("decoding image {} panicked: {}", i, m)));
                        bad.push(("C10", format!("decoding image {} panicked: {}", i, m)));
                    }
                    Ok(ok) => {
                        if before.len() < need && (ok || t != before) {
                            bad.push(("C02", format!("target of {} bytes instead of {}: ok={} and written={}", before.len(), need, ok, t != before)));
                        }
                        if refl::ambiguous() {
                            continue;
                        }
                        match px {
                            None => {
                                if ok {
                                    bad.push(("C10", format!("decoding image {} into {} bytes succeeded, an error is expected", i, before.len())));
                                } else if t.len() > need && t[need..] != before[need..] {
                                    bad.push(("C10", format!("bytes behind image {} were written", i)));
                                }
                            }
                            Some(px) => {
                                let mut e = before.clone();
                                e[..need].copy_from_slice(&px);
                                if !ok {
                                    bad.push(("C10", format!("decoding the intact image {} failed", i)));
                                } else if e != t {
                                    bad.push(("C10", format!("image {}: {}", i, first_diff(&e, &t))));
                                }
                            }
                        }
                    }
                }
            }
        }
        // params: steps of (frame, length, fill, selection, mask length, mask)
        "render" | "combined" => {
            let Some(m) = model(&c.data) else { return bad };
            let Ok(Ok(f)) = caught(|| AsepriteFile::load(&c.data)) else {
                bad.push(("C11", "valid file does not load".into()));
                bad.push(("C15", "valid file does not load".into()));
                bad.push(("C14", "valid file does not load".into()));
                return bad;
            };
            let frames = list(get(&m.sprite, "frames"));
            for s in c.params.chunks(6) {
                let fi = s[0] as usize;
                if fi >= frames.len() || fi >= f.frames.len() {
                    continue;
                }
                st.valid = true;
                let (rs, ls) = sel_of(&s[3..6]);
                let before = fill(s[2], s[1] as usize);
                let mut t = before.clone();
                let size = get(&m.sprite, "size");
                let need = (num(&list(size)[0]) * num(&list(size)[1]) * 4) as usize;
                if k == "render" {
                    let r = caught(|| f.render_frame(fi, &mut t, &ls).is_ok());
                    let e = refl::render(&m.file, &m.sprite, fi, &before, &rs);
                    match r {
                        Err(m) => {
                            bad.push(("C02", format!("rendering frame {} panicked: {}", fi, m)));
                            bad.push(("C11", format!("rendering frame {} panicked: {}", fi, m)));
                            bad.push(("C14", format!("rendering frame {} panicked: {}", fi, m)));
                        }
                        Ok(ok) => {
                            if before.len() < need && (ok || t != before) {
                                bad.push(("C02", format!("target of {} bytes instead of {}: ok={} and written={}", before.len(), need, ok, t != before)));
                            }
                            if refl::ambiguous() {
                                continue;
                            }
                            match e {
                                None => {
                                    if ok {
                                        for p in ["C11", "C14"] {
                                            bad.push((p, format!("rendering frame {} with {:?} succeeded, an error is expected", fi, rs)));
                                        }
                                    }
                                }
                                Some(e) => {
                                    if !ok {
                                        for p in ["C11", "C14"] {
                                            bad.push((p, format!("rendering frame {} with {:?} failed, no error is expected", fi, rs)));
                                        }
                                    } else if e != t {
                                        for p in ["C11", "C14"] {
                                            bad.push((p, format!("frame {} with {:?}: {}", fi, rs, first_diff(&e, &t))));
                                        }
                                    }
                                }
                            }
                        }
                    }
                } else {
                    #[allow(deprecated)]
                    let r = caught(|| f.combined_frame_image(fi, &mut t).ok());
                    let mut t2 = before.clone();
                    let ok2 = caught(|| f.render_frame(fi, &mut t2, &LayerSelection::Visible).is_ok());
                    match (r, ok2) {
                        (Ok(h), Ok(ok2)) => {
                            if before.len() < need && (h.is_some() || t != before) {
                                bad.push(("C02", format!("target of {} bytes instead of {} accepted", before.len(), need)));
                            }
                            if h.is_some() != ok2 || t != t2 {
                                bad.push(("C15", format!("frame {}: differs from rendering the visible layers", fi)));
                            }
                            if let Some(h) = h {
                                let mut s = std::collections::hash_map::DefaultHasher::new();
                                for c in list(get(&frames[fi], "cels")) {
                                    let g = |k: &str| num(get(c, k));
                                    (g("image") as usize, g("layer") as usize, (g("x") as i16, g("y") as i16), (g("w") as u16, g("h") as u16)).hash(&mut s);
                                }
                                if s.finish() != h {
                                    bad.push(("C15", format!("frame {}: fingerprint {:x} is not the hash {:x} of the cels", fi, h, s.finish())));
                                }
                            }
                        }
                        (a, b) => {
                            let m = format!("frame {} panicked: {:?} {:?}", fi, a.err(), b.err());
                            bad.push(("C02", m.clone()));
                            bad.push(("C15", m));
                        }
                    }
                }
            }
        }
        // params: seed of names and predicates
        "select" => {
            let Some(m) = model(&c.data) else { return bad };
            let Ok(Ok(f)) = caught(|| AsepriteFile::load(&c.data)) else {
                bad.push(("C14", "valid file does not load".into()));
                return bad;
            };
            st.valid = true;
            let mut g = G::new(c.params[0] as u64, Default::default());
            let layers = list(get(&m.sprite, "layers"));
            let lname = |l: &V| match get(l, "name") {
                V::S(s) => s.clone(),
                _ => unreachable!(),
            };
            let mut names: Vec<String> = vec![];
            for l in layers {
                match g.below(9) {
                    0..=2 => names.push(lname(l)),
                    3 => names.push(lname(l).to_uppercase()),
                    4 => names.push(lname(l).trim().to_string()),
                    5 => names.push(lname(l) + " "),
                    6 => names.push(lname(l).chars().take(1).collect()),
                    _ => {}
                }
            }
            if g.p(20) {
                names.push(String::new());
            }
            for i in (1..names.len()).rev() {
                names.swap(i, g.below(i as u64 + 1) as usize);
            }
            let refs: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let e: Vec<bool> = layers.iter().map(|l| names.contains(&lname(l))).collect();
            match caught(|| f.select_layers_by_name(&refs)) {
                Ok(LayerSelection::Mask(a)) if a == e => {}
                r => bad.push(("C14", format!("selection of {:?}: expected mask {:?} but got {:?}", names, e, r))),
            }
            let bits: Vec<bool> = layers.iter().map(|_| g.p(50)).collect();
            let mode = g.below(4);
            let seen = RefCell::new(vec![]);
            let r = caught(|| {
                f.select_layers(|l| {
                    let i = seen.borrow().len();
                    seen.borrow_mut().push(l.name.clone());
                    match mode {
                        0 => l.visible,
                        1 => l.opacity >= 128,
                        2 => l.name.len() % 2 == 0,
                        _ => bits.get(i).copied().unwrap_or(true),
                    }
                })
            });
            let e: Vec<bool> = layers
                .iter()
                .zip(&bits)
                .map(|(l, b)| match mode {
                    0 => *get(l, "visible") == n(true),
                    1 => num(get(l, "opacity")) >= 128,
                    2 => lname(l).len() % 2 == 0,
                    _ => *b,
                })
                .collect();
            match r {
                Ok(LayerSelection::Mask(a)) if a == e => {}
                r => bad.push(("C14", format!("selection by predicate {}: expected mask {:?} but got {:?}", mode, e, r))),
            }
        }
        // params: mode, opacity; data: pairs of backdrop and source pixels
        "blend" => {
            let mode = c.params[0] as u16;
            let op = c.params[1] as u8;
            let prop = if mode == 9 || (12..=15).contains(&mode) { "C13" } else { "C12" };
            let pairs: Vec<(refb::P, refb::P)> = c
                .data
                .chunks_exact(8)
                .map(|x| (x[..4].try_into().unwrap(), x[4..].try_into().unwrap()))
                .collect();
            st.valid = true;
            let go = |pairs: &[(refb::P, refb::P)]| -> Result<Vec<u8>, String> {
                let w = pairs.len().min(256);
                let h = (pairs.len() + w - 1) / w;
                let mut px = vec![0u8; w * h * 4];
                let mut t = vec![0u8; w * h * 4];
                for (i, (b, s)) in pairs.iter().enumerate() {
                    t[i * 4..i * 4 + 4].copy_from_slice(b);
                    px[i * 4..i * 4 + 4].copy_from_slice(s);
                }
                let file = blend_file(mode, op, w, h, &px);
                match caught(|| -> Result<(), String> {
                    let f = AsepriteFile::load(&file).map_err(|e| e.to_string())?;
                    f.render_frame(0, &mut t, &LayerSelection::All).map_err(|e| e.to_string())
                }) {
                    Ok(Ok(())) => Ok(t),
                    Ok(Err(e)) => Err(format!("error: {}", e)),
                    Err(m) => Err(format!("panic: {}", m)),
                }
            };
            match go(&pairs) {
                Ok(t) => {
                    for (i, (b, s)) in pairs.iter().enumerate() {
                        let e = refb::blend(mode, *b, *s, op);
                        if t[i * 4..i * 4 + 4] != e {
                            bad.push((prop, format!("mode {} backdrop {:?} source {:?} opacity {}: expected {:?} but got {:?}", mode, b, s, op, e, &t[i * 4..i * 4 + 4])));
                            break;
                        }
                    }
                }
                Err(m) => {
                    let mut msg = m.clone();
                    let mut panicked = m.starts_with("panic");
                    for p in &pairs {
                        if let Err(m) = go(&[*p]) {
                            msg = format!("mode {} backdrop {:?} source {:?} opacity {}: {}", mode, p.0, p.1, op, m);
                            panicked = m.starts_with("panic");
                            break;
                        }
                    }
                    bad.push((prop, msg.clone()));
                    if panicked {
                        bad.push(("C02", msg));
                    }
                }
            }
        }
        _ => panic!("unknown kind {}", k),
    }
    bad
}
/// A sprite with one layer and one raw RGBA cel which covers the canvas.
pub fn blend_file(mode: u16, op: u8, w: usize, h: usize, px: &[u8]) -> Vec<u8> {
    let mut l = vec![1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    l.extend(mode.to_le_bytes());
    l.extend([op, 0, 0, 0, 1, 0, b'x']);
    let mut cel = vec![0, 0, 0, 0, 0, 0, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    cel.extend((w as u16).to_le_bytes());
    cel.extend((h as u16).to_le_bytes());
    cel.extend(px);
    let chunk = |t: u16, c: &[u8]| {
        let mut b = (c.len() as u32 + 6).to_le_bytes().to_vec();
        b.extend(t.to_le_bytes());
        b.extend(c);
        b
    };
    let mut body = chunk(0x2004, &l);
    body.extend(chunk(0x2005, &cel));
    let mut hd = vec![0u8; 128];
    hd[4] = 0xE0;
    hd[5] = 0xA5;
    hd[6] = 1;
    hd[8..10].copy_from_slice(&(w as u16).to_le_bytes());
    hd[10..12].copy_from_slice(&(h as u16).to_le_bytes());
    hd[12] = 32;
    hd.extend((body.len() as u32 + 16).to_le_bytes());
    hd.extend([0xFA, 0xF1, 2, 0, 100, 0, 0, 0, 2, 0, 0, 0]);
    hd.extend(body);
    hd
}
