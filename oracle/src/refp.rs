//! Reference parser, written from the Aseprite file format documentation.
use crate::v::*;

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}
pub type O<T> = Option<T>;
impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Cur { d, p: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() - self.p
    }
    pub fn take(&mut self, k: usize) -> O<&'a [u8]> {
        if k > self.left() {
            return None;
        }
        let r = &self.d[self.p..self.p + k];
        self.p += k;
        Some(r)
    }
    pub fn rest(&mut self) -> &'a [u8] {
        let r = &self.d[self.p..];
        self.p = self.d.len();
        r
    }
    fn un(&mut self, k: usize) -> O<u128> {
        let b = self.take(k)?;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(v)
    }
    pub fn u8(&mut self) -> O<u8> {
        Some(self.un(1)? as u8)
    }
    pub fn u16(&mut self) -> O<u16> {
        Some(self.un(2)? as u16)
    }
    pub fn u32(&mut self) -> O<u32> {
        Some(self.un(4)? as u32)
    }
    pub fn u(&mut self, k: usize) -> O<V> {
        let v = self.un(k)?;
        Some(if k == 16 {
            V::D(v.to_le_bytes().to_vec())
        } else {
            V::N(v as i128)
        })
    }
    pub fn i(&mut self, k: usize) -> O<V> {
        let v = self.un(k)? as i128;
        let m = 1i128 << (8 * k - 1);
        Some(V::N(if v >= m { v - 2 * m } else { v }))
    }
    pub fn fixed(&mut self) -> O<V> {
        let lo = self.u16()?;
        let hi = self.u16()?;
        Some(fixed(hi, lo))
    }
    pub fn string(&mut self) -> O<V> {
        let k = self.u16()? as usize;
        let b = self.take(k)?;
        Some(V::S(String::from_utf8(b.to_vec()).ok()?))
    }
    pub fn blob(&mut self) -> O<V> {
        let k = self.u32()? as usize;
        Some(V::D(self.take(k)?.to_vec()))
    }
    pub fn count(&mut self, k: usize, f: &dyn Fn(&mut Cur<'a>) -> O<V>) -> O<V> {
        let mut v = Vec::new();
        for _ in 0..k {
            v.push(f(self)?);
        }
        Some(V::L(v))
    }
}
pub fn fixed(hi: u16, lo: u16) -> V {
    V::R("fixed", vec![("int", n(hi)), ("frac", n(lo))])
}
pub fn flags(w: u64, names: &[(&'static str, u64)]) -> V {
    V::Flags(names.iter().map(|(k, b)| (*k, w & b == *b)).collect())
}
pub fn code(w: u64, max: u64) -> V {
    V::Code(w <= max, w)
}
pub const LAYER_FLAGS: &[(&str, u64)] = &[
    ("visible", 1),
    ("editable", 2),
    ("lock", 4),
    ("background", 8),
    ("linked", 16),
    ("collapsed", 32),
    ("reference", 64),
];
pub const TILESET_FLAGS: &[(&str, u64)] = &[
    ("external", 1),
    ("tiles", 2),
    ("zero", 4),
    ("x", 8),
    ("y", 16),
    ("d", 32),
];
pub const SLICE_FLAGS: &[(&str, u64)] = &[("nine", 1), ("pivot", 2)];
pub const CEL_EXTRA_FLAGS: &[(&str, u64)] = &[("precise", 1)];

pub fn point(c: &mut Cur) -> O<V> {
    Some(V::R("point", vec![("x", c.i(4)?), ("y", c.i(4)?)]))
}
pub fn size(c: &mut Cur) -> O<V> {
    Some(V::R("size", vec![("w", c.i(4)?), ("h", c.i(4)?)]))
}
pub fn rect(c: &mut Cur) -> O<V> {
    Some(V::R("rect", vec![("p", point(c)?), ("s", size(c)?)]))
}
pub fn color(c: &mut Cur) -> O<V> {
    Some(V::R("color", vec![("r", c.u(1)?), ("g", c.u(1)?), ("b", c.u(1)?), ("a", c.u(1)?)]))
}
pub fn rgb(c: &mut Cur) -> O<V> {
    Some(V::R("rgb", vec![("r", c.u(1)?), ("g", c.u(1)?), ("b", c.u(1)?)]))
}
pub fn color_depth(w: u16) -> V {
    V::Code(matches!(w, 8 | 16 | 32), w as u64)
}
pub fn header(c: &mut Cur) -> O<V> {
    let b = c.take(128)?;
    let mut h = Cur::new(b);
    let size = h.u(4)?;
    if h.u16()? != 0xA5E0 {
        return None;
    }
    let frames = h.u(2)?;
    let width = h.u(2)?;
    let height = h.u(2)?;
    let depth = color_depth(h.u16()?);
    let fl = h.u(4)?;
    let speed = h.u(2)?;
    if h.u32()? != 0 || h.u32()? != 0 {
        return None;
    }
    let transparent = h.u(1)?;
    h.take(3)?;
    Some(V::R(
        "header",
        vec![
            ("file_size", size),
            ("frames", frames),
            ("width", width),
            ("height", height),
            ("depth", depth),
            ("flags", fl),
            ("speed", speed),
            ("transparent", transparent),
            ("color_count", h.u(2)?),
            ("pixel_width", h.u(1)?),
            ("pixel_height", h.u(1)?),
            ("grid_x", h.i(2)?),
            ("grid_y", h.i(2)?),
            ("grid_width", h.u(2)?),
            ("grid_height", h.u(2)?),
        ],
    ))
}
pub fn layer(c: &mut Cur) -> O<V> {
    let f = c.u16()?;
    let t = c.u16()?;
    let child = c.u(2)?;
    c.take(4)?;
    let bm = c.u16()?;
    let op = c.u(1)?;
    c.take(3)?;
    let name = c.string()?;
    let ts = if t == 2 { Some(c.u(4)?) } else { None };
    Some(V::R(
        "layer",
        vec![
            ("flags", flags(f as u64, LAYER_FLAGS)),
            ("type", code(t as u64, 2)),
            ("child_level", child),
            ("blend_mode", code(bm as u64, 18)),
            ("opacity", op),
            ("name", name),
            ("tileset", opt(ts)),
            ("user_data", V::None),
        ],
    ))
}
pub fn image(c: &mut Cur, compressed: bool) -> O<V> {
    Some(V::R(
        "image",
        vec![("w", c.u(2)?), ("h", c.u(2)?), ("compressed", n(compressed)), ("data", V::D(c.rest().to_vec()))],
    ))
}
pub fn cel(c: &mut Cur) -> O<V> {
    let li = c.u(2)?;
    let x = c.i(2)?;
    let y = c.i(2)?;
    let op = c.u(1)?;
    let t = c.u16()?;
    let z = c.i(2)?;
    c.take(5)?;
    let content = match t {
        0 => image(c, false)?,
        1 => V::R("link", vec![("frame", c.u(2)?)]),
        2 => image(c, true)?,
        3 => {
            let w = c.u(2)?;
            let h = c.u(2)?;
            let bits = c.u(2)?;
            let id = c.u(4)?;
            let fx = c.u(4)?;
            let fy = c.u(4)?;
            let fd = c.u(4)?;
            c.take(10)?;
            V::R(
                "tilemap",
                vec![("w", w), ("h", h), ("bits", bits), ("id", id), ("x", fx), ("y", fy), ("d", fd), ("data", V::D(c.rest().to_vec()))],
            )
        }
        t => V::R("unknown_cel", vec![("type", V::Code(false, t as u64)), ("data", V::D(c.rest().to_vec()))]),
    };
    c.rest();
    Some(V::R(
        "cel",
        vec![("layer", li), ("x", x), ("y", y), ("opacity", op), ("z", z), ("content", content), ("user_data", V::None)],
    ))
}
pub fn cel_extra(c: &mut Cur) -> O<V> {
    let f = c.u32()?;
    Some(V::R(
        "cel_extra",
        vec![
            ("flags", flags(f as u64, CEL_EXTRA_FLAGS)),
            ("x", c.fixed()?),
            ("y", c.fixed()?),
            ("w", c.fixed()?),
            ("h", c.fixed()?),
            ("future", V::D(c.rest().to_vec())),
        ],
    ))
}
pub fn color_profile(c: &mut Cur) -> O<V> {
    let t = c.u16()?;
    let f = c.u16()?;
    let g = c.fixed()?;
    c.take(8)?;
    let icc = if t == 2 { Some(c.blob()?) } else { None };
    Some(V::R(
        "color_profile",
        vec![("type", code(t as u64, 2)), ("gamma", opt(if f & 1 == 1 { Some(g) } else { None })), ("icc", opt(icc))],
    ))
}
pub fn external_file(c: &mut Cur) -> O<V> {
    let id = c.u(4)?;
    let t = c.u8()?;
    c.take(7)?;
    Some(V::R("external_file", vec![("id", id), ("type", code(t as u64, 2)), ("name", c.string()?)]))
}
pub fn external_files(c: &mut Cur) -> O<V> {
    let k = c.u32()?;
    c.take(8)?;
    c.count(k as usize, &|c| external_file(c))
}
pub fn mask(c: &mut Cur) -> O<V> {
    let x = c.i(2)?;
    let y = c.i(2)?;
    let w = c.u(2)?;
    let h = c.u(2)?;
    c.take(8)?;
    let name = c.string()?;
    Some(V::R("mask", vec![("x", x), ("y", y), ("w", w), ("h", h), ("name", name), ("data", V::D(c.rest().to_vec()))]))
}
pub fn packet(c: &mut Cur) -> O<V> {
    let skip = c.u(1)?;
    let k = c.u8()?;
    let k = if k == 0 { 256 } else { k as usize };
    Some(V::R("packet", vec![("skip", skip), ("colors", c.count(k, &|c| rgb(c))?)]))
}
pub fn old_palette(c: &mut Cur) -> O<V> {
    let k = c.u16()?;
    c.count(k as usize, &|c| packet(c))
}
pub fn palette_entry(c: &mut Cur) -> O<V> {
    let f = c.u16()?;
    let col = color(c)?;
    let name = if f & 1 == 1 { Some(c.string()?) } else { None };
    Some(V::R("entry", vec![("color", col), ("name", opt(name))]))
}
pub fn palette(c: &mut Cur) -> O<V> {
    c.u32()?;
    let a = c.u32()?;
    let b = c.u32()?;
    if a > 255 || b > 255 || a > b {
        return None;
    }
    c.take(8)?;
    let e = c.count((b - a + 1) as usize, &|c| palette_entry(c))?;
    Some(V::R("palette", vec![("first", n(a)), ("last", n(b)), ("entries", e)]))
}
pub fn nine_patch(c: &mut Cur) -> O<V> {
    Some(V::R("nine", vec![("x", c.i(4)?), ("y", c.i(4)?), ("w", c.u(4)?), ("h", c.u(4)?)]))
}
pub fn pivot(c: &mut Cur) -> O<V> {
    Some(V::R("pivot", vec![("x", c.i(4)?), ("y", c.i(4)?)]))
}
pub fn slice_key(c: &mut Cur, f: u32) -> O<V> {
    let fr = c.u(4)?;
    let x = c.i(4)?;
    let y = c.i(4)?;
    let w = c.u(4)?;
    let h = c.u(4)?;
    let np = if f & 1 == 1 { Some(nine_patch(c)?) } else { None };
    let pv = if f & 2 == 2 { Some(pivot(c)?) } else { None };
    Some(V::R("key", vec![("frame", fr), ("x", x), ("y", y), ("w", w), ("h", h), ("nine", opt(np)), ("pivot", opt(pv))]))
}
pub fn slice(c: &mut Cur) -> O<V> {
    let k = c.u32()?;
    let f = c.u32()?;
    c.u32()?;
    let name = c.string()?;
    let keys = c.count(k as usize, &|c| slice_key(c, f))?;
    Some(V::R("slice", vec![("name", name), ("flags", flags(f as u64, SLICE_FLAGS)), ("keys", keys), ("user_data", V::None)]))
}
pub fn tag(c: &mut Cur) -> O<V> {
    let a = c.u16()?;
    let b = c.u16()?;
    if a > b {
        return None;
    }
    let d = c.u8()?;
    let rep = c.u(2)?;
    c.take(6)?;
    let col = V::D(c.take(3)?.to_vec());
    c.u8()?;
    let name = c.string()?;
    Some(V::R(
        "tag",
        vec![("from", n(a)), ("to", n(b)), ("direction", code(d as u64, 3)), ("repeat", rep), ("color", col), ("name", name), ("user_data", V::None)],
    ))
}
pub fn tags(c: &mut Cur) -> O<V> {
    let k = c.u16()?;
    c.take(8)?;
    c.count(k as usize, &|c| tag(c))
}
pub fn tileset_ext(c: &mut Cur) -> O<V> {
    Some(V::R("ext", vec![("file", c.u(4)?), ("tileset", c.u(4)?)]))
}
pub fn tileset(c: &mut Cur) -> O<V> {
    let id = c.u(4)?;
    let f = c.u32()?;
    let k = c.u(4)?;
    let w = c.u(2)?;
    let h = c.u(2)?;
    let base = c.i(2)?;
    c.take(14)?;
    let name = c.string()?;
    let ext = if f & 1 == 1 { Some(tileset_ext(c)?) } else { None };
    let tiles = if f & 2 == 2 { Some(c.blob()?) } else { None };
    Some(V::R(
        "tileset",
        vec![("id", id), ("flags", flags(f as u64, TILESET_FLAGS)), ("tiles_n", k), ("w", w), ("h", h), ("base", base), ("name", name), ("ext", opt(ext)), ("tiles", opt(tiles))],
    ))
}

// ---------------------------------------------------------------- user data
pub const MAX_DEPTH: usize = 64;
fn bits(c: &mut Cur, k: usize) -> O<V> {
    c.u(k)
}
fn boolean(c: &mut Cur) -> O<V> {
    Some(n(c.u8()? != 0))
}
fn scalar(t: u16, c: &mut Cur) -> O<V> {
    match t {
        1 => boolean(c),
        2 => c.i(1),
        3 => c.u(1),
        4 => c.i(2),
        5 => c.u(2),
        6 => c.i(4),
        7 => c.u(4),
        8 => c.i(8),
        9 => c.u(8),
        10 => c.fixed(),
        11 => bits(c, 4),
        12 => bits(c, 8),
        13 => c.string(),
        14 => point(c),
        15 => size(c),
        16 => rect(c),
        19 => c.u(16),
        _ => None,
    }
}
pub const TYPE_NAMES: [&str; 20] = [
    "mixed", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "fixed", "f32", "f64", "string", "point", "size", "rect", "vector", "map", "uuid",
];
pub fn value(c: &mut Cur, d: usize) -> O<V> {
    let t = c.u16()?;
    let v = match t {
        17 => vector(c, d)?,
        18 => nested(c, d)?,
        1..=19 => scalar(t, c)?,
        _ => return None,
    };
    Some(V::R(TYPE_NAMES[t as usize], vec![("v", v)]))
}
pub fn vector(c: &mut Cur, d: usize) -> O<V> {
    if d >= MAX_DEPTH {
        return None;
    }
    let k = c.u32()? as usize;
    let t = c.u16()?;
    let e = match t {
        0 => c.count(k, &|c| value(c, d + 1))?,
        17 => c.count(k, &|c| vector(c, d + 1))?,
        18 => c.count(k, &|c| nested(c, d + 1))?,
        1..=19 => c.count(k, &|c| scalar(t, c))?,
        _ => return None,
    };
    Some(V::R("vec", vec![("type", n(t)), ("items", e)]))
}
fn properties(c: &mut Cur, d: usize) -> O<V> {
    let k = c.u32()? as usize;
    c.count(k, &|c| property(c, d))
}
pub fn property(c: &mut Cur, d: usize) -> O<V> {
    Some(V::R("prop", vec![("name", c.string()?), ("value", value(c, d)?)]))
}
fn nested(c: &mut Cur, d: usize) -> O<V> {
    if d >= MAX_DEPTH {
        return None;
    }
    Some(V::R("pmap", vec![("id", n(0)), ("props", properties(c, d + 1)?)]))
}
pub fn map(c: &mut Cur) -> O<V> {
    let id = c.u(4)?;
    Some(V::R("pmap", vec![("id", id), ("props", properties(c, 0)?)]))
}
pub fn maps(c: &mut Cur) -> O<V> {
    let s = c.u32()?;
    let k = c.u32()?;
    if s < 8 {
        return None;
    }
    let b = c.take(s as usize - 8)?;
    let mut m = Cur::new(b);
    Some(match m.count(k as usize, &|c| map(c)) {
        Some(v) => V::R("maps", vec![("maps", v), ("rest", n(m.left() as u64))]),
        None => V::Err,
    })
}
pub fn user_data(c: &mut Cur) -> O<V> {
    let f = c.u32()?;
    let text = if f & 1 == 1 { Some(c.string()?) } else { None };
    let col = if f & 2 == 2 { Some(color(c)?) } else { None };
    let m = if f & 4 == 4 { Some(maps(c)?) } else { None };
    Some(V::R("user_data", vec![("text", opt(text)), ("color", opt(col)), ("maps", opt(m))]))
}
// ------------------------------------------------------------------ framing
pub fn chunk(c: &mut Cur) -> O<V> {
    let s = c.u32()?;
    if s < 6 {
        return None;
    }
    let b = c.take(s as usize - 4)?;
    let mut d = Cur::new(b);
    let t = d.u16()?;
    let (k, v): (&'static str, V) = match t {
        0x0004 => ("palette0004", old_palette(&mut d)?),
        0x0011 => ("palette0011", old_palette(&mut d)?),
        0x2004 => ("layer", layer(&mut d)?),
        0x2005 => ("cel", cel(&mut d)?),
        0x2006 => ("cel_extra", cel_extra(&mut d)?),
        0x2007 => ("color_profile", color_profile(&mut d)?),
        0x2008 => ("external_files", external_files(&mut d)?),
        0x2016 => ("mask", mask(&mut d)?),
        0x2017 => ("path", V::None),
        0x2018 => ("tags", tags(&mut d)?),
        0x2019 => ("palette", palette(&mut d)?),
        0x2020 => ("user_data", user_data(&mut d)?),
        0x2022 => ("slice", slice(&mut d)?),
        0x2023 => ("tileset", tileset(&mut d)?),
        t => ("unsupported", n(t)),
    };
    Some(V::R("chunk", vec![(k, v)]))
}
pub fn frame(c: &mut Cur) -> O<V> {
    let s = c.u32()?;
    if s < 16 {
        return None;
    }
    let b = c.take(s as usize - 4)?;
    let mut d = Cur::new(b);
    if d.u16()? != 0xF1FA {
        return None;
    }
    let old = d.u16()?;
    let duration = d.u(2)?;
    d.take(2)?;
    let new = d.u32()?;
    let k = if new == 0 { old as usize } else { new as usize };
    let chunks = d.count(k, &|c| chunk(c))?;
    Some(V::R("frame", vec![("duration", duration), ("chunks", chunks)]))
}
pub fn frames(c: &mut Cur) -> O<V> {
    let mut v = vec![frame(c)?];
    while c.left() > 0 {
        v.push(frame(c)?);
    }
    Some(V::L(v))
}
pub fn raw_file(c: &mut Cur) -> O<V> {
    Some(V::R("raw_file", vec![("header", header(c)?), ("frames", frames(c)?)]))
}
