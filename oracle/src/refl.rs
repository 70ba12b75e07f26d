//! Reference assembly of the file, loader view, image decoding, rendering.
use crate::refb;
use crate::refp::{self, Cur};
use crate::v::*;
use std::io::Read;

pub fn get<'v>(v: &'v V, k: &str) -> &'v V {
    match v {
        V::R(_, f) => &f.iter().find(|(x, _)| *x == k).unwrap_or_else(|| panic!("no field {}", k)).1,
        V::Some(b) => get(b, k),
        _ => panic!("not a record"),
    }
}
pub fn set(v: &mut V, k: &str, x: V) {
    if let V::R(_, f) = v {
        f.iter_mut().find(|(y, _)| *y == k).unwrap().1 = x;
    }
}
pub fn list(v: &V) -> &[V] {
    match v {
        V::L(l) => l,
        _ => panic!("not a list"),
    }
}
pub fn num(v: &V) -> i64 {
    match v {
        V::N(x) => *x as i64,
        V::Code(_, x) => *x as i64,
        _ => panic!("not a number"),
    }
}
pub fn bytes(v: &V) -> &[u8] {
    match v {
        V::D(b) => b,
        _ => panic!("not bytes"),
    }
}
fn tagname(v: &V) -> &'static str {
    match v {
        V::R(t, _) => t,
        _ => "",
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Why {
    Raw,
    Palette,
    LayerIndex,
    BadLink,
    BadCel,
}

fn scale6(v: u8) -> u8 {
    let v = v.min(63) as u32;
    ((v << 2) | (v >> 4)) as u8
}
fn build_palette(transparent: u8, frames: &[V]) -> Result<V, Why> {
    let all = |k: &str| -> Vec<&V> {
        let mut r = Vec::new();
        for f in frames {
            for c in list(get(f, "chunks")) {
                if let V::R(_, x) = c {
                    if x[0].0 == k {
                        r.push(&x[0].1);
                    }
                }
            }
        }
        r
    };
    let mut p = vec![0u8; 1024];
    let mut any = false;
    let new = all("palette");
    if !new.is_empty() {
        for c in new {
            let first = num(get(c, "first")) as usize;
            for (i, e) in list(get(c, "entries")).iter().enumerate() {
                let col = get(e, "color");
                for (j, k) in ["r", "g", "b", "a"].iter().enumerate() {
                    p[(first + i) * 4 + j] = num(get(col, k)) as u8;
                }
                any = true;
            }
        }
    } else {
        let mut old = all("palette0004");
        let mut six = false;
        if old.is_empty() {
            old = all("palette0011");
            six = true;
        }
        if old.is_empty() {
            return Err(Why::Palette);
        }
        for c in old {
            let mut i = 0usize;
            for packet in list(c) {
                i += num(get(packet, "skip")) as usize;
                for col in list(get(packet, "colors")) {
                    if i > 255 {
                        return Err(Why::Palette);
                    }
                    for (j, k) in ["r", "g", "b"].iter().enumerate() {
                        let x = num(get(col, k)) as u8;
                        p[i * 4 + j] = if six { scale6(x) } else { x };
                    }
                    p[i * 4 + 3] = 255;
                    i += 1;
                    any = true;
                }
            }
        }
    }
    if !any {
        return Err(Why::Palette);
    }
    p[transparent as usize * 4 + 3] = 0;
    Ok(V::D(p))
}

pub fn file(data: &[u8]) -> Result<V, Why> {
    let mut c = Cur::new(data);
    let raw = refp::raw_file(&mut c).ok_or(Why::Raw)?;
    assemble(&raw)
}
pub fn assemble(raw: &V) -> Result<V, Why> {
    let header = get(raw, "header").clone();
    let frames = list(get(raw, "frames"));
    let palette = if get(&header, "depth") == &V::Code(true, 8) {
        Some(build_palette(num(get(&header, "transparent")) as u8, frames)?)
    } else {
        None
    };
    let mut layers = Vec::new();
    let mut tags = Vec::new();
    let mut slices = Vec::new();
    let mut user = V::None;
    let mut fcels: Vec<Vec<V>> = Vec::new();
    for (fi, f) in frames.iter().enumerate() {
        let chunks: Vec<(&'static str, &V)> = list(get(f, "chunks"))
            .iter()
            .map(|c| match c {
                V::R(_, x) => (x[0].0, &x[0].1),
                _ => unreachable!(),
            })
            .collect();
        let mut cels = Vec::new();
        let mut i = 0;
        while i < chunks.len() {
            let (k, v) = chunks[i];
            i += 1;
            let next = |i: &mut usize| -> V {
                if *i < chunks.len() && chunks[*i].0 == "user_data" {
                    *i += 1;
                    V::Some(Box::new(chunks[*i - 1].1.clone()))
                } else {
                    V::None
                }
            };
            match k {
                "palette" | "palette0004" | "palette0011" => {
                    if fi == 0 && user == V::None {
                        user = next(&mut i);
                    }
                }
                "layer" | "cel" | "slice" => {
                    let mut v = v.clone();
                    set(&mut v, "user_data", next(&mut i));
                    match k {
                        "layer" => layers.push(v),
                        "cel" => cels.push(v),
                        _ => slices.push(v),
                    }
                }
                "tags" => {
                    let mut stop = false;
                    for t in list(v) {
                        let mut t = t.clone();
                        if !stop {
                            let u = next(&mut i);
                            stop = u == V::None;
                            set(&mut t, "user_data", u);
                        }
                        tags.push(t);
                    }
                }
                _ => {}
            }
        }
        fcels.push(cels);
    }
    let mut out = Vec::new();
    for (f, cels) in frames.iter().zip(fcels) {
        let mut slots = vec![V::None; layers.len()];
        for c in cels {
            let li = num(get(&c, "layer")) as usize;
            if li >= slots.len() {
                return Err(Why::LayerIndex);
            }
            slots[li] = V::Some(Box::new(c));
        }
        out.push(V::R("frame", vec![("duration", get(f, "duration").clone()), ("cels", V::L(slots))]));
    }
    Ok(V::R(
        "file",
        vec![
            ("header", header),
            ("palette", opt(palette)),
            ("layers", V::L(layers)),
            ("frames", V::L(out)),
            ("tags", V::L(tags)),
            ("slices", V::L(slices)),
            ("user_data", user),
        ],
    ))
}
pub fn sprite(file: &V) -> Result<V, Why> {
    let h = get(file, "header");
    let mut layers = Vec::new();
    let mut remap = Vec::new();
    for l in list(get(file, "layers")) {
        let t = get(l, "type");
        if *t == V::Code(true, 0) || *t == V::Code(true, 1) {
            remap.push(Some(layers.len() as u64));
            let visible = match get(l, "flags") {
                V::Flags(f) => f[0].1,
                _ => unreachable!(),
            };
            layers.push(V::R(
                "layer",
                vec![
                    ("name", get(l, "name").clone()),
                    ("opacity", get(l, "opacity").clone()),
                    ("blend_mode", get(l, "blend_mode").clone()),
                    ("visible", n(visible)),
                    ("type", t.clone()),
                ],
            ));
        } else {
            remap.push(None);
        }
    }
    let frames = list(get(file, "frames"));
    let mut images = Vec::new();
    let mut table = vec![vec![None; remap.len()]; frames.len()];
    for (fi, f) in frames.iter().enumerate() {
        for (li, c) in list(get(f, "cels")).iter().enumerate() {
            if let V::Some(c) = c {
                let content = get(c, "content");
                if tagname(content) == "image" {
                    table[fi][li] = Some(images.len());
                    images.push(content.clone());
                }
            }
        }
    }
    let mut fr = Vec::new();
    for (fi, f) in frames.iter().enumerate() {
        let mut cels = Vec::new();
        for (li, c) in list(get(f, "cels")).iter().enumerate() {
            if let V::Some(c) = c {
                let content = get(c, "content");
                let ix = match tagname(content) {
                    "image" => table[fi][li].unwrap(),
                    "link" => {
                        let to = num(get(content, "frame")) as usize;
                        match table.get(to).and_then(|t| t[li]) {
                            Some(x) => x,
                            None => return Err(Why::BadLink),
                        }
                    }
                    _ => return Err(Why::BadCel),
                };
                if let Some(l) = remap[li] {
                    let im: &V = &images[ix];
                    cels.push(V::R(
                        "cel",
                        vec![
                            ("x", get(c, "x").clone()),
                            ("y", get(c, "y").clone()),
                            ("w", get(im, "w").clone()),
                            ("h", get(im, "h").clone()),
                            ("layer", n(l)),
                            ("image", n(ix as u64)),
                        ],
                    ));
                }
            }
        }
        fr.push(V::R(
            "frame",
            vec![("duration", get(f, "duration").clone()), ("origin", V::L(vec![n(0), n(0)])), ("cels", V::L(cels))],
        ));
    }
    let tags = list(get(file, "tags"))
        .iter()
        .map(|t| {
            let rep = get(t, "repeat");
            V::R(
                "tag",
                vec![
                    ("name", get(t, "name").clone()),
                    ("from", get(t, "from").clone()),
                    ("to", get(t, "to").clone()),
                    ("direction", get(t, "direction").clone()),
                    ("repeat", opt(if num(rep) == 0 { None } else { Some(rep.clone()) })),
                ],
            )
        })
        .collect();
    Ok(V::R(
        "sprite",
        vec![
            ("size", V::L(vec![get(h, "width").clone(), get(h, "height").clone()])),
            ("layers", V::L(layers)),
            ("tags", V::L(tags)),
            ("frames", V::L(fr)),
            ("image_count", n(images.len() as u64)),
            ("images", V::L(images)),
            ("slices", get(file, "slices").clone()),
        ],
    ))
}
/// Complete zlib stream at the start of `data`, at most `max + 1` bytes of it.
pub fn inflate(data: &[u8], max: usize) -> Option<Vec<u8>> {
    let strict = crate::shims::inflate(data).filter(|o| o.len() <= max);
    if strict.is_none() {
        // flate2 reading piecewise takes a reference to before the start of
        // the stream for zeros, in one call it refuses it as the format does
        let mut out = Vec::new();
        let mut r = flate2::read::ZlibDecoder::new(data).take(max as u64 + 1);
        if r.read_to_end(&mut out).is_ok() && out.len() <= max {
            AMBIGUOUS.set(true);
        }
    }
    strict
}
thread_local! {
    static AMBIGUOUS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether a stream was seen since the last call on which the ways to use
/// flate2 differ: any answer is fine.
pub fn ambiguous() -> bool {
    AMBIGUOUS.replace(false)
}
/// Decoded pixels of an image or None if it cannot be decoded.
pub fn pixels(file: &V, image: &V) -> Option<Vec<u8>> {
    let px = num(get(image, "w")) as usize * num(get(image, "h")) as usize;
    let bpp = match get(get(file, "header"), "depth") {
        V::Code(true, b) => *b as usize / 8,
        _ => return None,
    };
    let data = bytes(get(image, "data"));
    let src = if get(image, "compressed") == &n(true) { inflate(data, px * bpp)? } else { data.to_vec() };
    if src.len() != px * bpp {
        return None;
    }
    Some(match bpp {
        4 => src,
        2 => src.chunks(2).flat_map(|c| [c[0], c[0], c[0], c[1]]).collect(),
        _ => {
            let p = match get(file, "palette") {
                V::Some(p) => bytes(p),
                _ => return None,
            };
            src.iter().flat_map(|i| p[*i as usize * 4..*i as usize * 4 + 4].to_vec()).collect()
        }
    })
}
#[derive(Clone, Debug)]
pub enum Sel {
    Visible,
    All,
    Mask(Vec<bool>),
}
/// Rendering into a copy of `target`. None: an error is expected.
pub fn render(file: &V, sp: &V, frame: usize, target: &[u8], sel: &Sel) -> Option<Vec<u8>> {
    let h = get(file, "header");
    let (w, ht) = (num(get(h, "width")), num(get(h, "height")));
    if (target.len() as i64) < w * ht * 4 {
        return None;
    }
    let mut t = target.to_vec();
    let layers = list(get(sp, "layers"));
    for c in list(get(&list(get(sp, "frames"))[frame], "cels")) {
        let li = num(get(c, "layer")) as usize;
        let l = &layers[li];
        let selected = match sel {
            Sel::Visible => *get(l, "visible") == n(true),
            Sel::All => true,
            Sel::Mask(m) => li < m.len() && m[li],
        };
        if !selected || *get(l, "type") == V::Code(true, 1) {
            continue;
        }
        let im = &list(get(sp, "images"))[num(get(c, "image")) as usize];
        let px = pixels(file, im)?;
        let mode = match get(l, "blend_mode") {
            V::Code(true, m) => *m as u16,
            _ => return None,
        };
        let op = num(get(l, "opacity")) as u8;
        let (cw, ch) = (num(get(c, "w")), num(get(c, "h")));
        let (x0, y0) = (num(get(c, "x")), num(get(c, "y")));
        for ty in y0.max(0)..(y0 + ch).min(ht) {
            for tx in x0.max(0)..(x0 + cw).min(w) {
                let si = ((ty - y0) * cw + tx - x0) as usize * 4;
                let ti = (ty * w + tx) as usize * 4;
                let b: [u8; 4] = t[ti..ti + 4].try_into().unwrap();
                let s: [u8; 4] = px[si..si + 4].try_into().unwrap();
                t[ti..ti + 4].copy_from_slice(&refb::blend(mode, b, s, op));
            }
        }
    }
    Some(t)
}
