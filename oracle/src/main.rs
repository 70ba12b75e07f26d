//! Search for failing inputs: the real code against an independent
//! reference. Usage:
//!   oracle search PROP --tier quick|thorough --seed N --out DIR [--secs S]
//!   oracle replay FILE [PROP]
mod cases;
mod gen;
mod real;
mod refb;
mod refl;
mod refp;
mod shims;
mod v;

use cases::*;
use gen::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Plan {
    quick: u64,
    thorough: u64,
    rule: &'static str,
}
fn plan(prop: &str) -> Plan {
    let p = |quick, thorough, rule| Plan { quick, thorough, rule };
    match prop {
        "C01" => p(900_000, 20_000_000, "every public parser, the file parser and the loader on structured, mutated, hostile and random bytes; non-trivial: a distinct input which the reference accepts"),
        "C02" => p(160_000, 4_000_000, "rendering, image decoding and fingerprints of generated sprites, also with damaged images and odd targets; non-trivial: a distinct sprite which loads and has a frame or image"),
        "C03" => p(500_000, 12_000_000, "chunks, frames and files with unknown chunks, surplus bytes and wrong sizes; non-trivial: a distinct input the reference accepts"),
        "C04" => p(1_200_000, 30_000_000, "one parser per case on generated and mutated content; non-trivial: a distinct input the reference accepts"),
        "C05" => p(65536 * 9 + 200_000, 65536 * 9 + 6_000_000, "all 65536 values of every code and flag word, then generated chunks; non-trivial: a distinct input the reference accepts"),
        "C06" => p(150_000, 4_000_000, "files with sequences of palette chunks; non-trivial: a distinct file the reference accepts"),
        "C07" => p(200_000, 5_000_000, "files with arbitrary chunk orders and user data; non-trivial: a distinct file the reference accepts"),
        "C08" => p(900_000, 25_000_000, "user data chunks, maps, properties, values and vectors, nested up to and beyond the limit; non-trivial: a distinct input the reference accepts"),
        "C09" => p(150_000, 4_000_000, "sprites with skipped layer kinds, linked cels and late layers; non-trivial: a distinct file the reference loads"),
        "C10" => p(150_000, 4_000_000, "images of all depths, raw and compressed, intact and damaged, into targets of any length; non-trivial: a distinct file with an image"),
        "C11" => p(120_000, 3_000_000, "frames with clipped cels on prefilled targets; non-trivial: a distinct sprite with a rendered frame"),
        "C12" => p(14 * 2500, 14 * 100_000, "batches of 8192 or 65536 color pairs per mode and opacity, exhaustive over channel pairs first, every opacity; non-trivial: each batch"),
        "C13" => p(5 * 5000, 5 * 150_000, "batches of 8192 or 65536 color pairs per mode and opacity, exhaustive over channel pairs for soft light first, every opacity; non-trivial: each batch"),
        "C14" => p(150_000, 4_000_000, "selections by name and predicate and masks of any length; non-trivial: a distinct sprite which loads"),
        "C15" => p(120_000, 3_000_000, "fingerprints of frames; non-trivial: a distinct sprite with a rendered frame"),
        _ => panic!("unknown property {}", prop),
    }
}

fn parse_input(g: &mut G, name: &str) -> (Vec<i64>, Vec<u8>) {
    let mut params = vec![];
    let k = g.below(24) as usize;
    let d = match name {
        "byte" | "word" | "short" | "dword" | "long" | "fixed" | "uuid" | "color" | "rgb" | "point" | "size" | "rect" | "dword_usize" | "dword_u8" | "dword_size"
        | "color_depth" | "blend_mode" | "chunk_type" | "nine_patch" | "pivot" | "tileset_ext" => {
            let mut b = vec![];
            while b.len() < k {
                match g.below(3) {
                    0 => w8(&mut b, g.u(8)),
                    1 => w16(&mut b, g.u(16)),
                    _ => w32(&mut b, g.u(32)),
                }
            }
            b
        }
        "string" => {
            let mut b = vec![];
            g.string(&mut b);
            b
        }
        "tiles" => {
            let mut b = vec![];
            g.blob(&mut b);
            b
        }
        "header" => g.any_header(),
        "layer" => g.layer(),
        "cel" => g.cel(),
        "cel_extra" => g.cel_extra(),
        "color_profile" => g.color_profile(),
        "external_files" => g.external_files(),
        "external_file" => g.external_file(),
        "mask" => g.mask(),
        "old_palette" => g.old_palette(),
        "packet" => {
            let s = g.u(8);
            let k = g.u(8);
            g.packet(s, k)
        }
        "palette" => g.palette(),
        "palette_entry" => g.palette_entry(),
        "slice" => g.slice(),
        "slice_key" => {
            let f = g.u(32);
            params.push(f as i64);
            g.slice_key(f)
        }
        "tags" => g.tags(),
        "tag" => g.tag(),
        "tileset" => g.tileset(),
        "user_data" => {
            if g.p(4) {
                let mut b = vec![4, 0, 0, 0];
                let d = 55 + g.below(20) as usize;
                let v = g.deep(d, true);
                let mut m = vec![0, 0, 0, 0, 1, 0, 0, 0, 0, 0];
                m.extend(v);
                w32(&mut b, m.len() as u64 + 8);
                w32(&mut b, 1);
                b.extend(m);
                b
            } else {
                g.user_data()
            }
        }
        "pmaps" => {
            let mut b = vec![];
            g.pmaps(&mut b);
            b
        }
        "pmap" => {
            let mut b = vec![];
            g.pmap(&mut b);
            b
        }
        "property" => {
            let mut b = vec![];
            g.property(&mut b, 0);
            b
        }
        "value" => {
            if g.p(8) {
                let d = if g.p(40) { 62 + g.below(5) as usize } else { g.below(80) as usize };
                g.deep(d, true)
            } else {
                let mut b = vec![];
                g.value(&mut b, 0);
                b
            }
        }
        "vector" => {
            let mut b = vec![];
            g.vector(&mut b, 0);
            b
        }
        "chunk" => g.chunk(60),
        "chunks" => {
            let k = g.below(6);
            params.push(if g.p(90) { k as i64 } else { g.below(8) as i64 });
            let mut b = vec![];
            for _ in 0..k {
                let c = g.chunk(30);
                b.extend(c);
            }
            b
        }
        "rawframe" => g.frame(40),
        "frames" => {
            let k = g.below(4);
            let mut b = vec![];
            for _ in 0..k {
                let f = g.frame(20);
                b.extend(f);
            }
            b
        }
        "raw_file" => g.raw_file(15),
        _ => panic!(),
    };
    (params, d)
}
fn parse_case(g: &mut G, names: &[&str], mutate: u64) -> Case {
    let name = g.pick(names);
    let (params, mut d) = parse_input(g, name);
    if name == "slice_key" && g.p(30) {
        d.extend([0; 24]);
    }
    if g.p(20) {
        let k = g.below(6) as usize;
        let x = g.bytes(k);
        d.extend(x);
    }
    if g.p(mutate) {
        g.mutate(&mut d);
    }
    Case::new(&format!("parse:{}", name), params, d)
}
fn names_of(props: &[&str]) -> Vec<&'static str> {
    PARSERS.iter().filter(|x| props.contains(&x.1)).map(|x| x.0).collect()
}
fn hostile(g: &mut G) -> Case {
    match g.below(7) {
        0 => {
            let d = g.pick(&[65usize, 100, 500, 3000, 30000, 100000]);
            let e = g.p(50);
            let b = g.deep(d, e);
            Case::new("parse:value", vec![], b)
        }
        1 => {
            // endless nesting inside a whole file
            let d = g.pick(&[65usize, 1000, 20000]);
            let v = g.deep(d, true);
            let mut m = vec![0, 0, 0, 0, 1, 0, 0, 0, 0, 0];
            m.extend(v);
            let mut u = vec![4, 0, 0, 0];
            w32(&mut u, m.len() as u64 + 8);
            w32(&mut u, 1);
            u.extend(m);
            let c = g.wrap_chunk(0x2020, &u, 0);
            let f = g.wrap_frame(&[c], 0);
            let mut b = g.header(4, 4, 32);
            b.extend(f);
            Case::new("load", vec![], b)
        }
        2 => {
            // huge counts
            let name = g.pick(&["external_files", "old_palette", "palette", "slice", "tags", "tileset", "pmaps", "pmap", "vector", "value", "chunk", "rawframe"]);
            let (_, mut d) = parse_input(g, name);
            let k = g.below(d.len().max(1) as u64).min(16) as usize;
            let x = g.pick(&[[255u8; 4], [0, 0, 0, 128], [255, 255, 255, 127], [0, 0, 0, 64], [0, 0, 255, 255]]);
            if d.len() >= k + 4 {
                d[k..k + 4].copy_from_slice(&x);
            }
            Case::new(&format!("parse:{}", name), vec![], d)
        }
        3 => {
            let k = g.below(200) as usize;
            let d = g.bytes(k);
            let name = g.pick(PARSERS).0;
            Case::new(&format!("parse:{}", name), vec![g.below(1 << 40) as i64], d)
        }
        4 => {
            // truncation of a valid file at any point
            let o = Opt { user: 30, ..OPT };
            let mut b = g.sprite(o);
            let k = g.below(b.len() as u64 + 1) as usize;
            b.truncate(k);
            Case::new("load", vec![], b)
        }
        5 => {
            let k = g.below(400) as usize;
            let mut b = g.header(3, 3, 8);
            let d = g.bytes(k);
            b.extend(d);
            Case::new("file", vec![], b)
        }
        _ => {
            let mut b = g.raw_file(300);
            g.mutate(&mut b);
            Case::new("load", vec![], b)
        }
    }
}
fn dims(m: &cases::Model) -> (i64, i64, usize, usize, bool) {
    use refl::{get, list, num};
    let s = list(get(&m.sprite, "size"));
    let (w, h) = (num(&s[0]), num(&s[1]));
    let im = list(get(&m.sprite, "images"));
    let big = im.iter().any(|i| num(get(i, "w")) * num(get(i, "h")) > 1 << 20) || w * h > 1 << 20;
    (w, h, list(get(&m.sprite, "frames")).len(), im.len(), big)
}
fn length(g: &mut G, need: i64) -> i64 {
    match g.below(20) {
        0 => need + 1,
        1 => need + 4 + g.below(9) as i64,
        2 => (need - 1).max(0),
        3 => g.below(need.max(1) as u64) as i64,
        4 => need + 1000,
        _ => need,
    }
}
fn image_case(g: &mut G, o: Opt) -> Option<Case> {
    let b = g.sprite(o);
    let m = model(&b)?;
    let (_, _, _, ni, big) = dims(&m);
    if ni == 0 || big {
        return None;
    }
    let im = refl::list(refl::get(&m.sprite, "images"));
    let mut p = vec![];
    for _ in 0..1 + g.below(4) {
        let i = g.below(ni as u64) as usize;
        let need = refl::num(refl::get(&im[i], "w")) * refl::num(refl::get(&im[i], "h")) * 4;
        let l = length(g, need);
        p.extend([i as i64, l, g.below(1 << 30) as i64]);
    }
    Some(Case::new("image", p, b))
}
fn render_case(g: &mut G, o: Opt, kind: &str, mask: u64) -> Option<Case> {
    let b = g.sprite(o);
    let m = model(&b)?;
    let (w, h, nf, _, big) = dims(&m);
    if nf == 0 || big {
        return None;
    }
    let nl = refl::list(refl::get(&m.sprite, "layers")).len() as i64;
    let mut p = vec![];
    for _ in 0..1 + g.below(3) {
        let l = length(g, w * h * 4);
        let fill = if g.p(40) { 0 } else { g.below(1 << 30) as i64 };
        let sel = if g.p(mask) { 2 } else { g.below(2) as i64 };
        let ml = match g.below(6) {
            0 => 0,
            1 => (nl - 1).max(0),
            2 => nl + 1,
            3 => g.below(nl as u64 + 2) as i64,
            _ => nl,
        };
        p.extend([g.below(nf as u64) as i64, l, fill, sel, ml, (g.next() >> 1) as i64]);
    }
    Some(Case::new(kind, p, b))
}
const INT_MODES: [i64; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18];
const FLT_MODES: [i64; 5] = [9, 12, 13, 14, 15];
fn blend_case(g: &mut G, mode: i64, round: u64) -> Case {
    let alphas = [0u8, 1, 2, 3, 127, 128, 129, 253, 254, 255];
    let full = round < 6 || round % 17 == 6;
    let size: u32 = if full { 65536 } else { 8192 };
    let (op, ba, sa): (u8, Option<u8>, Option<u8>) = match round {
        0 => (255, Some(255), Some(255)),
        1 => (128, Some(255), Some(255)),
        2 => (255, Some(128), Some(200)),
        3 => (0, None, None),
        4 => (255, None, None),
        5 => (1, None, None),
        _ => {
            // every opacity in turn; full batches with the usual ones as well
            let op = if !full { round.wrapping_mul(101) as u8 } else if g.p(50) { 255 } else { g.pick(&alphas) };
            let f = |g: &mut G| if g.p(40) { None } else if g.p(50) { Some(255) } else { Some(g.pick(&alphas)) };
            (op, f(g), f(g))
        }
    };
    let mut d = Vec::with_capacity(size as usize * 8);
    let grid = round <= 2 || full && g.p(60);
    // mode of the random colors of this batch
    let style = g.below(5);
    for i in 0..size {
        let (mut b, mut s) = if grid {
            let (x, y) = ((i >> 8) as u8, i as u8);
            ([x, y, !x, 255], [y, x, y, 255])
        } else {
            let r = g.next();
            let q = g.next();
            let mut b = [r as u8, (r >> 8) as u8, (r >> 16) as u8, (r >> 24) as u8];
            let mut s = [(r >> 32) as u8, (r >> 40) as u8, (r >> 48) as u8, (r >> 56) as u8];
            match style {
                0 => {
                    // few distinct levels: ties and extremes
                    let lv = [0u8, 1, 127, 128, 254, 255, 64, 63];
                    for j in 0..3 {
                        b[j] = lv[(q >> (j * 3)) as usize & 7];
                        s[j] = lv[(q >> (9 + j * 3)) as usize & 7];
                    }
                }
                1 => {
                    // gray and nearly gray
                    let t = (q & 7) as u8;
                    b = [b[0], b[0].wrapping_add(t & 1), b[0].wrapping_sub(t >> 2), b[3]];
                    s = [s[0], s[0].wrapping_sub(t >> 1 & 1), s[0], s[3]];
                }
                2 => {
                    if q & 1 == 0 {
                        s[0] = b[0];
                    }
                    if q & 2 == 0 {
                        s[1] = b[1];
                    }
                    if q & 4 == 0 {
                        b[3] = s[3];
                    }
                    if q & 8 == 0 {
                        b[2] = b[1];
                    }
                }
                _ => {}
            }
            if q & 0xF00 == 0 {
                b[3] = alphas[(q >> 12) as usize % 10];
            }
            if q & 0xF0000 == 0 {
                s[3] = alphas[(q >> 20) as usize % 10];
            }
            (b, s)
        };
        if let Some(a) = ba {
            b[3] = a;
        } else if grid {
            b[3] = (i.wrapping_mul(2654435761) >> 24) as u8;
        }
        if let Some(a) = sa {
            s[3] = a;
        } else if grid {
            s[3] = (i.wrapping_mul(40503) >> 8) as u8;
        }
        d.extend(b);
        d.extend(s);
    }
    Case::new("blend", vec![mode, op as i64], d)
}
fn code_case(g: &mut G, i: u64) -> Case {
    let w = i % 65536;
    let (name, mut b): (&str, Vec<u8>) = match i / 65536 {
        0 => return Case::new("table", vec![w as i64], vec![]),
        1 => ("layer", g.layer_with(w, 0, 0, 255, b"a")),
        2 => ("layer", g.layer_with(1, w, 0, 255, b"a")),
        3 => ("layer", g.layer_with(1, 1, w, 255, b"a")),
        4 => {
            let mut b = g.cel_head(0, 0, 0, w);
            b.extend([0; 40]);
            ("cel", b)
        }
        5 => {
            let mut b = vec![];
            w16(&mut b, w);
            let f = g.u(16);
            w16(&mut b, f);
            b.extend([1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 7, 7]);
            ("color_profile", b)
        }
        6 => {
            let mut b = vec![];
            w16(&mut b, g.below(3));
            w16(&mut b, w);
            b.extend([1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 7, 7]);
            ("color_profile", b)
        }
        7 => {
            if w % 2 == 0 {
                let mut b = vec![];
                w16(&mut b, w);
                ("chunk_type", b)
            } else {
                ("header", g.header(1, 1, w))
            }
        }
        _ => match w % 6 {
            0 => {
                let mut b = vec![1, 0, 0, 0, (w >> 8) as u8, 0, 0, 0, 0, 0, 0, 0];
                b.extend([0; 2]);
                ("external_file", b)
            }
            1 => {
                let mut b = vec![1, 0, 2, 0, (w >> 8) as u8];
                b.extend([0; 20]);
                ("tag", b)
            }
            2 => {
                let mut b = vec![0; 4];
                w32(&mut b, w);
                b.extend([0; 40]);
                ("tileset", b)
            }
            3 => {
                let mut b = vec![0; 4];
                w32(&mut b, w);
                b.extend([0; 40]);
                ("slice", b)
            }
            4 => {
                let mut b = vec![];
                w32(&mut b, w);
                b.extend([0; 40]);
                ("cel_extra", b)
            }
            _ => {
                let mut b = vec![];
                w16(&mut b, w);
                b.extend([0; 40]);
                ("palette_entry", b)
            }
        },
    };
    if name == "chunk_type" || i / 65536 == 8 {
        b.push(0);
    }
    Case::new(&format!("parse:{}", name), vec![], b)
}
fn gen(prop: &str, g: &mut G, i: u64) -> Option<Case> {
    // now and then something beyond common limits
    let giant = if i % 150 == 7 { 1 + i / 150 % 3 } else { 0 };
    let many = if giant == 1 { 0 } else { giant };
    Some(match prop {
        "C01" => match g.below(10) {
            0..=2 => hostile(g),
            3 => {
                let o = Opt { chaos: 20, user: 30, palettes: 60, wide: 0, ..OPT };
                let mut b = g.sprite(o);
                if g.p(60) {
                    g.mutate(&mut b);
                }
                let k = g.pick(&["load", "file"]);
                Case::new(k, vec![], b)
            }
            _ => {
                let names: Vec<&str> = PARSERS.iter().map(|x| x.0).collect();
                parse_case(g, &names, 50)
            }
        },
        "C02" => {
            let o = Opt { chaos: 3, bad_image: if g.p(50) { 300 } else { 10 }, wide: 30, giant, ..OPT };
            match g.below(8) {
                0..=1 => image_case(g, o)?,
                2 => render_case(g, o, "combined", 0)?,
                3 if i % 400 == 3 => {
                    let m = g.below(19) as i64;
                    blend_case(g, m, 99)
                }
                _ => render_case(g, o, "render", 30)?,
            }
        }
        "C03" => {
            let mut c = parse_case(g, &["chunk", "chunks", "rawframe", "frames", "raw_file", "dword_size", "chunk_type"], 25);
            if c.kind == "parse:chunk" && g.p(5) {
                // every chunk type number
                let x = g.bytes(6);
                let k = g.next() & 0xffff;
                if !KINDS.contains(&k) {
                    c.data = g.wrap_chunk(k, &x, 0);
                }
            }
            if c.kind == "parse:rawframe" && i % 5000 == 7 {
                // more chunks than fit into the old 16 bit count
                let k = 65530 + g.below(12);
                let one: Vec<Vec<u8>> = (0..k).map(|_| vec![6, 0, 0, 0, 0x17, 0x20]).collect();
                c.data = g.wrap_frame(&one, 0);
            }
            c
        }
        "C04" => {
            if g.p(4) {
                parse_case(g, &["raw_file", "rawframe", "chunk"], 5)
            } else {
                let n = names_of(&["C04", "C05"]);
                parse_case(g, &n, 25)
            }
        }
        "C05" => {
            if i < 65536 * 9 {
                code_case(g, i)
            } else {
                parse_case(
                    g,
                    &["layer", "cel", "cel_extra", "color_profile", "external_file", "tag", "tileset", "slice", "palette_entry", "header", "chunk_type", "blend_mode", "color_depth", "chunk", "user_data"],
                    5,
                )
            }
        }
        "C06" => {
            let o = Opt { depth: if g.p(92) { 8 } else { 0 }, palettes: 85, user: 5, wide: 0, noise: 5, ..OPT };
            Case::new("file", vec![], g.sprite(o))
        }
        "C07" => {
            let o = Opt { chaos: if g.p(20) { 30 } else { 1 }, user: if g.p(80) { 45 } else { 5 }, noise: 25, wide: 0, palettes: 60, tiny: true, giant: many, ..OPT };
            Case::new("file", vec![], g.sprite(o))
        }
        "C08" => {
            let n = names_of(&["C08"]);
            parse_case(g, &n, 25)
        }
        "C09" => {
            let o = Opt { chaos: if g.p(20) { 30 } else { 1 }, wide: 2, tiny: true, user: 5, giant: many, ..OPT };
            Case::new("load", vec![], g.sprite(o))
        }
        "C10" => {
            let o = Opt { bad_image: if g.p(50) { 400 } else { 0 }, wide: 3, noise: 2, giant, ..OPT };
            image_case(g, o)?
        }
        "C11" => {
            let o = Opt { bad_image: if g.p(20) { 200 } else { 0 }, wide: 20, noise: 2, giant, ..OPT };
            render_case(g, o, "render", 30)?
        }
        "C12" => blend_case(g, INT_MODES[(i % 14) as usize], i / 14),
        "C13" => blend_case(g, FLT_MODES[(i % 5) as usize], i / 5),
        "C14" => {
            let o = Opt { noise: 2, wide: 0, plain: 70, giant: many, ..OPT };
            if g.p(50) {
                let b = g.sprite(o);
                let _ = model(&b)?;
                Case::new("select", vec![g.below(1 << 40) as i64], b)
            } else {
                render_case(g, o, "render", 75)?
            }
        }
        "C15" => {
            let o = Opt { noise: 2, wide: 5, bad_image: if g.p(20) { 200 } else { 0 }, giant, ..OPT };
            render_case(g, o, "combined", 0)?
        }
        _ => panic!(),
    })
}

/// Which violated properties count in the search of `prop`.
fn relevant(prop: &str, b: &Bad) -> Option<String> {
    b.iter().find(|x| x.0 == prop).map(|x| x.1.clone())
}
fn reduce(prop: &str, c: &Case) -> Case {
    let mut best = c.clone();
    let fails = |c: &Case| relevant(prop, &run(c, &mut Stat::default())).is_some();
    let step = match c.kind.as_str() {
        "image" => 3,
        "render" | "combined" => 6,
        _ => 0,
    };
    if step > 0 {
        for s in c.params.chunks(step) {
            let t = Case { params: s.to_vec(), ..c.clone() };
            if fails(&t) {
                best = t;
                break;
            }
        }
    }
    if c.kind == "blend" {
        for s in c.data.chunks_exact(8) {
            let t = Case { data: s.to_vec(), ..c.clone() };
            if fails(&t) {
                return t;
            }
        }
    }
    if best.kind.starts_with("parse:") && best.data.len() < 4096 {
        // drop trailing bytes, then zero bytes
        let end = Instant::now() + Duration::from_secs(3);
        let mut k = best.data.len() / 2;
        while k > 0 && Instant::now() < end {
            while best.data.len() >= k {
                let mut t = best.clone();
                t.data.truncate(best.data.len() - k);
                if !fails(&t) {
                    break;
                }
                best = t;
            }
            k /= 2;
        }
        for i in 0..best.data.len() {
            if Instant::now() > end {
                break;
            }
            if best.data[i] != 0 {
                let mut t = best.clone();
                t.data[i] = 0;
                if fails(&t) {
                    best = t;
                }
            }
        }
    }
    best
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
        if std::env::var("ORACLE_TRACE").is_ok() {
            eprintln!("panic {} at {}", m, l);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let c = Case::parse(&t).expect("case in replay file");
            let c2 = c.clone();
            let b = std::thread::Builder::new().stack_size(2 << 20).spawn(move || run(&c2, &mut Stat::default())).unwrap().join().unwrap();
            let prop = a.get(3).cloned();
            let mut f = false;
            for (p, m) in &b {
                println!("{}: {}", p, m);
                f |= prop.as_deref().map_or(true, |x| x == *p);
            }
            if !f {
                println!("holds");
            }
            std::process::exit(f as i32);
        }
        Some("search") => search(&a),
        Some("shims") => {
            let num = |k: usize, d: u64| a.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
            let r = shims::run(num(2, 1), num(3, 20000));
            let c: Vec<String> = r.contracts.iter().map(|(n, k)| format!("\"{}\": {}", n, k)).collect();
            println!("{{{}}}", c.join(", "));
            for f in &r.failures {
                println!("DIFFERENT {}", f);
            }
            std::process::exit(!r.failures.is_empty() as i32);
        }
        _ => {
            eprintln!("usage: oracle search PROP … | replay FILE [PROP]");
            std::process::exit(2);
        }
    }
}
fn search(a: &[String]) {
    let prop = a[2].clone();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let tier = opt("--tier", "quick");
    let seed: u64 = opt("--seed", "1").parse().unwrap_or(1);
    let out = opt("--out", ".");
    let src = opt("--src", "/repo/src");
    let pl = plan(&prop);
    let secs: u64 = opt("--secs", if tier == "quick" { "40" } else { "600" }).parse().unwrap();
    let total: u64 = opt("--count", "0").parse().unwrap_or(0);
    let total = if total > 0 { total } else if tier == "quick" { pl.quick } else { pl.thorough };
    let dict = Arc::new(dictionary(&src));
    let start = Instant::now();
    let threads: u64 = opt("--threads", "8").parse().unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Case, String)>>> = Default::default();
    struct T {
        since: AtomicU64,
        case: Mutex<Option<Case>>,
        done: AtomicBool,
    }
    let ts: Vec<Arc<T>> = (0..threads).map(|_| Arc::new(T { since: AtomicU64::new(0), case: Mutex::new(None), done: AtomicBool::new(false) })).collect();
    let mut hs = vec![];
    for t in 0..threads {
        let (prop, stop, found, dict, me, out) = (prop.clone(), stop.clone(), found.clone(), dict.clone(), ts[t as usize].clone(), out.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let cur = std::fs::File::create(format!("{}/cur.{}.{}", out, prop, t)).ok();
                    let mut evals = 0u64;
                    let mut valid = 0u64;
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut samples: Vec<String> = vec![];
                    let mut i = t;
                    while i < total && !stop.load(Ordering::Relaxed) && start.elapsed().as_secs() < secs {
                        let mut g = G::new(seed.wrapping_mul(1_000_003) ^ (i << 20) ^ i, dict.clone());
                        let c = gen(&prop, &mut g, i);
                        i += threads;
                        let Some(c) = c else { continue };
                        let small = c.data.len() < 1 << 17;
                        if small {
                            if let Some(f) = &cur {
                                let mut b = Vec::with_capacity(c.data.len() + 100);
                                let p: Vec<String> = c.params.iter().map(|x| x.to_string()).collect();
                                let _ = write!(b, "kind {}\nparams {}\nlen {}\n", c.kind, p.join(" "), c.data.len());
                                b.extend(&c.data);
                                let _ = f.write_all_at(&b, 0);
                            }
                        }
                        *me.case.lock().unwrap() = if small { Some(c.clone()) } else { Some(Case::new(&c.kind, c.params.clone(), vec![])) };
                        me.since.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut st = Stat::default();
                        let b = run(&c, &mut st);
                        me.since.store(0, Ordering::Relaxed);
                        evals += 1;
                        if st.valid {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (&c.kind, &c.params, &c.data).hash(&mut h);
                            if seen.len() < 4_000_000 && seen.insert(h.finish()) {
                                valid += 1;
                            }
                            if samples.len() < 1 && evals > 20 && c.data.len() < 400 {
                                samples.push(c.text());
                            }
                        }
                        if let Some(m) = relevant(&prop, &b) {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.0 > i) {
                                *f = Some((i, c, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    me.done.store(true, Ordering::Relaxed);
                    (evals, valid, samples)
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if ts.iter().all(|t| t.done.load(Ordering::Relaxed)) {
            break;
        }
        let now = start.elapsed().as_millis() as u64;
        for t in &ts {
            let s = t.since.load(Ordering::Relaxed);
            if s != 0 && now > s + 30_000 {
                let c = t.case.lock().unwrap().clone().unwrap_or_default();
                report(&prop, &out, &c, "no result within 30 s");
                std::process::exit(1);
            }
        }
    }
    let mut evals = 0;
    let mut valid = 0;
    let mut samples = vec![];
    for h in hs {
        if let Ok((e, v, s)) = h.join() {
            evals += e;
            valid += v;
            samples.extend(s);
        }
    }
    for t in 0..threads {
        let _ = std::fs::remove_file(format!("{}/cur.{}.{}", out, prop, t));
    }
    let s: Vec<String> = samples.iter().take(3).map(|x| esc(x)).collect();
    println!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"planned\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}}}",
        evals,
        valid,
        total,
        esc(pl.rule),
        s.join(", "),
        start.elapsed().as_secs_f64()
    );
    let f = found.lock().unwrap().take();
    if let Some((_, c, m)) = f {
        let c2 = c.clone();
        let p2 = prop.clone();
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || reduce(&p2, &c2)).unwrap().join().unwrap_or(c);
        let m = relevant(&prop, &run(&r, &mut Stat::default())).unwrap_or(m);
        report(&prop, &out, &r, &m);
        std::process::exit(1);
    }
}
fn report(prop: &str, out: &str, c: &Case, m: &str) {
    let path = format!("{}/{}.replay", out, prop);
    let t = format!("property {}\nfailure {}\n{}", prop, m.replace('\n', " | "), c.text());
    let _ = std::fs::write(&path, t);
    println!("FAILURE {}", path);
    println!("{}", m);
}
