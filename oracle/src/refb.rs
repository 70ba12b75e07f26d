//! Reference blending, written from Aseprite's src/doc/blend_funcs.cpp.
pub type P = [u8; 4];
fn mul_un8(a: i64, b: i64) -> i64 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}
fn div_un8(a: i64, b: i64) -> i64 {
    (a * 0xff + b / 2) / b
}
fn g(p: P) -> (i64, i64, i64, i64) {
    (p[0] as i64, p[1] as i64, p[2] as i64, p[3] as i64)
}
fn pk(r: i64, g: i64, b: i64, a: i64) -> P {
    [r as u8, g as u8, b as u8, a as u8]
}
pub fn normal(back: P, src: P, op: u8) -> P {
    if back[3] == 0 {
        let a = mul_un8(src[3] as i64, op as i64);
        return [src[0], src[1], src[2], a as u8];
    }
    if src[3] == 0 {
        return back;
    }
    let (br, bg, bb, ba) = g(back);
    let (sr, sg, sb, sa) = g(src);
    let sa = mul_un8(sa, op as i64);
    let ra = sa + ba - mul_un8(ba, sa);
    pk(br + (sr - br) * sa / ra, bg + (sg - bg) * sa / ra, bb + (sb - bb) * sa / ra, ra)
}
fn merge(back: P, src: P, op: i64) -> P {
    let (br, bg, bb, ba) = g(back);
    let (sr, sg, sb, sa) = g(src);
    let (r, gg, b) = if ba == 0 {
        (sr, sg, sb)
    } else if sa == 0 {
        (br, bg, bb)
    } else {
        (br + mul_un8(sr - br, op), bg + mul_un8(sg - bg, op), bb + mul_un8(sb - bb, op))
    };
    let a = ba + mul_un8(sa - ba, op);
    if a == 0 {
        [0, 0, 0, 0]
    } else {
        pk(r, gg, b, a)
    }
}
fn multiply(b: i64, s: i64) -> i64 {
    mul_un8(b, s)
}
fn screen(b: i64, s: i64) -> i64 {
    b + s - mul_un8(b, s)
}
fn hard_light(b: i64, s: i64) -> i64 {
    if s < 128 {
        multiply(b, s << 1)
    } else {
        screen(b, (s << 1) - 255)
    }
}
fn channel(mode: u16, b: i64, s: i64) -> i64 {
    match mode {
        1 => multiply(b, s),
        2 => screen(b, s),
        3 => hard_light(s, b),
        4 => b.min(s),
        5 => b.max(s),
        6 => {
            if b == 0 {
                0
            } else {
                let s = 255 - s;
                if b >= s {
                    255
                } else {
                    div_un8(b, s)
                }
            }
        }
        7 => {
            if b == 255 {
                255
            } else {
                let b = 255 - b;
                if b >= s {
                    0
                } else {
                    255 - div_un8(b, s)
                }
            }
        }
        8 => hard_light(b, s),
        9 => soft_light(b, s),
        10 => (b - s).abs(),
        11 => b + s - 2 * mul_un8(b, s),
        16 => (b + s).min(255),
        17 => (b - s).max(0),
        18 => {
            if b == 0 {
                0
            } else if b >= s {
                255
            } else {
                div_un8(b, s)
            }
        }
        _ => unreachable!(),
    }
}
pub fn soft_light(b: i64, s: i64) -> i64 {
    let b = b as f64 / 255.0;
    let s = s as f64 / 255.0;
    let d = if b <= 0.25 { ((16.0 * b - 12.0) * b + 4.0) * b } else { b.sqrt() };
    let r = if s <= 0.5 { b - (1.0 - 2.0 * s) * b * (1.0 - b) } else { b + (2.0 * s - 1.0) * (d - b) };
    (r * 255.0 + 0.5) as i64
}
fn lum(c: [f64; 3]) -> f64 {
    0.3 * c[0] + 0.59 * c[1] + 0.11 * c[2]
}
fn mn(x: f64, y: f64) -> f64 {
    if x < y { x } else { y }
}
fn mx(x: f64, y: f64) -> f64 {
    if x > y { x } else { y }
}
fn sat(c: [f64; 3]) -> f64 {
    mx(c[0], mx(c[1], c[2])) - mn(c[0], mn(c[1], c[2]))
}
fn clip_color(c: [f64; 3]) -> [f64; 3] {
    let l = lum(c);
    let lo = mn(c[0], mn(c[1], c[2]));
    let hi = mx(c[0], mx(c[1], c[2]));
    let mut r = c;
    if lo < 0.0 {
        for x in r.iter_mut() {
            *x = l + (((*x - l) * l) / (l - lo));
        }
    }
    if hi > 1.0 {
        for x in r.iter_mut() {
            *x = l + (((*x - l) * (1.0 - l)) / (hi - l));
        }
    }
    r
}
fn set_lum(c: [f64; 3], l: f64) -> [f64; 3] {
    let d = l - lum(c);
    clip_color([c[0] + d, c[1] + d, c[2] + d])
}
fn set_sat(c: [f64; 3], s: f64) -> [f64; 3] {
    let (r, g, b) = (c[0], c[1], c[2]);
    // The macros MIN, MAX and MID select references to the components.
    let gb_min = if g < b { 1 } else { 2 };
    let imin = if r < c[gb_min] { 0 } else { gb_min };
    let gb_max = if g > b { 1 } else { 2 };
    let imax = if r > c[gb_max] { 0 } else { gb_max };
    let imid = if r > g {
        if g > b {
            1
        } else if r > b {
            2
        } else {
            0
        }
    } else if g > b {
        if b > r {
            2
        } else {
            0
        }
    } else {
        1
    };
    let mut o = c;
    if o[imax] > o[imin] {
        o[imid] = ((o[imid] - o[imin]) * s) / (o[imax] - o[imin]);
        o[imax] = s;
    } else {
        o[imid] = 0.0;
        o[imax] = 0.0;
    }
    o[imin] = 0.0;
    o
}
fn unit(p: P) -> [f64; 3] {
    [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0]
}
fn baseline(mode: u16, back: P, src: P, op: u8) -> P {
    let s = match mode {
        12..=15 => {
            let b = unit(back);
            let f = unit(src);
            let c = match mode {
                12 => set_lum(set_sat(f, sat(b)), lum(b)),
                13 => set_lum(set_sat(b, sat(f)), lum(b)),
                14 => set_lum(f, lum(b)),
                _ => set_lum(b, lum(f)),
            };
            let q = |x: f64| (x * 255.0) as u8;
            [q(c[0]), q(c[1]), q(c[2]), src[3]]
        }
        _ => {
            let mut o = src;
            for i in 0..3 {
                o[i] = channel(mode, back[i] as i64, src[i] as i64) as u8;
            }
            o
        }
    };
    normal(back, s, op)
}
pub fn blend(mode: u16, back: P, src: P, op: u8) -> P {
    if mode == 0 || back[3] == 0 {
        return normal(back, src, op);
    }
    let norm = normal(back, src, op);
    let bl = baseline(mode, back, src, op);
    let m = merge(norm, bl, back[3] as i64);
    let sta = mul_un8(src[3] as i64, op as i64);
    let ca = mul_un8(back[3] as i64, sta);
    merge(m, bl, ca)
}
