//! Structured generators.
use std::io::Write;

pub struct G {
    s: u64,
    pub dict: std::sync::Arc<Dict>,
}
#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
/// Numbers and strings which occur in the sources.
pub fn dictionary(dir: &str) -> Dict {
    let mut d = Dict::default();
    let mut stack = vec![std::path::PathBuf::from(dir)];
    let mut files = Vec::new();
    while let Some(p) = stack.pop() {
        if let Ok(rd) = std::fs::read_dir(&p) {
            for e in rd.flatten() {
                let q = e.path();
                if q.is_dir() {
                    stack.push(q);
                } else if q.extension().map_or(false, |x| x == "rs") {
                    files.push(q);
                }
            }
        }
    }
    files.sort();
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let tok: String = t[i..j].chars().filter(|c| *c != '_').collect();
                let (radix, body) = if let Some(x) = tok.strip_prefix("0x") {
                    (16, x.to_string())
                } else if let Some(x) = tok.strip_prefix("0b") {
                    (2, x.to_string())
                } else {
                    (10, tok.clone())
                };
                let mut e = body.len();
                for suf in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "f32", "f64"] {
                    if body.ends_with(suf) && !(radix == 16 && suf.starts_with('f')) {
                        e = e.min(body.len() - suf.len());
                    }
                }
                if let Ok(v) = u64::from_str_radix(&body[..e], radix) {
                    d.nums.push(v);
                    d.nums.push(v.wrapping_add(1));
                    d.nums.push(v.wrapping_sub(1));
                    d.nums.push(v.wrapping_neg());
                }
                i = j;
            } else if b[i] == b'"' {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' && b[j] != b'\n' {
                    j += 1;
                }
                if j < b.len() && b[j] == b'"' && j > i + 1 && j - i < 60 {
                    d.strs.push(b[i + 1..j].to_vec());
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
    }
    d.nums.sort();
    d.nums.dedup();
    d.strs.sort();
    d.strs.dedup();
    d
}

pub type B = Vec<u8>;
pub fn w8(b: &mut B, x: u64) {
    b.push(x as u8)
}
pub fn w16(b: &mut B, x: u64) {
    b.extend((x as u16).to_le_bytes())
}
pub fn w32(b: &mut B, x: u64) {
    b.extend((x as u32).to_le_bytes())
}
pub fn wstr(b: &mut B, s: &[u8]) {
    let k = s.len().min(65535);
    w16(b, k as u64);
    b.extend(&s[..k]);
}

impl G {
    pub fn new(seed: u64, dict: std::sync::Arc<Dict>) -> G {
        let mut g = G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1, dict };
        for _ in 0..4 {
            let _ = g.next();
        }
        g
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, k: u64) -> u64 {
        if k == 0 {
            0
        } else {
            self.next() % k
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn p(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, x: &[T]) -> T {
        x[self.below(x.len() as u64) as usize].clone()
    }
    /// An interesting number of the given width.
    pub fn u(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(20) {
            0..=4 => self.below(8),
            5..=6 => m - self.below(3),
            7..=8 => (m >> 1).wrapping_add(self.below(3)).wrapping_sub(1),
            9 => {
                let k = self.below(bits as u64);
                (1u64 << k).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            10..=12 => {
                if self.dict.nums.is_empty() {
                    0
                } else {
                    let i = self.below(self.dict.nums.len() as u64) as usize;
                    self.dict.nums[i]
                }
            }
            13 => self.below(300),
            _ => self.next(),
        };
        v & m
    }
    pub fn bytes(&mut self, k: usize) -> B {
        let mode = self.below(4);
        (0..k)
            .map(|_| match mode {
                0 => self.next() as u8,
                1 => self.u(8) as u8,
                2 => self.pick(&[0u8, 255]),
                _ => self.below(4) as u8,
            })
            .collect()
    }
    /// Content of a string, nearly always valid UTF-8.
    pub fn text(&mut self) -> B {
        match self.below(24) {
            0..=2 => vec![],
            3..=9 => {
                let k = 1 + self.below(8) as usize;
                (0..k).map(|_| 32 + self.below(95) as u8).collect()
            }
            10..=12 => {
                let k = 1 + self.below(5);
                let mut s = String::new();
                for _ in 0..k {
                    s.push(self.pick(&['ä', '€', '𝄞', '\0', 'é', '日', '\u{7f}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', ' ', '\n', '\t', '\u{feff}']));
                }
                s.into_bytes()
            }
            13..=15 => {
                if self.dict.strs.is_empty() {
                    b"Layer 1".to_vec()
                } else {
                    let i = self.below(self.dict.strs.len() as u64) as usize;
                    self.dict.strs[i].clone()
                }
            }
            16 => {
                let k = self.pick(&[127usize, 128, 254, 255, 256, 257, 300, 511, 512, 513]);
                vec![b'a' + self.below(26) as u8; k]
            }
            17 => {
                if self.p(10) {
                    let k = self.pick(&[4096usize, 32767, 32768, 40000, 65535]);
                    vec![b'x'; k]
                } else {
                    b"  spaced  ".to_vec()
                }
            }
            18 => b" ".to_vec(),
            19 => {
                let mut s = self.pick(&[&b"Layer"[..], b"Tag", b"Background", b"a"]).to_vec();
                s.extend(format!(" {}", self.below(4)).bytes());
                s
            }
            20 => {
                if self.p(40) {
                    self.pick(&[&b"\xff"[..], b"\xc3", b"a\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"ab\xe2\x82", b"\xfe\xff"]).to_vec()
                } else {
                    b"ok".to_vec()
                }
            }
            _ => {
                let k = 1 + self.below(3) as usize;
                (0..k).map(|_| b'a' + self.below(3) as u8).collect()
            }
        }
    }
    pub fn string(&mut self, b: &mut B) {
        let s = self.text();
        wstr(b, &s);
    }
    fn small(&mut self) -> u64 {
        match self.below(10) {
            0..=1 => 0,
            2..=4 => 1,
            5..=6 => 2,
            7 => 3,
            8 => self.below(8),
            _ => self.below(40),
        }
    }
    pub fn gap(&mut self, b: &mut B, k: usize) {
        if self.p(50) {
            b.extend(vec![0; k]);
        } else {
            let x = self.bytes(k);
            b.extend(x);
        }
    }
    pub fn header(&mut self, w: u64, h: u64, depth: u64) -> B {
        let mut b = vec![];
        w32(&mut b, self.u(32));
        w16(&mut b, 0xA5E0);
        w16(&mut b, self.u(16));
        w16(&mut b, w);
        w16(&mut b, h);
        w16(&mut b, depth);
        w32(&mut b, self.u(32));
        w16(&mut b, self.u(16));
        w32(&mut b, 0);
        w32(&mut b, 0);
        w8(&mut b, self.u(8));
        self.gap(&mut b, 3);
        w16(&mut b, self.u(16));
        w8(&mut b, self.u(8));
        w8(&mut b, self.u(8));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        self.gap(&mut b, 84);
        b
    }
    pub fn any_header(&mut self) -> B {
        let w = self.u(16);
        let h = self.u(16);
        let d = match self.below(5) {
            0 => self.u(16),
            1 => 32,
            2 => 16,
            3 => 8,
            _ => self.next(),
        };
        let mut b = self.header(w, h, d);
        if self.p(5) {
            let i = self.pick(&[4usize, 5, 20, 21, 22, 23, 24, 25, 26, 27]);
            b[i] = self.u(8) as u8;
        }
        b
    }
    pub fn layer_with(&mut self, flags: u64, ty: u64, bm: u64, op: u64, name: &[u8]) -> B {
        let mut b = vec![];
        w16(&mut b, flags);
        w16(&mut b, ty);
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, bm);
        w8(&mut b, op);
        self.gap(&mut b, 3);
        wstr(&mut b, name);
        if ty == 2 {
            w32(&mut b, self.u(32));
        }
        b
    }
    pub fn layer(&mut self) -> B {
        let f = self.u(16);
        let t = if self.p(70) { self.below(4) } else { self.u(16) };
        let bm = if self.p(60) { self.below(20) } else { self.u(16) };
        let op = self.u(8);
        let n = self.text();
        self.layer_with(f, t, bm, op, &n)
    }
    pub fn cel_head(&mut self, layer: u64, x: i64, y: i64, ty: u64) -> B {
        let mut b = vec![];
        w16(&mut b, layer);
        w16(&mut b, x as u64);
        w16(&mut b, y as u64);
        w8(&mut b, self.u(8));
        w16(&mut b, ty);
        w16(&mut b, self.u(16));
        self.gap(&mut b, 5);
        b
    }
    pub fn cel(&mut self) -> B {
        let ty = if self.p(85) { self.below(5) } else { self.u(16) };
        let l = self.u(16);
        let x = self.u(16) as i64;
        let y = self.u(16) as i64;
        let mut b = self.cel_head(l, x, y, ty);
        match ty {
            0 | 2 => {
                w16(&mut b, self.u(16));
                w16(&mut b, self.u(16));
            }
            1 => w16(&mut b, self.u(16)),
            3 => {
                w16(&mut b, self.u(16));
                w16(&mut b, self.u(16));
                w16(&mut b, self.u(16));
                for _ in 0..4 {
                    w32(&mut b, self.u(32));
                }
                self.gap(&mut b, 10);
            }
            _ => {}
        }
        let k = self.small() as usize;
        let x = self.bytes(k);
        b.extend(x);
        b
    }
    pub fn cel_extra(&mut self) -> B {
        let mut b = vec![];
        w32(&mut b, self.u(32));
        for _ in 0..8 {
            w16(&mut b, self.u(16));
        }
        let k = if self.p(50) { 16 } else { self.small() as usize };
        self.gap(&mut b, k);
        b
    }
    pub fn blob(&mut self, b: &mut B) {
        let k = self.small() as usize;
        let l = if self.p(8) { self.u(32) } else { k as u64 };
        w32(b, l);
        let x = self.bytes(k);
        b.extend(x);
    }
    pub fn color_profile(&mut self) -> B {
        let mut b = vec![];
        let t = if self.p(80) { self.below(4) } else { self.u(16) };
        w16(&mut b, t);
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        self.gap(&mut b, 8);
        if t == 2 {
            self.blob(&mut b);
        }
        b
    }
    /// A count field: mostly the real count.
    fn cnt(&mut self, k: u64, bits: u32) -> u64 {
        if self.p(6) {
            self.u(bits)
        } else {
            k
        }
    }
    pub fn external_file(&mut self) -> B {
        let mut b = vec![];
        w32(&mut b, self.u(32));
        let t = if self.p(70) { self.below(4) } else { self.u(8) };
        w8(&mut b, t);
        self.gap(&mut b, 7);
        self.string(&mut b);
        b
    }
    pub fn external_files(&mut self) -> B {
        let mut b = vec![];
        let k = self.small();
        w32(&mut b, self.cnt(k, 32));
        self.gap(&mut b, 8);
        for _ in 0..k {
            let x = self.external_file();
            b.extend(x);
        }
        b
    }
    pub fn mask(&mut self) -> B {
        let mut b = vec![];
        for _ in 0..4 {
            w16(&mut b, self.u(16));
        }
        self.gap(&mut b, 8);
        self.string(&mut b);
        let k = self.small() as usize;
        let x = self.bytes(k);
        b.extend(x);
        b
    }
    pub fn packet(&mut self, skip: u64, k: u64) -> B {
        let mut b = vec![];
        w8(&mut b, skip);
        w8(&mut b, k);
        let x = self.bytes(if k == 0 { 768 } else { k as usize * 3 });
        b.extend(x);
        b
    }
    /// Old palette chunk; mostly with indices in range.
    pub fn old_palette(&mut self) -> B {
        let mut b = vec![];
        let k = self.small();
        w16(&mut b, self.cnt(k, 16));
        let mut left = 256u64;
        for _ in 0..k {
            let over = self.p(4);
            let skip = if over { self.u(8) } else { let m = left.min(255) + 1; if self.p(50) { self.below(4).min(left) } else { self.below(m) } };
            left = left.saturating_sub(skip);
            let n = if over || left == 0 {
                self.u(8)
            } else if left == 256 && self.p(30) {
                0
            } else if self.p(15) {
                left.min(255)
            } else {
                let m = if self.p(80) { 6 } else { 255 };
                1 + self.below(left.min(m))
            };
            left = left.saturating_sub(if n == 0 { 256 } else { n });
            let x = self.packet(skip, n);
            b.extend(x);
            if left == 0 && self.p(70) {
                break;
            }
        }
        b
    }
    pub fn palette_entry(&mut self) -> B {
        let mut b = vec![];
        let f = if self.p(60) { 0 } else { self.u(16) };
        w16(&mut b, f);
        for _ in 0..4 {
            w8(&mut b, self.u(8));
        }
        if f & 1 == 1 {
            self.string(&mut b);
        }
        b
    }
    pub fn palette(&mut self) -> B {
        let mut b = vec![];
        let a = if self.p(40) { 0 } else { self.u(8) };
        let z = if self.p(30) { 255 } else if self.p(20) { self.u(8) } else { (a + self.small()).min(255) };
        let size = if self.p(50) { z - a.min(z) + 1 } else { self.u(32) };
        w32(&mut b, size);
        let bad = self.p(6);
        let fa = if bad { self.u(32) } else { a };
        w32(&mut b, fa);
        let fz = if bad { self.u(32) } else { z };
        w32(&mut b, fz);
        self.gap(&mut b, 8);
        let k = (z + 1).saturating_sub(a);
        for _ in 0..k {
            let x = self.palette_entry();
            b.extend(x);
        }
        b
    }
    pub fn slice_key(&mut self, f: u64) -> B {
        let mut b = vec![];
        let k = 5 + if f & 1 == 1 { 4 } else { 0 } + if f & 2 == 2 { 2 } else { 0 };
        for _ in 0..k {
            w32(&mut b, self.u(32));
        }
        b
    }
    pub fn slice(&mut self) -> B {
        let mut b = vec![];
        let k = self.small();
        w32(&mut b, self.cnt(k, 32));
        let f = if self.p(70) { self.below(4) } else { self.u(32) };
        w32(&mut b, f);
        w32(&mut b, self.u(32));
        self.string(&mut b);
        for _ in 0..k {
            let x = self.slice_key(f);
            b.extend(x);
        }
        b
    }
    pub fn tag(&mut self) -> B {
        let mut b = vec![];
        let mut a = self.u(16);
        let mut z = self.u(16);
        if a > z && self.p(90) {
            std::mem::swap(&mut a, &mut z);
        }
        w16(&mut b, a);
        w16(&mut b, z);
        let d = if self.p(80) { self.below(5) } else { self.u(8) };
        w8(&mut b, d);
        w16(&mut b, self.u(16));
        self.gap(&mut b, 6);
        for _ in 0..3 {
            w8(&mut b, self.u(8));
        }
        let x = if self.p(50) { 0 } else { self.u(8) };
        w8(&mut b, x);
        self.string(&mut b);
        b
    }
    pub fn tags(&mut self) -> B {
        let k = self.small();
        let mut b = vec![];
        w16(&mut b, self.cnt(k, 16));
        self.gap(&mut b, 8);
        for _ in 0..k {
            let x = self.tag();
            b.extend(x);
        }
        b
    }
    pub fn tileset(&mut self) -> B {
        let mut b = vec![];
        w32(&mut b, self.u(32));
        let f = if self.p(70) { self.below(64) } else { self.u(32) };
        w32(&mut b, f);
        w32(&mut b, self.u(32));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        w16(&mut b, self.u(16));
        self.gap(&mut b, 14);
        self.string(&mut b);
        if f & 1 == 1 {
            w32(&mut b, self.u(32));
            w32(&mut b, self.u(32));
        }
        if f & 2 == 2 {
            self.blob(&mut b);
        }
        b
    }
    // ------------------------------------------------------------ user data
    fn scalar(&mut self, t: u64, b: &mut B) {
        let k = match t {
            1 | 2 | 3 => 1,
            4 | 5 => 2,
            6 | 7 | 10 | 11 => 4,
            8 | 9 | 12 | 14 | 15 => 8,
            16 | 19 => 16,
            13 => {
                self.string(b);
                return;
            }
            _ => 0,
        };
        match self.below(3) {
            0 if k % 2 == 0 => {
                for _ in 0..k / 2 {
                    w16(b, self.u(16));
                }
            }
            1 if k % 4 == 0 => {
                for _ in 0..k / 4 {
                    w32(b, self.u(32));
                }
            }
            _ => {
                let x = self.bytes(k);
                b.extend(x);
            }
        }
    }
    pub fn value(&mut self, b: &mut B, depth: u32) {
        let t = match self.below(30) {
            0 => self.u(16),
            1..=22 => 1 + self.below(19),
            _ => self.pick(&[17u64, 18]),
        };
        w16(b, t);
        self.typed(t, b, depth);
    }
    fn typed(&mut self, t: u64, b: &mut B, depth: u32) {
        match t {
            17 => self.vector(b, depth),
            18 => self.properties(b, depth),
            _ => self.scalar(t, b),
        }
    }
    fn items(&mut self, depth: u32) -> u64 {
        if depth > 3 {
            self.below(2)
        } else {
            self.small().min(6)
        }
    }
    pub fn vector(&mut self, b: &mut B, depth: u32) {
        let k = self.items(depth + 1);
        w32(b, self.cnt(k, 32));
        let t = match self.below(24) {
            0 => self.u(16),
            1..=4 => 0,
            _ => 1 + self.below(19),
        };
        w16(b, t);
        for _ in 0..k {
            if t == 0 {
                self.value(b, depth + 1);
            } else {
                self.typed(t, b, depth + 1);
            }
        }
    }
    fn properties(&mut self, b: &mut B, depth: u32) {
        let k = self.items(depth);
        w32(b, self.cnt(k, 32));
        for _ in 0..k {
            self.property(b, depth);
        }
    }
    pub fn property(&mut self, b: &mut B, depth: u32) {
        self.string(b);
        self.value(b, depth + 1);
    }
    pub fn pmap(&mut self, b: &mut B) {
        w32(b, self.u(32));
        self.properties(b, 0);
    }
    pub fn pmaps(&mut self, b: &mut B) {
        let k = self.small().min(4);
        let mut m = vec![];
        for _ in 0..k {
            self.pmap(&mut m);
        }
        if self.p(10) {
            let k = self.small() as usize;
            let x = self.bytes(k);
            m.extend(x);
        }
        let size = match self.below(20) {
            0 => self.u(32),
            1 => self.below(9),
            2 => m.len() as u64 + 8 + self.below(4),
            3 => (m.len() as u64 + 8).saturating_sub(self.below(4)),
            _ => m.len() as u64 + 8,
        };
        w32(b, size);
        w32(b, self.cnt(k, 32));
        b.extend(m);
    }
    pub fn user_data(&mut self) -> B {
        let mut b = vec![];
        let f = if self.p(85) { self.below(8) } else { self.u(32) };
        w32(&mut b, f);
        if f & 1 == 1 {
            self.string(&mut b);
        }
        if f & 2 == 2 {
            for _ in 0..4 {
                w8(&mut b, self.u(8));
            }
        }
        if f & 4 == 4 {
            self.pmaps(&mut b);
        }
        b
    }
    /// A value of the given type nested `d` levels deep, alternating kinds.
    pub fn deep(&mut self, d: usize, end: bool) -> B {
        let mut b = vec![];
        let mode = self.below(4);
        // kind of container at the top: value -> vector or map
        // what the enclosing construct expects: 0 value, 1 bare vector, 2 bare map
        let mut expect = 0;
        for i in 0..d {
            let map = match mode {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                _ => self.p(50),
            };
            let is_map = match expect {
                0 => {
                    w16(&mut b, if map { 18 } else { 17 });
                    map
                }
                1 => false,
                _ => true,
            };
            if is_map {
                w32(&mut b, 1);
                w16(&mut b, 0); // property name
                expect = 0;
            } else {
                w32(&mut b, 1);
                expect = match self.below(3) {
                    0 => 0,
                    1 => {
                        w16(&mut b, 17);
                        1
                    }
                    _ => {
                        w16(&mut b, 18);
                        2
                    }
                };
                if expect == 0 {
                    w16(&mut b, 0);
                }
            }
        }
        if end {
            match expect {
                0 => {
                    w16(&mut b, 1);
                    w8(&mut b, 1);
                }
                1 => {
                    w32(&mut b, 0);
                    w16(&mut b, 3);
                }
                _ => w32(&mut b, 0),
            }
        }
        b
    }
    // ------------------------------------------------------------- framing
    pub fn content(&mut self, kind: u64) -> B {
        match kind {
            0x0004 | 0x0011 => self.old_palette(),
            0x2004 => self.layer(),
            0x2005 => self.cel(),
            0x2006 => self.cel_extra(),
            0x2007 => self.color_profile(),
            0x2008 => self.external_files(),
            0x2016 => self.mask(),
            0x2018 => self.tags(),
            0x2019 => self.palette(),
            0x2020 => self.user_data(),
            0x2022 => self.slice(),
            0x2023 => self.tileset(),
            _ => {
                let k = self.small() as usize;
                self.bytes(k)
            }
        }
    }
    pub fn kind(&mut self) -> u64 {
        match self.below(10) {
            0 => self.u(16),
            1 => 0x2017,
            _ => self.pick(&KINDS),
        }
    }
    pub fn wrap_chunk(&mut self, kind: u64, content: &[u8], chaos: u64) -> B {
        let mut b = vec![];
        let extra = if self.p(12) { self.small() as usize } else { 0 };
        let mut size = content.len() as u64 + 6 + extra as u64;
        if self.below(1000) < chaos {
            size = match self.below(3) {
                0 => self.u(32),
                1 => self.below(8),
                _ => size.wrapping_add(self.below(5)).wrapping_sub(2),
            };
        }
        w32(&mut b, size);
        w16(&mut b, kind);
        b.extend(content);
        let x = self.bytes(extra);
        b.extend(x);
        b
    }
    pub fn chunk(&mut self, chaos: u64) -> B {
        let k = self.kind();
        let c = self.content(k);
        self.wrap_chunk(k, &c, chaos)
    }
    pub fn wrap_frame(&mut self, chunks: &[B], chaos: u64) -> B {
        let body: B = chunks.concat();
        let k = chunks.len() as u64;
        let extra = if self.p(12) { self.small() as usize } else { 0 };
        let mut size = body.len() as u64 + 16 + extra as u64;
        let mut magic = 0xF1FA;
        let (mut old, mut new) = match self.below(5) {
            0 => (k.min(0xFFFF), 0),
            1 => (self.u(16), k),
            2 => (0xFFFF, k),
            _ => (k.min(0xFFFF), k),
        };
        if k == 0 {
            old = 0;
        }
        if self.below(1000) < chaos {
            match self.below(5) {
                0 => size = self.u(32),
                1 => size = size.wrapping_add(self.below(5)).wrapping_sub(2),
                2 => magic = self.u(16),
                3 => new = new.wrapping_add(self.below(3)).wrapping_sub(1),
                _ => {
                    new = 0;
                    old = old.wrapping_add(self.below(3)).wrapping_sub(1);
                }
            }
        }
        let mut b = vec![];
        w32(&mut b, size);
        w16(&mut b, magic);
        w16(&mut b, old);
        w16(&mut b, self.u(16));
        self.gap(&mut b, 2);
        w32(&mut b, new);
        b.extend(body);
        let x = self.bytes(extra);
        b.extend(x);
        b
    }
    pub fn frame(&mut self, chaos: u64) -> B {
        let k = self.small().min(9);
        let c: Vec<B> = (0..k).map(|_| self.chunk(chaos)).collect();
        self.wrap_frame(&c, chaos)
    }
    /// Header and frames with arbitrary chunks.
    pub fn raw_file(&mut self, chaos: u64) -> B {
        let mut b = if self.below(1000) < chaos {
            self.any_header()
        } else {
            let w = self.u(16);
            let h = self.u(16);
            let d = self.pick(&[8u64, 16, 32]);
            self.header(w, h, d)
        };
        let k = 1 + self.below(3);
        for _ in 0..k {
            let f = self.frame(chaos);
            b.extend(f);
        }
        if self.below(1000) < chaos {
            let k = self.small() as usize;
            let x = self.bytes(k);
            b.extend(x);
        }
        b
    }
    pub fn mutate(&mut self, b: &mut B) {
        let k = 1 + self.below(3);
        for _ in 0..k {
            let l = b.len() as u64;
            match self.below(9) {
                0 if l > 0 => b.truncate(self.below(l) as usize),
                1 if l > 0 => {
                    let i = self.below(l) as usize;
                    b[i] ^= 1 << self.below(8);
                }
                2 if l > 0 => {
                    let i = self.below(l) as usize;
                    b[i] = self.u(8) as u8;
                }
                3 => {
                    let i = self.below(l + 1) as usize;
                    let x = self.u(8) as u8;
                    b.insert(i, x);
                }
                4 if l > 0 => {
                    let i = self.below(l) as usize;
                    let _ = b.remove(i);
                }
                5 if l >= 2 => {
                    let i = self.below(l - 1) as usize;
                    let x = (self.u(16) as u16).to_le_bytes();
                    b[i..i + 2].copy_from_slice(&x);
                }
                6 if l >= 4 => {
                    let i = self.below(l - 3) as usize;
                    let x = (self.u(32) as u32).to_le_bytes();
                    b[i..i + 4].copy_from_slice(&x);
                }
                7 => {
                    let k = 1 + self.below(20) as usize;
                    let x = self.bytes(k);
                    b.extend(x);
                }
                8 if l >= 4 => {
                    let i = self.below(l - 3) as usize;
                    let x: [u8; 4] = b[i..i + 4].try_into().unwrap();
                    let y = (u32::from_le_bytes(x).wrapping_add(self.below(5) as u32).wrapping_sub(2)).to_le_bytes();
                    b[i..i + 4].copy_from_slice(&y);
                }
                _ => {}
            }
        }
    }
}
pub const KINDS: [u64; 13] = [0x0004, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023];

pub fn deflate(data: &[u8], level: u32) -> B {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// What the sprite generator should emphasise.
#[derive(Clone, Copy)]
pub struct Opt {
    /// per mille of damaged parts
    pub chaos: u64,
    /// color depth or 0 for any
    pub depth: u64,
    /// per mille of damaged image data
    pub bad_image: u64,
    /// percent of chunks without effect on the picture
    pub noise: u64,
    /// only blend mode normal and opaque layers (percent)
    pub plain: u64,
    /// large coordinates and sizes (per mille)
    pub wide: u64,
    /// percent chance that a palette is more than one well-formed chunk
    pub palettes: u64,
    /// percent of user data chunks after chunks
    pub user: u64,
    /// many images of tiny size
    pub tiny: bool,
    /// beyond common limits: 1 large areas, 2 many layers, 3 many frames
    pub giant: u64,
}
pub const OPT: Opt = Opt { chaos: 2, depth: 0, bad_image: 20, noise: 10, plain: 30, wide: 10, palettes: 30, user: 10, tiny: false, giant: 0 };

impl G {
    pub fn pixel_data(&mut self, px: usize, depth: u64) -> B {
        let bpp = match depth {
            32 => 4,
            16 => 2,
            8 => 1,
            _ => self.pick(&[1usize, 2, 4]),
        };
        let mut b = self.bytes(px * bpp);
        if bpp > 1 && self.p(60) {
            let m = self.below(4);
            for i in 0..px {
                let a = &mut b[i * bpp + bpp - 1];
                *a = match m {
                    0 => 255,
                    1 => {
                        if i % 3 == 0 {
                            0
                        } else {
                            255
                        }
                    }
                    2 => *a | 0x80,
                    _ => (i * 37) as u8,
                };
            }
        }
        b
    }
    fn image(&mut self, w: u64, h: u64, depth: u64, bad: bool) -> (u64, B) {
        let mut px = (w * h) as usize;
        if bad && self.p(30) {
            px = if self.p(50) { px + 1 + self.below(3) as usize } else { px.saturating_sub(1 + self.below(3) as usize) };
        }
        let mut d = self.pixel_data(px, depth);
        if bad && self.p(20) {
            if self.p(50) {
                d.push(1);
            } else {
                let _ = d.pop();
            }
        }
        let compressed = self.p(60);
        if compressed {
            let lv = self.below(10) as u32;
            d = deflate(&d, lv);
            if bad {
                match self.below(4) {
                    0 => {
                        let k = 1 + self.below(8).min(d.len() as u64 - 1) as usize;
                        d.truncate(d.len() - k)
                    }
                    1 => {
                        let i = self.below(d.len() as u64) as usize;
                        d[i] ^= 1 << self.below(8);
                    }
                    _ => {}
                }
            }
            if self.p(5) {
                let k = self.small() as usize;
                let x = self.bytes(k);
                d.extend(x);
            }
        } else if bad {
            if self.p(50) {
                d.push(0);
            } else {
                let _ = d.pop();
            }
        }
        let mut b = vec![];
        w16(&mut b, w);
        w16(&mut b, h);
        b.extend(d);
        (if compressed { 2 } else { 0 }, b)
    }
    fn some_palette(&mut self, full: bool) -> B {
        if full {
            let kind = self.pick(&[0x2019u64, 0x2019, 0x0004, 0x0011]);
            let c = match kind {
                0x2019 => {
                    let mut b = vec![];
                    w32(&mut b, 256);
                    w32(&mut b, 0);
                    w32(&mut b, 255);
                    b.extend(vec![0; 8]);
                    for _ in 0..256 {
                        w16(&mut b, 0);
                        for j in 0..4 {
                            let v = if j == 3 && self.p(50) { 255 } else { self.next() };
                            w8(&mut b, v);
                        }
                    }
                    b
                }
                _ => {
                    let mut b = vec![1, 0];
                    let p = self.packet(0, 0);
                    b.extend(p);
                    b
                }
            };
            self.wrap_chunk(kind, &c, 0)
        } else {
            let kind = self.pick(&[0x2019u64, 0x0004, 0x0011]);
            let c = self.content(kind);
            self.wrap_chunk(kind, &c, 0)
        }
    }
    /// A sprite, mostly well-formed.
    pub fn sprite(&mut self, o: Opt) -> B {
        // one damaged part of hundreds would spoil most of them
        let o = if o.giant > 1 { Opt { chaos: 0, bad_image: o.bad_image / 100, noise: 0, ..o } } else { o };
        let depth = if self.below(1000) < o.chaos {
            self.u(16)
        } else if o.depth != 0 {
            o.depth
        } else {
            self.pick(&[8u64, 16, 32, 32])
        };
        let wide = o.giant == 0 && self.below(1000) < o.wide;
        const AREAS: [(u64, u64); 7] = [(300, 300), (256, 257), (65535, 2), (2, 40000), (520, 130), (600, 450), (257, 256)];
        let (w, h) = if o.giant == 1 {
            self.pick(&AREAS)
        } else if wide {
            match self.below(4) {
                0 => (self.pick(&[65535u64, 65534, 40000, 32768, 32767, 4096]), 1),
                1 => (1, self.pick(&[65535u64, 65534, 40000, 32768, 32767, 4096])),
                2 => (300, 3),
                _ => (257, 2),
            }
        } else if self.p(4) {
            (self.below(2), self.below(9))
        } else if self.p(10) {
            (1 + self.below(20), 1 + self.below(20))
        } else {
            (1 + self.below(8), 1 + self.below(6))
        };
        let nl = match o.giant {
            1 => 1 + self.below(2),
            2 => self.pick(&[40, 65, 80, 130, 257, 300]) + self.below(5),
            3 => 1 + self.below(2),
            _ if self.p(5) => self.below(20),
            _ => self.below(6),
        };
        let nf = match o.giant {
            1 => 1 + self.below(2),
            2 => 1 + self.below(3),
            3 => self.pick(&[40, 65, 130, 257, 300, 520]) + self.below(5),
            _ if self.p(5) => 1 + self.below(10),
            _ => 1 + self.below(4),
        };
        let mut frames: Vec<Vec<B>> = vec![vec![]; nf as usize];
        let ud = |g: &mut G, f: &mut Vec<B>, much: u64| {
            if g.p(much) {
                let k = if g.p(10) { 2 } else { 1 };
                for _ in 0..k {
                    let c = if g.p(60) {
                        let mut b = vec![1, 0, 0, 0];
                        let s = format!("u{}", g.below(1000));
                        wstr(&mut b, s.as_bytes());
                        b
                    } else {
                        g.user_data()
                    };
                    let c = g.wrap_chunk(0x2020, &c, 0);
                    f.push(c);
                }
            }
        };
        let noise = |g: &mut G, f: &mut Vec<B>, chaos: u64| {
            if g.p(o.noise) {
                let c = g.chunk(chaos);
                f.push(c);
            }
        };
        // palettes
        if self.p(if depth == 8 { 97 } else { 50 }) {
            let multi = self.p(o.palettes);
            if !multi {
                let c = self.some_palette(true);
                frames[0].push(c);
                ud(self, &mut frames[0], o.user);
            } else {
                let k = 1 + self.below(4);
                for _ in 0..k {
                    let fi = if self.p(70) { 0 } else { self.below(nf) as usize };
                    let full = self.p(15);
                    let c = self.some_palette(full);
                    frames[fi].push(c);
                    ud(self, &mut frames[fi], o.user);
                }
            }
        }
        // layers
        let mut names: Vec<B> = vec![];
        for _ in 0..nl {
            let t = match self.below(40) {
                0..=30 => 0,
                31..=35 => 1,
                36..=37 => 2,
                38 if o.giant == 0 => self.u(16),
                _ => 0,
            };
            let plain = self.p(o.plain);
            let bm = if plain {
                0
            } else if o.giant == 0 && self.below(1000) < 10 + o.chaos {
                self.u(16)
            } else {
                self.below(19)
            };
            let op = if plain || self.p(40) { 255 } else { self.u(8) };
            let fl = if self.p(75) { self.u(16) | 1 } else { self.u(16) & !1 };
            let name = if !names.is_empty() && self.p(15) { self.pick(&names) } else { self.text() };
            names.push(name.clone());
            let c = self.layer_with(fl, t, bm, op, &name);
            let c = self.wrap_chunk(0x2004, &c, o.chaos);
            let fi = if self.p(3) { self.below(nf) as usize } else { 0 };
            frames[fi].push(c);
            ud(self, &mut frames[fi], o.user);
            noise(self, &mut frames[fi], o.chaos);
        }
        if self.p(20 + o.user) {
            let c = self.tags();
            let c = self.wrap_chunk(0x2018, &c, o.chaos);
            let fi = if self.p(10) { self.below(nf) as usize } else { 0 };
            frames[fi].push(c);
            let k = self.below(4);
            for _ in 0..k {
                ud(self, &mut frames[fi], o.user * 3);
            }
        }
        if self.p(10 + o.user) {
            let c = self.slice();
            let c = self.wrap_chunk(0x2022, &c, o.chaos);
            let fi = if self.p(10) { self.below(nf) as usize } else { 0 };
            frames[fi].push(c);
            ud(self, &mut frames[fi], o.user);
        }
        // cels
        let mut has: Vec<Vec<usize>> = vec![vec![]; nl as usize];
        for fi in 0..nf as usize {
            let mut order: Vec<u64> = (0..nl).filter(|_| self.p(75)).collect();
            if self.p(15) {
                for i in (1..order.len()).rev() {
                    let j = self.below(i as u64 + 1) as usize;
                    order.swap(i, j);
                }
            }
            if self.p(8) && nl > 0 {
                let x = self.below(nl);
                order.push(x);
            }
            if self.below(1000) < o.chaos {
                let x = nl + self.below(2);
                order.push(x);
            }
            for li in order {
                let (x, y) = if wide && self.p(60) {
                    (
                        self.pick(&[0i64, -1, 32767, -32768, 32766, -32767, 300, -300, 16384]),
                        self.pick(&[0i64, -1, 32767, -32768, 32766, -32767, 300, -300, 16384]),
                    )
                } else if self.p(4) {
                    (self.u(16) as i16 as i64, self.u(16) as i16 as i64)
                } else if self.p(40) {
                    (0, 0)
                } else {
                    (self.range(-6, 9), self.range(-6, 9))
                };
                let known = (li as usize) < has.len();
                let bad = self.below(1000) < o.bad_image;
                let link_ok = known && !has[li as usize].is_empty();
                let (t, c) = if link_ok && self.p(20) || (known && self.below(1000) < o.chaos * 3) {
                    let to = if link_ok && !bad { self.pick(&has[li as usize]) as u64 } else { self.below(nf + 1) };
                    let mut b = vec![];
                    w16(&mut b, to);
                    (1, b)
                } else if self.below(1000) < o.chaos * 2 {
                    let c = self.cel();
                    let t = u16::from_le_bytes([c[7], c[8]]) as u64;
                    (t, c[16..].to_vec())
                } else {
                    let (cw, ch) = if wide {
                        match self.below(4) {
                            0 => (self.pick(&[65535u64, 40000, 32769, 300, 65534]), 1),
                            1 => (1, self.pick(&[65535u64, 40000, 32769, 300, 65534])),
                            2 => (260, 2),
                            _ => (3, 3),
                        }
                    } else if o.giant == 1 && self.p(70) {
                        if self.p(50) {
                            (w, h)
                        } else {
                            self.pick(&AREAS)
                        }
                    } else if o.tiny || o.giant > 1 {
                        (1 + self.below(2), 1 + self.below(2))
                    } else if self.p(4) {
                        (self.below(3), self.below(3))
                    } else if self.p(40) {
                        (w.max(1), h.max(1))
                    } else {
                        (1 + self.below(9), 1 + self.below(9))
                    };
                    if known && !has[li as usize].contains(&fi) {
                        has[li as usize].push(fi);
                    }
                    self.image(cw, ch, depth, bad)
                };
                let mut b = self.cel_head(li, x, y, t);
                b.extend(c);
                // surplus bytes would become pixel data
                let mut cb = vec![];
                w32(&mut cb, b.len() as u64 + 6);
                w16(&mut cb, 0x2005);
                cb.extend(b);
                frames[fi].push(cb);
                ud(self, &mut frames[fi], o.user);
                noise(self, &mut frames[fi], o.chaos);
            }
            noise(self, &mut frames[fi], o.chaos);
            if o.user > 20 && self.p(10) {
                // anything after anything
                let k = self.kind();
                let c = self.content(k);
                let c = self.wrap_chunk(k, &c, 0);
                frames[fi].push(c);
                ud(self, &mut frames[fi], o.user);
            }
            if o.user > 20 && self.p(10) && frames[fi].len() > 1 {
                let i = self.below(frames[fi].len() as u64) as usize;
                let j = self.below(frames[fi].len() as u64) as usize;
                frames[fi].swap(i, j);
            }
        }
        let mut b = self.header(w, h, depth);
        for f in &frames {
            let x = self.wrap_frame(f, o.chaos);
            b.extend(x);
        }
        b
    }
}
