//! The contracts which the verified text assumes for nom, flate2 and std
//! (contracts/shim.rs), compared with the real thing.
use crate::gen::G;
use nom::Parser;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

type E<'a> = nom::error::Error<&'a [u8]>;
pub struct Report {
    pub contracts: Vec<(&'static str, u64)>,
    pub failures: Vec<String>,
}
impl Report {
    fn count(&mut self, name: &'static str, k: u64) {
        match self.contracts.iter_mut().find(|c| c.0 == name) {
            Some(c) => c.1 += k,
            None => self.contracts.push((name, k)),
        }
    }
    fn check(&mut self, name: &'static str, ok: bool, what: impl Fn() -> String) {
        self.count(name, 1);
        if !ok && self.failures.len() < 20 {
            self.failures.push(format!("{}: {}", name, what()));
        }
    }
}

fn number(i: &[u8], n: usize) -> Option<u128> {
    if i.len() < n {
        return None;
    }
    // independent of from_le_bytes: sum of the bytes times powers of 256
    Some((0..n).fold(0u128, |a, k| a + (i[k] as u128) * 256u128.pow(k as u32)))
}
fn signed(v: u128, n: usize) -> i128 {
    let half = 1i128 << (8 * n - 1);
    let v = v as i128;
    if v < half { v } else { v - 2 * half }
}

fn numbers(r: &mut Report, i: &[u8]) {
    macro_rules! num {
        ($f:ident, $n:expr, $conv:expr) => {{
            let got = nom::number::complete::$f::<_, E>(i);
            let want = number(i, $n);
            let ok = match (&got, &want) {
                (Ok((rest, v)), Some(w)) => $conv(*v, *w) && *rest == &i[$n..],
                (Err(nom::Err::Error(_)), None) => true,
                _ => false,
            };
            r.check(stringify!($f), ok, || format!("{:?} gives {:?}", i, got));
        }};
    }
    num!(le_u8, 1, |v: u8, w: u128| v as u128 == w);
    num!(le_u16, 2, |v: u16, w: u128| v as u128 == w);
    num!(le_u32, 4, |v: u32, w: u128| v as u128 == w);
    num!(le_u64, 8, |v: u64, w: u128| v as u128 == w);
    num!(le_u128, 16, |v: u128, w: u128| v == w);
    num!(le_i8, 1, |v: i8, w: u128| v as i128 == signed(w, 1));
    num!(le_i16, 2, |v: i16, w: u128| v as i128 == signed(w, 2));
    num!(le_i32, 4, |v: i32, w: u128| v as i128 == signed(w, 4));
    num!(le_i64, 8, |v: i64, w: u128| v as i128 == signed(w, 8));
    num!(le_f32, 4, |v: f32, w: u128| v.to_bits() as u128 == w);
    num!(le_f64, 8, |v: f64, w: u128| v.to_bits() as u128 == w);
}

/// The element parser of the combinator checks: a length byte and as many bytes.
fn elem<'a>(i: &'a [u8]) -> nom::IResult<&'a [u8], &'a [u8], E<'a>> {
    let (i, n) = nom::number::complete::le_u8(i)?;
    nom::bytes::complete::take(n % 4)(i)
}
fn p_elem(i: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = (*i.first()? % 4) as usize;
    if i.len() < 1 + n { None } else { Some((&i[1..1 + n], &i[1 + n..])) }
}
fn p_all(i: &[u8]) -> Option<Vec<&[u8]>> {
    let (v, rest) = p_elem(i)?;
    if rest.is_empty() {
        return Some(vec![v]);
    }
    let mut o = p_all(rest)?;
    o.insert(0, v);
    Some(o)
}
fn same<'a, T: PartialEq + std::fmt::Debug>(r: &mut Report, name: &'static str, i: &[u8], got: nom::IResult<&'a [u8], T, E<'a>>, want: Option<(T, &[u8])>) {
    let ok = match (&got, &want) {
        (Ok((rest, v)), Some((w, s))) => v == w && rest == s,
        (Err(nom::Err::Incomplete(_)), _) => false,
        (Err(_), None) => true,
        _ => false,
    };
    r.check(name, ok, || format!("{:?} gives {:?}, expected {:?}", i, got, want));
}
fn combinators(r: &mut Report, g: &mut G, i: &[u8]) {
    use nom::bytes::complete::{tag, take};
    use nom::combinator::{all_consuming, complete, cond, flat_map, map, map_res};
    use nom::multi::{count, many1};
    use nom::number::complete::le_u8;
    let n = g.below(8) as usize;
    let cut = |n: usize| if i.len() < n { None } else { Some((&i[..n], &i[n..])) };
    same(r, "take", i, take::<_, _, E>(n)(i), cut(n));
    same(r, "take", i, take::<_, _, E>(n as u32)(i), cut(n));
    same(r, "take", i, take::<_, _, E>(usize::MAX - n)(i), None);
    let t = &i[..(n / 2).min(i.len())];
    let mut t2 = t.to_vec();
    if g.p(50) {
        if let Some(x) = t2.last_mut() {
            *x ^= 1;
        }
    }
    same(r, "tag", i, tag::<_, _, E>(&t2[..])(i), if i.starts_with(&t2) { Some((&i[..t2.len()], &i[t2.len()..])) } else { None });
    let mut want = Some((vec![], i));
    for _ in 0..n {
        want = want.and_then(|(mut v, s)| p_elem(s).map(|(x, s)| { v.push(x); (v, s) }));
    }
    same(r, "count", i, count(elem, n).parse(i), want);
    same(r, "cond", i, cond(true, elem).parse(i), p_elem(i).map(|(v, s)| (Some(v), s)));
    same(r, "cond", i, cond(false, elem).parse(i), Some((None, i)));
    same(r, "map", i, map(elem, |x| x.len()).parse(i), p_elem(i).map(|(v, s)| (v.len(), s)));
    same(r, "flat_map(_, take)", i, flat_map(le_u8::<_, E>, |n| take(n)).parse(i), i.first().and_then(|n| if i.len() < 1 + *n as usize { None } else { Some((&i[1..1 + *n as usize], &i[1 + *n as usize..])) }));
    same(r, "map_res(_, from_utf8)", i, map_res(elem, std::str::from_utf8).parse(i), p_elem(i).and_then(|(v, s)| if utf8(v) { Some((std::str::from_utf8(v).unwrap(), s)) } else { None }));
    same(r, "complete(all_consuming(many1(_)))", i, complete(all_consuming(many1(elem))).parse(i), p_all(i).map(|v| (v, &[][..])));
}

/// Well-formed UTF-8 by the table of the Unicode standard (3-7).
fn utf8(b: &[u8]) -> bool {
    let mut k = 0;
    while k < b.len() {
        let (lo, hi, more) = match b[k] {
            0..=0x7f => { k += 1; continue }
            0xc2..=0xdf => (0x80, 0xbf, 1),
            0xe0 => (0xa0, 0xbf, 2),
            0xe1..=0xec | 0xee..=0xef => (0x80, 0xbf, 2),
            0xed => (0x80, 0x9f, 2),
            0xf0 => (0x90, 0xbf, 3),
            0xf1..=0xf3 => (0x80, 0xbf, 3),
            0xf4 => (0x80, 0x8f, 3),
            _ => return false,
        };
        for j in 1..=more {
            match b.get(k + j) {
                Some(x) if *x >= (if j == 1 { lo } else { 0x80 }) && *x <= (if j == 1 { hi } else { 0xbf }) => {}
                _ => return false,
            }
        }
        k += 1 + more;
    }
    true
}

/// RFC 1950/1951, written for this check: the content of the zlib stream at
/// the start of `d`.
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    struct Bits<'a> { d: &'a [u8], p: usize, b: u32, n: u32 }
    impl Bits<'_> {
        fn get(&mut self, k: u32) -> Option<u32> {
            while self.n < k {
                self.b |= (*self.d.get(self.p)? as u32) << self.n;
                self.p += 1;
                self.n += 8;
            }
            let v = self.b & ((1u64 << k) - 1) as u32;
            self.b >>= k;
            self.n -= k;
            Some(v)
        }
    }
    struct Code { count: [u16; 16], sym: Vec<u16> }
    fn code(len: &[u8], dist: bool) -> Option<Code> {
        let mut count = [0u16; 16];
        for l in len {
            count[*l as usize] += 1;
        }
        let mut left = 1i32;
        for l in 1..16 {
            left = left * 2 - count[l] as i32;
            if left < 0 {
                return None;
            }
        }
        let used: u16 = count[1..].iter().sum();
        if left > 0 && !(dist && used <= 1 && count[1] == used) && !(used == 1 && count[1] == 1) {
            return None;
        }
        let mut sym = vec![];
        for l in 1..16 {
            for (s, x) in len.iter().enumerate() {
                if *x as usize == l {
                    sym.push(s as u16);
                }
            }
        }
        Some(Code { count, sym })
    }
    fn decode(b: &mut Bits, c: &Code) -> Option<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= b.get(1)? as i32;
            let k = c.count[l] as i32;
            if code - k < first {
                return c.sym.get((index + code - first) as usize).copied();
            }
            index += k;
            first = (first + k) << 1;
            code <<= 1;
        }
        None
    }
    if d.len() < 2 || d[0] & 15 != 8 || d[0] >> 4 > 7 || (d[0] as u32 * 256 + d[1] as u32) % 31 != 0 || d[1] & 32 != 0 {
        return None;
    }
    const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LX: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    const DX: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
    let mut b = Bits { d, p: 2, b: 0, n: 0 };
    let mut o: Vec<u8> = vec![];
    loop {
        let last = b.get(1)?;
        let (lit, dist) = match b.get(2)? {
            0 => {
                b.b = 0;
                b.n = 0;
                let l = number(d.get(b.p..)?, 2)? as usize;
                let m = number(d.get(b.p + 2..)?, 2)? as usize;
                if l != !m & 0xffff {
                    return None;
                }
                o.extend(d.get(b.p + 4..b.p + 4 + l)?);
                b.p += 4 + l;
                if last == 1 { break } else { continue }
            }
            1 => {
                let mut l = [8u8; 288];
                l[144..256].fill(9);
                l[256..280].fill(7);
                let mut c = Code { count: [0; 16], sym: vec![] };
                c.count[5] = 30;
                c.sym = (0..30).collect();
                (code(&l, false)?, c)
            }
            2 => {
                let (nl, nd, nc) = (b.get(5)? as usize + 257, b.get(5)? as usize + 1, b.get(4)? as usize + 4);
                if nl > 286 || nd > 30 {
                    return None;
                }
                let mut l = [0u8; 19];
                for k in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].iter().take(nc) {
                    l[*k] = b.get(3)? as u8;
                }
                let c = code(&l, false)?;
                let mut l = vec![];
                while l.len() < nl + nd {
                    let (v, k) = match decode(&mut b, &c)? {
                        16 => (*l.last()?, 3 + b.get(2)?),
                        17 => (0, 3 + b.get(3)?),
                        18 => (0, 11 + b.get(7)?),
                        s => (s as u8, 1),
                    };
                    for _ in 0..k {
                        l.push(v);
                    }
                }
                if l.len() > nl + nd || l[256] == 0 {
                    return None;
                }
                (code(&l[..nl], false)?, code(&l[nl..], true)?)
            }
            _ => return None,
        };
        loop {
            let s = decode(&mut b, &lit)? as usize;
            match s {
                0..=255 => o.push(s as u8),
                256 => break,
                _ => {
                    let s = s - 257;
                    let l = *LB.get(s)? as usize + b.get(LX[s] as u32)? as usize;
                    let t = decode(&mut b, &dist)? as usize;
                    let t = *DB.get(t)? as usize + b.get(DX[t] as u32)? as usize;
                    let from = o.len().checked_sub(t)?;
                    for k in 0..l {
                        o.push(o[from + k]);
                    }
                }
            }
        }
        if last == 1 {
            break;
        }
    }
    // unused whole bytes of the bit buffer are not part of the stream
    let p = b.p - (b.n / 8) as usize;
    let (mut x, mut y) = (1u32, 0u32);
    for c in &o {
        x = (x + *c as u32) % 65521;
        y = (y + x) % 65521;
    }
    if d.get(p..p + 4)? == (y << 16 | x).to_be_bytes() { Some(o) } else { None }
}
fn zlib(r: &mut Report, g: &mut G) {
    let n = if g.p(5) { g.below(70000) } else { g.below(600) } as usize;
    let runs = g.p(50);
    let mut c = vec![];
    while c.len() < n {
        let v = g.next() as u8;
        let k = if runs { 1 + g.below(40) as usize } else { 1 };
        c.extend(std::iter::repeat(v).take(k));
        if c.len() > 20 && g.p(20) {
            let f = g.below(c.len() as u64 - 10) as usize;
            let l = (3 + g.below(200) as usize).min(c.len() - f);
            let x = c[f..f + l].to_vec();
            c.extend(x);
        }
    }
    let mut d = crate::gen::deflate(&c, g.below(10) as u32);
    match g.below(6) {
        0 => {
            let k = g.below(d.len() as u64 + 1) as usize;
            d.truncate(k);
        }
        1 => {
            let k = g.below(d.len() as u64) as usize;
            d[k] ^= 1 << g.below(8);
        }
        2 => {
            let k = g.below(9) as usize;
            let x = g.bytes(k);
            d.extend(x);
        }
        _ => {}
    }
    let want = inflate(&d);
    let len = want.as_ref().map_or(c.len(), |w| w.len());
    let t = match g.below(5) {
        0 => len.saturating_sub(1 + g.below(9) as usize),
        1 => len + g.below(9) as usize,
        _ => len,
    };
    let mut target = vec![0xa5u8; t];
    let mut z = flate2::Decompress::new(true);
    let got = z.decompress(&d, &mut target, flate2::FlushDecompress::Finish);
    let end = matches!(got, Ok(flate2::Status::StreamEnd));
    let fits = want.as_ref().is_some_and(|w| w.len() <= t);
    let mut ok = end == fits;
    if end && fits {
        let w = want.as_ref().unwrap();
        ok = z.total_out() == w.len() as u64 && target[..w.len()] == w[..];
    }
    r.check("Decompress::decompress", ok, || format!("{} bytes into {}: {:?}, reference {:?}", d.len(), t, got, want.as_ref().map(|w| w.len())));
}
fn std_parts(r: &mut Report, g: &mut G) {
    let n = g.below(9) as usize;
    let v: Vec<u32> = (0..n).map(|_| g.below(5) as u32).collect();
    let e: Vec<(usize, &u32)> = v.iter().enumerate().collect();
    r.check("enumerate", e.len() == n && (0..n).all(|k| e[k] == (k, &v[k])), || format!("{:?}", v));
    let size = 1 + g.below(5) as usize;
    let c: Vec<&[u32]> = v.chunks(size).collect();
    r.check("chunks", c.len() == (n + size - 1) / size && c.iter().enumerate().all(|(k, x)| *x == &v[k * size..((k + 1) * size).min(n)]), || format!("{:?} {}", v, size));
    let f: Vec<u32> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x * 3) } else { None }).collect();
    let mut w = vec![];
    for x in &v {
        if x % 2 == 0 {
            w.push(x * 3)
        }
    }
    r.check("filter_map", f == w, || format!("{:?}", v));
    let f: Vec<u32> = v.iter().flat_map(|x| vec![*x; *x as usize]).collect();
    let mut w = vec![];
    for x in &v {
        for _ in 0..*x {
            w.push(*x)
        }
    }
    r.check("flat_map", f == w, || format!("{:?}", v));
    let t: Result<Vec<u32>, u32> = v.iter().map(|x| if *x == 4 { Err(*x) } else { Ok(x + 1) }).collect();
    let bad = v.contains(&4);
    r.check("collect into Result", match &t { Ok(o) => !bad && o.len() == n && (0..n).all(|k| o[k] == v[k] + 1), Err(x) => bad && *x == 4 }, || format!("{:?}", v));
    let mut p = v.iter().peekable();
    let mut k = 0;
    let mut ok = true;
    for _ in 0..n + 2 {
        if g.p(50) {
            ok &= p.next() == v.get(k);
            k = (k + 1).min(n);
        } else {
            let got = p.next_if(|x| **x % 2 == 1);
            let want = v.get(k).filter(|x| **x % 2 == 1);
            ok &= got == want;
            if want.is_some() {
                k += 1;
            }
        }
    }
    r.check("Peekable", ok, || format!("{:?}", v));
    let mut a = v.clone();
    a.extend(w.iter().copied());
    r.check("Vec::extend", a.len() == n + w.len() && a[..n] == v[..] && a[n..] == w[..], || format!("{:?}", v));
    let (lo, hi, x) = (g.below(9) as i32 - 4, g.below(9) as i32 - 4, g.below(11) as i32 - 5);
    r.check("RangeInclusive::contains", (lo..=hi).contains(&x) == (lo <= x && x <= hi), || format!("{} {} {}", lo, hi, x));
    let mut m = HashMap::new();
    let mut list: Vec<((usize, usize), u32)> = vec![];
    for x in &v {
        let key = ((*x / 2) as usize, (*x % 2) as usize);
        m.insert(key, *x + n as u32);
        list.retain(|y| y.0 != key);
        list.push((key, *x + n as u32));
    }
    r.check("HashMap", (0..3).all(|a| (0..2).all(|b| m.get(&(a, b)).copied() == list.iter().find(|y| y.0 == (a, b)).map(|y| y.1))), || format!("{:?}", v));
    let (a, b, c, d) = (g.next() as usize, g.next() as u32, g.next() as i32, (g.next() as u16, g.next() as u16));
    let mut h1 = DefaultHasher::new();
    (a, b, c, d).hash(&mut h1);
    let mut h2 = DefaultHasher::new();
    a.hash(&mut h2);
    b.hash(&mut h2);
    c.hash(&mut h2);
    d.0.hash(&mut h2);
    d.1.hash(&mut h2);
    r.check("DefaultHasher", h1.finish() == h2.finish(), || format!("{:?}", (a, b, c, d)));
    let x = g.next() as i32;
    r.check("i32::unsigned_abs", x.unsigned_abs() as i64 == (x as i64).abs(), || format!("{}", x));
    if x > i32::MIN {
        r.check("i32::abs", x.abs() as i64 == if x < 0 { -(x as i64) } else { x as i64 }, || format!("{}", x));
    }
    let (a, b) = (g.next() as u16, g.next() as u16);
    let gap = |a: i64, b: i64| if a < b { b - a } else { a - b };
    r.check("abs_diff", a.abs_diff(b) as i64 == gap(a as i64, b as i64) && (a as u8).abs_diff(b as u8) as i64 == gap(a as u8 as i64, b as u8 as i64)
        && (a as usize).abs_diff(b as usize) as i64 == gap(a as i64, b as i64), || format!("{} {}", a, b));
    let o = if g.p(30) { None } else { Some(a) };
    let f = |x: u16| x % 3 == 1;
    r.check("Option::map_or", o.map_or(b, |x| x ^ 1) == match o { Some(x) => x ^ 1, None => b }, || format!("{:?}", o));
    r.check("Option::is_some_and", o.is_some_and(f) == match o { Some(x) => f(x), None => false }, || format!("{:?}", o));
    r.check("Option::filter", o.filter(|x| f(*x)) == match o { Some(x) if f(x) => o, _ => None }, || format!("{:?}", o));
    r.check("Option::or", o.or(Some(b)) == match o { Some(_) => o, None => Some(b) }, || format!("{:?}", o));
    let mut w = a;
    r.check("mem::replace", std::mem::replace(&mut w, b) == a && w == b, || format!("{} {}", a, b));
    let s: [u8; 4] = [1, 2, g.next() as u8, 4];
    r.check("array as slice", AsRef::<[u8]>::as_ref(&s) == &[s[0], s[1], s[2], s[3]], || String::new());
}

pub fn run(seed: u64, rounds: u64) -> Report {
    let mut r = Report { contracts: vec![], failures: vec![] };
    let mut g = G::new(seed ^ 0x51a7, Default::default());
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            numbers(&mut r, &[a, b]);
        }
    }
    // every sequence of up to three bytes, then longer ones
    for x in 0..1u32 << 24 {
        let b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        let k = if b[0] == 0 && b[1] == 0 { 2 } else { 0 };
        for s in [&b[k..], &b[1..]] {
            if std::str::from_utf8(s).is_ok() != utf8(s) {
                r.check("from_utf8", false, || format!("{:?}", s));
            }
        }
    }
    r.count("from_utf8", 2 << 24);
    for _ in 0..rounds {
        let k = g.below(20) as usize;
        let small = g.p(50);
        let mut b = g.bytes(k);
        if small {
            for x in b.iter_mut() {
                *x &= 7;
            }
        }
        numbers(&mut r, &b);
        combinators(&mut r, &mut g, &b);
        let mut u: Vec<u8> = String::from_iter((0..g.below(4)).filter_map(|_| char::from_u32(g.below(0x110000) as u32))).into_bytes();
        if g.p(60) && !u.is_empty() {
            let k = g.below(u.len() as u64) as usize;
            u[k] = g.next() as u8;
        }
        r.check("from_utf8", std::str::from_utf8(&u).is_ok() == utf8(&u), || format!("{:?}", u));
        std_parts(&mut r, &mut g);
    }
    for _ in 0..rounds / 4 {
        zlib(&mut r, &mut g);
    }
    floats(&mut r, &mut g, rounds);
    // ax_soft_light: the result of the formula is a channel value
    for b in 0..=255i64 {
        for s in 0..=255i64 {
            let v = crate::refb::soft_light(b, s);
            r.check("ax_soft_light", (0..=255).contains(&v), || format!("{} {} gives {}", b, s, v));
        }
    }
    r
}

fn flip(o: Option<std::cmp::Ordering>) -> Option<std::cmp::Ordering> {
    o.map(|o| o.reverse())
}

/// The laws of f64 which the contracts use.
fn floats(r: &mut Report, g: &mut G, rounds: u64) {
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
    let unit = |x: u64| x as f64 / 255.0;
    for x in 0..256 {
        r.check("ax_num_unit", !unit(x).is_nan(), || format!("{x}"));
    }
    for _ in 0..rounds {
        let mut one = || match g.below(3) {
            0 => f64::from_bits(g.next()),
            1 => unit(g.below(256)),
            _ => (g.below(4001) as f64 - 2000.0) / 1000.0,
        };
        let (a, b) = (one(), one());
        let b = if g.p(10) { a } else { b };
        r.check("ax_add_comm", same(a + b, b + a), || format!("{a} {b}"));
        r.check("ax_mul_comm", same(a * b, b * a), || format!("{a} {b}"));
        r.check("ax_cmp_flip", a.partial_cmp(&b) == flip(b.partial_cmp(&a)), || format!("{a} {b}"));
        if !a.is_nan() && !b.is_nan() {
            r.check("ax_cmp_num", a.partial_cmp(&b).is_some(), || format!("{a} {b}"));
            r.check("ax_num_min", !a.min(b).is_nan() && !a.max(b).is_nan(), || format!("{a} {b}"));
        }
    }
}
