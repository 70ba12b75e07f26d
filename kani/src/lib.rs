//! The contracts which contracts/shim.rs assumes for nom, checked on nom's
//! own source by bounded model checking: every input of at most N bytes, every
//! count, and every parser as argument (a table from the position to the
//! result). Bounded, never counted as proved.
#![cfg(kani)]
use aseprite_loader::binary::errors::ParseError;
use nom::{bytes::complete as b, combinator as c, multi as m, number::complete as n, Err, IResult, Parser};
type R<'a, T> = IResult<&'a [u8], T, ParseError<'a>>;

fn input<const N: usize>(buf: &[u8; N]) -> &[u8] {
    let k: usize = kani::any();
    kani::assume(k <= N);
    &buf[..k]
}
/// `rest` is `i` without its first `k` bytes.
fn is_rest(i: &[u8], rest: &[u8], k: usize) -> bool {
    k <= i.len() && rest.len() == i.len() - k && rest.as_ptr() == i[k..].as_ptr()
}

macro_rules! number {
    ($f:ident, $n:literal, $w:ty, $t:ty, $bits:expr) => {
        #[kani::proof]
        #[kani::unwind(20)]
        fn $f() {
            let buf: [u8; $n + 2] = kani::any();
            let i = input(&buf);
            let r: R<$t> = n::$f(i);
            match r {
                Ok((rest, v)) => {
                    assert!(is_rest(i, rest, $n));
                    let mut w: $w = 0;
                    let mut k = 0;
                    while k < $n {
                        w |= (i[k] as $w) << (8 * k);
                        k += 1;
                    }
                    assert!($bits(v) == w);
                }
                Err(e) => assert!(i.len() < $n && matches!(e, Err::Error(_))),
            }
        }
    };
}
number!(le_u8, 1, u8, u8, |v: u8| v);
number!(le_u16, 2, u16, u16, |v: u16| v);
number!(le_u32, 4, u32, u32, |v: u32| v);
number!(le_u64, 8, u64, u64, |v: u64| v);
number!(le_u128, 16, u128, u128, |v: u128| v);
number!(le_i8, 1, u8, i8, |v: i8| v as u8);
number!(le_i16, 2, u16, i16, |v: i16| v as u16);
number!(le_i32, 4, u32, i32, |v: i32| v as u32);
number!(le_i64, 8, u64, i64, |v: i64| v as u64);
number!(le_f32, 4, u32, f32, |v: f32| v.to_bits());
number!(le_f64, 8, u64, f64, |v: f64| v.to_bits());

macro_rules! take {
    ($f:ident, $t:ty) => {
        #[kani::proof]
        #[kani::unwind(8)]
        fn $f() {
            let buf: [u8; 6] = kani::any();
            let i = input(&buf);
            let k: $t = kani::any();
            let r: R<&[u8]> = b::take(k)(i);
            match r {
                Ok((rest, v)) => assert!(is_rest(i, rest, k as usize) && v.len() == k as usize && v.as_ptr() == i.as_ptr()),
                Err(e) => assert!(i.len() < k as usize && !matches!(e, Err::Incomplete(_))),
            }
        }
    };
}
take!(take_u8, u8);
take!(take_u16, u16);
take!(take_u32, u32);
take!(take_usize, usize);

#[kani::proof]
#[kani::unwind(8)]
fn tag() {
    let buf: [u8; 6] = kani::any();
    let i = input(&buf);
    let t: [u8; 4] = kani::any();
    let t = input(&t);
    let same = i.len() >= t.len() && (0..t.len()).all(|k| i[k] == t[k]);
    let r: R<&[u8]> = b::tag(t).parse(i);
    match r {
        Ok((rest, v)) => assert!(same && is_rest(i, rest, t.len()) && v.len() == t.len() && v.as_ptr() == i.as_ptr()),
        Err(e) => assert!(!same && !matches!(e, Err::Incomplete(_))),
    }
}

const L: usize = 3;
/// Any parser: for every length of the rest of the input its value and the
/// number of bytes it consumes, or the kind of its error.
#[derive(Clone, Copy)]
struct Any([Result<(u8, usize), bool>; L + 1]);
impl Any {
    fn new() -> Self {
        let t = [Self::one(0), Self::one(1), Self::one(2), Self::one(3)];
        Any(t)
    }
    fn one(len: usize) -> Result<(u8, usize), bool> {
        if kani::any() {
            let k: usize = kani::any();
            kani::assume(k <= len);
            Ok((kani::any(), k))
        } else {
            Err(kani::any())
        }
    }
    fn run<'a>(&self, i: &'a [u8]) -> R<'a, u8> {
        match self.0[i.len()] {
            Ok((v, k)) => Ok((&i[k..], v)),
            Err(true) => Err(Err::Failure(ParseError::NestingTooDeep)),
            Err(false) => Err(Err::Error(ParseError::NestingTooDeep)),
        }
    }
}
fn not_incomplete<T>(r: &R<T>) -> bool {
    !matches!(r, Err(Err::Incomplete(_)))
}

#[kani::proof]
#[kani::unwind(6)]
fn map() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    let x: u8 = kani::any();
    let r: R<u8> = c::map(|i| p.run(i), |v: u8| v ^ x).parse(i);
    match p.0[i.len()] {
        Ok((v, k)) => assert!(matches!(r, Ok((rest, w)) if is_rest(i, rest, k) && w == v ^ x)),
        Err(_) => assert!(r.is_err() && not_incomplete(&r)),
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn cond() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    let on: bool = kani::any();
    let r: R<Option<u8>> = c::cond(on, |i| p.run(i)).parse(i);
    if !on {
        assert!(matches!(r, Ok((rest, None)) if is_rest(i, rest, 0)));
        return;
    }
    match p.0[i.len()] {
        Ok((v, k)) => assert!(matches!(r, Ok((rest, Some(w))) if is_rest(i, rest, k) && w == v)),
        Err(_) => assert!(r.is_err() && not_incomplete(&r)),
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn flat_map() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let (p, q) = (Any::new(), Any::new());
    let r: R<u8> = c::flat_map(|i| p.run(i), |v: u8| move |i| q.run(i).map(|(i, w)| (i, w ^ v))).parse(i);
    match p.0[i.len()] {
        Ok((v, k)) => match q.0[i.len() - k] {
            Ok((w, k2)) => assert!(matches!(r, Ok((rest, x)) if is_rest(i, rest, k + k2) && x == w ^ v)),
            Err(_) => assert!(r.is_err() && not_incomplete(&r)),
        },
        Err(_) => assert!(r.is_err() && not_incomplete(&r)),
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn map_res() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    let q: [bool; 2] = kani::any();
    let bad = std::str::from_utf8(&[0xff]).unwrap_err();
    let r: R<u8> = c::map_res(|i| p.run(i), |v: u8| if q[(v & 1) as usize] { Ok(v ^ 1) } else { Err(bad) }).parse(i);
    match p.0[i.len()] {
        Ok((v, k)) if q[(v & 1) as usize] => assert!(matches!(r, Ok((rest, w)) if is_rest(i, rest, k) && w == v ^ 1)),
        _ => assert!(r.is_err() && not_incomplete(&r)),
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn complete_all_consuming() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    let r: R<u8> = c::complete(c::all_consuming(|i| p.run(i))).parse(i);
    match p.0[i.len()] {
        Ok((v, k)) if k == i.len() => assert!(matches!(r, Ok((rest, w)) if is_rest(i, rest, k) && w == v)),
        _ => assert!(r.is_err() && not_incomplete(&r)),
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn count() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let r: R<Vec<u8>> = m::count(|i| p.run(i), n).parse(i);
    let (mut at, mut k, mut good, mut vs) = (i.len(), 0, true, [0u8; 3]);
    while k < n {
        match p.0[at] {
            Ok((v, u)) => {
                vs[k] = v;
                at -= u;
            }
            Err(_) => {
                good = false;
                break;
            }
        }
        k += 1;
    }
    match r {
        Ok((rest, w)) => {
            assert!(good && is_rest(i, rest, i.len() - at) && w.len() == n);
            let mut k = 0;
            while k < n {
                assert!(w[k] == vs[k]);
                k += 1;
            }
        }
        Err(e) => assert!(!good && !matches!(e, Err::Incomplete(_))),
    }
}
/// many1 below all_consuming: elements to the end of the input.
#[kani::proof]
#[kani::unwind(6)]
fn many1_all_consuming() {
    let buf: [u8; L] = kani::any();
    let i = input(&buf);
    let p = Any::new();
    // the precondition eof_is_error: the empty input is refused
    kani::assume(matches!(p.0[0], Err(false)));
    let r: R<Vec<u8>> = c::complete(c::all_consuming(m::many1(|i| p.run(i)))).parse(i);
    // the specification p_all of contracts/shim.rs
    let (mut at, mut k, mut good, mut vs) = (i.len(), 0, false, [0u8; L + 1]);
    while k <= L {
        match p.0[at] {
            Ok((v, u)) => {
                vs[k] = v;
                k += 1;
                let old = at;
                at -= u;
                if at == 0 {
                    good = true;
                    break;
                }
                if at >= old {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    match r {
        Ok((rest, w)) => {
            assert!(rest.is_empty());
            assert!(good && w.len() == k);
            let mut j = 0;
            while j < k {
                assert!(w[j] == vs[j]);
                j += 1;
            }
        }
        Err(e) => assert!(!good && !matches!(e, Err::Incomplete(_))),
    }
}

// std and machine floats -------------------------------------------------
#[kani::proof]
fn std_abs() {
    let a: i32 = kani::any();
    assert!(a.unsigned_abs() as i64 == if a < 0 { -(a as i64) } else { a as i64 });
    if a > i32::MIN {
        assert!(a.abs() as i64 == if a < 0 { -(a as i64) } else { a as i64 });
    }
}
macro_rules! diff {
    ($f:ident, $t:ty) => {
        #[kani::proof]
        fn $f() {
            let (a, b): ($t, $t) = (kani::any(), kani::any());
            assert!(a.abs_diff(b) == if a < b { b - a } else { a - b });
        }
    };
}
diff!(abs_diff_u8, u8);
diff!(abs_diff_u16, u16);
diff!(abs_diff_usize, usize);

#[kani::proof]
fn float_add_comm() {
    // Kani reports an arithmetic NaN as a failure of its own: finite operands
    let (a, b): (f64, f64) = (kani::any(), kani::any());
    kani::assume(a.is_finite() && b.is_finite());
    assert!((a + b).to_bits() == (b + a).to_bits());
}
#[kani::proof]
fn float_cmp() {
    let (a, b): (f64, f64) = (kani::any(), kani::any());
    assert!(a.partial_cmp(&b) == b.partial_cmp(&a).map(|o| o.reverse()));
    if !a.is_nan() && !b.is_nan() {
        assert!(a.partial_cmp(&b).is_some());
        assert!(!a.min(b).is_nan() && !a.max(b).is_nan());
    }
}
#[kani::proof]
fn float_unit() {
    let x: u8 = kani::any();
    assert!(!(x as f64 / 255.0).is_nan());
}
