//! Canonical values: both the reference and the real code are turned into
//! this tree and compared.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(i128),
    /// A numeric code: known to the specification or not, and its number.
    Code(bool, u64),
    Flags(Vec<(&'static str, bool)>),
    S(String),
    D(Vec<u8>),
    L(Vec<V>),
    R(&'static str, Vec<(&'static str, V)>),
    None,
    Some(Box<V>),
    Err,
}
pub fn n<T: Into<i128>>(x: T) -> V {
    V::N(x.into())
}
pub fn opt(x: Option<V>) -> V {
    match x {
        None => V::None,
        Some(v) => V::Some(Box::new(v)),
    }
}
fn short(v: &V) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push('…');
    }
    s
}
/// All differences as (path, expected, actual, is a code or flag).
pub fn diff(path: &str, e: &V, a: &V, out: &mut Vec<(String, String, String, bool)>) {
    if e == a {
        return;
    }
    match (e, a) {
        (V::R(x, xs), V::R(y, ys)) if x == y && xs.len() == ys.len() => {
            for ((k, p), (_, q)) in xs.iter().zip(ys) {
                diff(&format!("{}.{}", path, k), p, q, out);
            }
        }
        (V::L(xs), V::L(ys)) if xs.len() == ys.len() => {
            for (i, (p, q)) in xs.iter().zip(ys).enumerate() {
                diff(&format!("{}[{}]", path, i), p, q, out);
            }
        }
        (V::Some(x), V::Some(y)) => diff(path, x, y, out),
        _ => {
            let code = matches!(
                (e, a),
                (V::Code(..), V::Code(..)) | (V::Flags(_), V::Flags(_))
            );
            out.push((path.to_string(), short(e), short(a), code));
        }
    }
}
