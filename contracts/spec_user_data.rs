// Specification of user data chunks and property values.
pub mod spec_ud {
use vstd::prelude::*;
use crate::vx::*;
use crate::vx::prim::*;
use crate::spec::*;
use crate::binary::scalars::*;
use crate::binary::chunks::user_data::*;

/// Maximum nesting depth of vectors and properties maps.
pub open spec fn max_depth() -> int { 64 }
pub open spec fn sp_properties(d: int) -> Sp<Seq<PropertyV>> { |i: Seq<u8>| p_properties(d, i) }
pub open spec fn sp_property(d: int) -> Sp<PropertyV>
    decreases max_depth() - d, 5int
{ |i: Seq<u8>| p_property(d, i) }
pub open spec fn sp_value(d: int) -> Sp<ValueV>
    decreases max_depth() - d, 5int
{ |i: Seq<u8>| p_value(d, i) }
pub open spec fn sp_vector(d: int) -> Sp<VectorV>
    decreases max_depth() - d, 5int
{ |i: Seq<u8>| p_vector(d, i) }
pub open spec fn sp_nested_map(d: int) -> Sp<PropertiesMapV>
    decreases max_depth() - d, 5int
{ |i: Seq<u8>| p_nested_map(d, i) }
pub open spec fn sp_map() -> Sp<PropertiesMapV> { |i: Seq<u8>| p_map_top(i) }
pub open spec fn sp_uuid() -> Sp<u128> { |i: Seq<u8>| p_u128(i) }

pub open spec fn p_properties(d: int, i: Seq<u8>) -> Pv<Seq<PropertyV>>
    decreases max_depth() - d, 6int
{
    if i.len() < 4 || d > max_depth() { None } else { p_count(sp_property(d), u32_at(i, 0) as nat, sk(i, 4)) }
}
pub open spec fn p_property(d: int, i: Seq<u8>) -> Pv<PropertyV>
    decreases max_depth() - d, 3int
{
    if d > max_depth() { None } else { match p_string(i) { None => None, Some((name, r)) => match p_value(d, r) { None => None, Some((value, r2)) => Some((PropertyV { name, value }, r2)) } } }
}
/// Properties maps nested in a value have no extension entry ID.
pub open spec fn p_nested_map(d: int, i: Seq<u8>) -> Pv<PropertiesMapV>
    decreases max_depth() - d, 0int
{
    if d >= max_depth() { None } else { match p_properties(d + 1, i) { None => None, Some((properties, r)) => Some((PropertiesMapV { properties, extension_entry_id: 0 }, r)) } }
}
pub open spec fn mv<W>(p: Pv<W>, f: spec_fn(W) -> ValueV) -> Pv<ValueV> { match p { Some((v, r)) => Some((f(v), r)), None => None } }
pub open spec fn p_value(d: int, i: Seq<u8>) -> Pv<ValueV>
    decreases max_depth() - d, 2int
{
    if i.len() < 2 || d > max_depth() { None } else {
        let t = u16_at(i, 0); let j = sk(i, 2);
        if t == 0x01 { mv(p_bool(j), |v: bool| ValueV::Bool(v)) }
        else if t == 0x02 { mv(p_i8(j), |v: i8| ValueV::Int8(v)) }
        else if t == 0x03 { mv(p_u8(j), |v: u8| ValueV::Uint8(v)) }
        else if t == 0x04 { mv(p_i16(j), |v: i16| ValueV::Int16(v)) }
        else if t == 0x05 { mv(p_u16(j), |v: u16| ValueV::Uint16(v)) }
        else if t == 0x06 { mv(p_i32(j), |v: i32| ValueV::Int32(v)) }
        else if t == 0x07 { mv(p_u32(j), |v: u32| ValueV::Uint32(v)) }
        else if t == 0x08 { mv(p_i64(j), |v: i64| ValueV::Int64(v)) }
        else if t == 0x09 { mv(p_u64(j), |v: u64| ValueV::Uint64(v)) }
        else if t == 0x0A { mv(p_fixed(j), |v: Fixed| ValueV::Fixed(v)) }
        else if t == 0x0B { mv(p_f32(j), |v: f32| ValueV::Float(v)) }
        else if t == 0x0C { mv(p_f64(j), |v: f64| ValueV::Double(v)) }
        else if t == 0x0D { mv(p_string(j), |v: Seq<char>| ValueV::String(v)) }
        else if t == 0x0E { mv(p_point(j), |v: Point| ValueV::Point(v)) }
        else if t == 0x0F { mv(p_size(j), |v: Size| ValueV::Size(v)) }
        else if t == 0x10 { mv(p_rect(j), |v: Rect| ValueV::Rect(v)) }
        else if t == 0x11 { mv(p_vector(d, j), |v: VectorV| ValueV::Vector(v)) }
        else if t == 0x12 { mv(p_nested_map(d, j), |v: PropertiesMapV| ValueV::PropertiesMap(v)) }
        else if t == 0x13 { mv(p_u128(j), |v: u128| ValueV::Uuid(v)) }
        else { None }
    }
}
pub open spec fn vv<W>(p: Pv<Seq<W>>, f: spec_fn(Seq<W>) -> VectorV) -> Pv<VectorV> { match p { Some((v, r)) => Some((f(v), r)), None => None } }
/// Number of elements (DWORD), element type (WORD, 0 if every element is
/// preceded by its own type) and the elements.
pub open spec fn p_vector(d: int, i: Seq<u8>) -> Pv<VectorV>
    decreases max_depth() - d, 1int
{
    if d >= max_depth() || i.len() < 6 { None } else {
        let n = u32_at(i, 0) as nat; let t = u16_at(i, 4); let j = sk(i, 6);
        if t == 0 { vv(p_count(sp_value(d + 1), n, j), |v: Seq<ValueV>| VectorV::Mixed(v)) }
        else if t == 0x01 { vv(p_count(sp_bool(), n, j), |v: Seq<bool>| VectorV::Bool(v)) }
        else if t == 0x02 { vv(p_count(sp_i8(), n, j), |v: Seq<i8>| VectorV::Int8(v)) }
        else if t == 0x03 { vv(p_count(sp_u8(), n, j), |v: Seq<u8>| VectorV::Uint8(v)) }
        else if t == 0x04 { vv(p_count(sp_i16(), n, j), |v: Seq<i16>| VectorV::Int16(v)) }
        else if t == 0x05 { vv(p_count(sp_u16(), n, j), |v: Seq<u16>| VectorV::Uint16(v)) }
        else if t == 0x06 { vv(p_count(sp_i32(), n, j), |v: Seq<i32>| VectorV::Int32(v)) }
        else if t == 0x07 { vv(p_count(sp_u32(), n, j), |v: Seq<u32>| VectorV::Uint32(v)) }
        else if t == 0x08 { vv(p_count(sp_i64(), n, j), |v: Seq<i64>| VectorV::Int64(v)) }
        else if t == 0x09 { vv(p_count(sp_u64(), n, j), |v: Seq<u64>| VectorV::Uint64(v)) }
        else if t == 0x0A { vv(p_count(sp_fixed(), n, j), |v: Seq<Fixed>| VectorV::Fixed(v)) }
        else if t == 0x0B { vv(p_count(sp_f32(), n, j), |v: Seq<f32>| VectorV::Float(v)) }
        else if t == 0x0C { vv(p_count(sp_f64(), n, j), |v: Seq<f64>| VectorV::Double(v)) }
        else if t == 0x0D { vv(p_count(sp_string(), n, j), |v: Seq<Seq<char>>| VectorV::String(v)) }
        else if t == 0x0E { vv(p_count(sp_point(), n, j), |v: Seq<Point>| VectorV::Point(v)) }
        else if t == 0x0F { vv(p_count(sp_size(), n, j), |v: Seq<Size>| VectorV::Size(v)) }
        else if t == 0x10 { vv(p_count(sp_rect(), n, j), |v: Seq<Rect>| VectorV::Rect(v)) }
        else if t == 0x11 { vv(p_count(sp_vector(d + 1), n, j), |v: Seq<VectorV>| VectorV::Vector(v)) }
        else if t == 0x12 { vv(p_count(sp_nested_map(d + 1), n, j), |v: Seq<PropertiesMapV>| VectorV::PropertiesMap(v)) }
        else if t == 0x13 { vv(p_count(sp_u128(), n, j), |v: Seq<u128>| VectorV::Uuid(v)) }
        else { None }
    }
}
/// Properties maps of the chunk start with the extension entry ID.
pub open spec fn p_map_top(i: Seq<u8>) -> Pv<PropertiesMapV> {
    if i.len() < 4 { None } else { match p_properties(0, sk(i, 4)) { None => None, Some((properties, r)) => Some((PropertiesMapV { properties, extension_entry_id: u32_at(i, 0) }, r)) } }
}
/// Size in bytes (including the size and count fields) and number of maps.
pub open spec fn p_maps(i: Seq<u8>) -> Pv<Option<(Seq<PropertiesMapV>, Seq<u8>)>> {
    if i.len() < 8 || u32_at(i, 0) < 8 || i.len() < u32_at(i, 0) { None } else {
        let n = u32_at(i, 0) as int;
        Some((p_count(sp_map(), u32_at(i, 4) as nat, sbs(i, 8, n)), sk(i, n)))
    }
}
pub open spec fn sp_maps() -> Sp<Option<(Seq<PropertiesMapV>, Seq<u8>)>> { |i: Seq<u8>| p_maps(i) }
pub open spec fn p_user_data(i: Seq<u8>) -> Pv<UserDataChunkV> {
    if i.len() < 4 { None } else {
        let f = u32_at(i, 0);
        match opt(f & 1 == 1, p_string(sk(i, 4)), sk(i, 4)) { None => None, Some((text, r)) =>
            match opt(f & 2 == 2, p_color(r), r) { None => None, Some((color, r2)) =>
                match opt(f & 4 == 4, p_maps(r2), r2) { None => None, Some((properties_maps, r3)) =>
                    Some((UserDataChunkV { text, color, properties_maps }, r3)) } } }
    }
}
}
