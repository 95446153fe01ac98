// P04: primitive values in tag and map files: exact size, no effect outside the value, read/write identity, refusal when truncated.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::parse::{SimpleTagData, TagData};
use byteorder::{BigEndian, LittleEndian, ByteOrder};

/// A field that is a 32-bit float: any payload of NaN may come back as another NaN.
fn same_float(a: &[u8], b: &[u8], le: bool) -> bool {
    let f = |x: &[u8]| { let x: [u8; 4] = x.try_into().unwrap(); if le { u32::from_le_bytes(x) } else { u32::from_be_bytes(x) } };
    let nan = |x: u32| x & 0x7FFF_FFFF > 0x7F80_0000;
    let (a, b) = (f(a), f(b));
    (a == b) | (nan(a) & nan(b))
}
#[derive(Copy, Clone, PartialEq)]
enum Kind { Bits, Floats, Lossy }
fn rt1<T: SimpleTagData + PartialEq, B: ByteOrder>(size: usize, tail: usize, kind: Kind, le: bool) {
    let pre = split({ let p: u8 = any(); assume(p < 2); p as usize }) * 3;
    let n = pre + size + 2;
    let img = bytes(n);
    check!(T::simple_size() == size);
    check!(<T as TagData>::size() == size);
    let v = ok(T::read::<B>(&img, pre, n));
    check!(v.is_some());
    let v = v.unwrap();
    let mut out = bytes(n);
    let before = out.clone();
    check!(ok(v.write::<B>(&mut out, pre, n)).is_some());
    for i in 0..pre { check!(out[i] == before[i]) }
    for i in pre + size..n { check!(out[i] == before[i]) }
    match kind {
        Kind::Bits => for i in pre..pre + size { check!(out[i] == img[i]) },
        Kind::Floats => for i in (pre..pre + size).step_by(4) { check!(same_float(&img[i..i + 4], &out[i..i + 4], le)) },
        Kind::Lossy => {}
    }
    if kind != Kind::Floats {
        let w = ok(T::read::<B>(&out, pre, n));
        check!(w.is_some());
        check!(w.unwrap() == v);
    }
    // truncated data is refused (trailing padding need not be there)
    let cut = split({ let c: u8 = any(); assume((c as usize) < size); c as usize });
    let short = ok(T::read::<B>(&img[..pre + cut], pre, n));
    check!(short.is_none() | (cut >= size - tail));
    // the short form agrees
    let b = ok(v.as_bytes::<B>());
    check!(b.is_some());
    let b = b.unwrap();
    check!(b.bytes().len() == size);
    for i in 0..size { check!(b.bytes()[i] == out[pre + i]) }
    let c = b.to_vec();
    check!(c.len() == size && c[..] == out[pre..pre + size]);
}
fn rtp<T: SimpleTagData + PartialEq>(size: usize, tail: usize, kind: Kind) {
    if any() { rt1::<T, BigEndian>(size, tail, kind, false); cover!(0, true) } else { rt1::<T, LittleEndian>(size, tail, kind, true); cover!(1, true) }
}
fn rt<T: SimpleTagData + PartialEq>(size: usize, kind: Kind) { rtp::<T>(size, 0, kind) }
/// Any offset whatsoever: an error or an in-bounds read, never a panic; and in bounds means it succeeds.
fn far<T: SimpleTagData>() { farp::<T>(0) }
fn farp<T: SimpleTagData>(tail: usize) {
    let img = [0u8; 48];
    let at: usize = any();
    let r = ok(T::read::<BigEndian>(&img, at, usize::MAX));
    let fits = |n: usize| at <= 48 && n <= 48 - at;
    check!(r.is_some() | !fits(T::simple_size()));
    check!(r.is_none() | fits(T::simple_size() - tail) | (tail == T::simple_size()));
    cover!(0, r.is_some());
}
/// Both orders describe the same value with the bytes reversed.
fn swap<T: SimpleTagData + PartialEq, const N: usize>() {
    let a: [u8; N] = any();
    let mut b = a; b.reverse();
    let (x, y) = (ok(T::read::<BigEndian>(&a, 0, N)).unwrap(), ok(T::read::<LittleEndian>(&b, 0, N)).unwrap());
    check!(x == y);
}
use Kind::*;
harnesses! {
    fn s_ints() { rt::<u32>(4, Bits); rt::<i32>(4, Bits); }
    fn s_ints16() { rt::<u16>(2, Bits); rt::<i16>(2, Bits); }
    fn s_ints8() { rt::<u8>(1, Bits); rt::<i8>(1, Bits); rt::<bool>(1, Lossy); }
    fn s_size() { rt::<usize>(4, Bits); }
    fn s_index() { rt::<Index>(2, Bits); }
    fn s_id() { rt::<ID>(4, Bits); rt::<Address>(4, Bits); }
    fn s_color() { rt::<ColorARGBInt>(4, Bits); rt::<ColorARGBIntBytes>(4, Bits); }
    fn s_script_value() { rt::<ScenarioScriptNodeValue>(4, Bits); rt::<CompressedFloat>(2, Bits); }
    fn s_compressed() { rt::<CompressedVector3D>(4, Bits); rt::<CompressedVector2D>(4, Bits); }
    fn s_vec_int() { rt::<Vector2DInt>(4, Bits); rt::<Rectangle>(8, Bits); }
    fn s_angle() { rt::<Angle>(4, Floats); }
    fn s_float() { rt::<f64>(4, Floats); }
    fn s_vector2d() { rt::<Vector2D>(8, Floats); }
    fn s_vector3d() { rt::<Vector3D>(12, Floats); }
    fn s_quaternion() { rt::<Quaternion>(16, Floats); }
    fn s_euler() { rt::<Euler2D>(8, Floats); }
    fn s_euler3d() { rt::<Euler3D>(12, Floats); }
    fn s_matrix() { rt::<Matrix3x3>(36, Floats); }
    fn s_plane2d() { rt::<Plane2D>(12, Floats); }
    fn s_plane3d() { rt::<Plane3D>(16, Floats); }
    fn s_rgb() { rt::<ColorRGBFloat>(12, Floats); }
    fn s_argb() { rt::<ColorARGBFloat>(16, Floats); }
    fn s_array() { rt::<[u16; 3]>(6, Bits); rt::<[Index; 2]>(4, Bits); }
    fn s_array_floats() { rt::<[Angle; 3]>(12, Floats); }
    fn s_padding() { rtp::<Padding<[u8; 7]>>(7, 7, Lossy); }
    fn s_reflexive_header() { rtp::<ReflexiveC<u32>>(12, 4, Lossy); }
    fn s_data_header() { rtp::<DataC>(20, 4, Lossy); }
    /// The fields of the three pointer records lie where map files have them.
    fn s_records() {
        let d: [u8; 20] = any();
        let w = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
        let x = ok(DataC::read::<LittleEndian>(&d, 0, 20)).unwrap();
        check!(x.size == w(0)); check!(x.flags == w(4)); check!(x.file_offset == w(8)); check!(u32::from(x.address) == w(12));
        let r = ok(ReflexiveC::<u8>::read::<LittleEndian>(&d, 0, 20)).unwrap();
        check!(r.count == w(0)); check!(u32::from(r.address) == w(4));
        let t = ok(TagReferenceC::read::<LittleEndian>(&d, 0, 20)).unwrap();
        check!(u32::from(t.path_address) == w(4)); check!(t.path_length == w(8));
        check!(t.tag_id.as_u32() == if w(12) == 0 { u32::MAX } else { w(12) });
    }
    fn s_far() { match split({ let k: u8 = any(); assume(k < 14); k as usize }) {
        0 => far::<u32>(), 1 => far::<u8>(), 2 => far::<Index>(), 3 => far::<Vector3D>(), 4 => far::<String32>(), 5 => far::<Matrix3x3>(), 6 => far::<Plane3D>(),
        7 => far::<[u16; 4]>(), 8 => farp::<DataC>(4), 9 => farp::<ReflexiveC<u32>>(4), 10 => farp::<Padding<[u8; 5]>>(5), 11 => far::<Rectangle>(), 12 => far::<bool>(), _ => far::<ColorARGBFloat>(),
    } }
    fn s_byte_order() { swap::<u32, 4>(); swap::<i16, 2>(); swap::<ID, 4>(); swap::<Index, 2>(); swap::<ColorARGBInt, 4>(); swap::<CompressedVector3D, 4>(); swap::<Address, 4>(); swap::<usize, 4>(); }
    /// Chunked reading: exactly one item per chunk, or an error if the data does not divide.
    fn s_chunks() {
        let n = len(9);
        let d = bytes(n);
        let mut k = 0;
        match ok(u32::read_chunks_to_iterator::<BigEndian>(&d)) {
            Some(it) => { check!(n % 4 == 0); check!(it.len() == n / 4); for v in it { check!(ok(v) == Some(u32::from_be_bytes(d[k..k + 4].try_into().unwrap()))); k += 4 } check!(k == n) }
            None => check!(n % 4 != 0),
        }
        cover!(0, k == 8);
    }
    /// Sizes above what the format can hold are refused.
    fn s_size_limit() {
        let v: usize = any();
        let mut o = [0xAAu8; 4];
        let r = ok(v.write::<BigEndian>(&mut o, 0, 4)).is_some();
        check!(r == (v <= u32::MAX as usize));
        check!(if r { u32::from_be_bytes(o) as usize == v } else { o == [0xAA; 4] });
        let i: Index = if any() { Some(any()) } else { None };
        let mut o = [0u8; 2];
        let r = ok(i.write::<BigEndian>(&mut o, 0, 2)).is_some();
        check!(r == (i != Some(0xFFFF)));
        if r { check!(ok(Index::read::<BigEndian>(&o, 0, 2)) == Some(i)) }
        cover!(0, !r);
    }
    fn s_align() {
        let s: usize = any();
        let a = split({ let a: u8 = any(); assume(a != 0 && a.is_power_of_two()); a as usize });
        assume(s <= 0x7FFF_FFFF_FFFF_FFFF);
        let p = calculate_padding_for_alignment(s, a);
        check!(p < a);
        check!((s + p) % a == 0);
    }
}
kani_harnesses! {}
