// P16: access to tag data by name and index reaches exactly what it names and never panics.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use std::any::Any;
use ringhopper_primitives::{primitive::*, parse::*, tag::*, dynamic::*, map::*, error::*};

/// A structure with one field of every shape.
#[derive(Clone, Default)]
struct S { n: u8, pair: Bounds<u16>, list: Reflexive<Bounds<u16>>, arr: [i8; 3], locked: u32, sub: Inner }
#[derive(Clone, Default)]
struct Inner { x: u8, list: Reflexive<u8> }
macro_rules! boilerplate {
    ($t:ty, [$($f:ident),*], [$($ro:ident),*]) => {
        impl TagData for $t {
            fn size() -> usize { 0 }
            fn read_from_tag_file(_: &[u8], _: usize, _: usize, _: &mut usize) -> RinghopperResult<Self> { Err(Error::InvalidTagFile) }
            fn write_to_tag_file(&self, _: &mut Vec<u8>, _: usize, _: usize) -> RinghopperResult<()> { Err(Error::InvalidTagFile) }
            fn read_from_map<M: Map>(_: &M, _: usize, _: &DomainType) -> RinghopperResult<Self> { Err(Error::InvalidTagFile) }
        }
        impl TagDataDefaults for $t {}
        impl DynamicTagData for $t {
            fn get_field(&self, f: &str) -> Option<&dyn DynamicTagData> { match f { $(stringify!($f) => Some(&self.$f),)* _ => None } }
            fn get_field_mut(&mut self, f: &str) -> Option<&mut dyn DynamicTagData> { match f { $(stringify!($f) => Some(&mut self.$f),)* _ => None } }
            fn get_metadata_for_field(&self, f: &str) -> Option<TagFieldMetadata> { let mut m = TagFieldMetadata::default(); match f { $(stringify!($ro) => { m.read_only = true; Some(m) })* $(stringify!($f) => Some(m),)* _ => None } }
            fn fields(&self) -> &'static [&'static str] { &[$(stringify!($f)),*] }
            fn as_any(&self) -> &dyn Any { self }
            fn as_any_mut(&mut self) -> &mut dyn Any { self }
            fn data_type(&self) -> DynamicTagDataType { DynamicTagDataType::Block }
        }
    }
}
boilerplate!(S, [n, pair, list, arr, locked, sub], [locked]);
boilerplate!(Inner, [x, list], []);
fn sample(n: usize) -> S {
    S { n: 1, pair: Bounds { lower: 2, upper: 3 }, list: Reflexive { items: (0..n as u16).map(|i| Bounds { lower: 10 + 2 * i, upper: 11 + 2 * i }).collect() }, arr: [4, 5, 6], locked: 7,
        sub: Inner { x: 8, list: Reflexive { items: (0..n as u8).map(|i| 20 + i).collect() } } }
}
/// The numbers found (blocks and lists count as 1000 and 2000), or None when there was an error.
fn value(v: &dyn DynamicTagData) -> u32 {
    let a = v.as_any();
    if let Some(x) = a.downcast_ref::<u8>() { *x as u32 } else if let Some(x) = a.downcast_ref::<u16>() { *x as u32 } else if let Some(x) = a.downcast_ref::<i8>() { *x as u32 }
    else if let Some(x) = a.downcast_ref::<u32>() { *x } else if v.as_array().is_some() { 2000 } else { 1000 }
}
fn run(s: &mut S, m: &str) -> (Vec<u32>, usize) {
    let (mut got, mut bad) = (Vec::new(), 0);
    let d: &dyn DynamicTagData = s;
    d.foreach(m, |x| { match x { Ok(v) => got.push(value(v)), Err(_) => bad += 1 } true });
    check!(d.validate_matcher(m).is_ok() == (bad == 0));
    let (mut k, mut badm) = (0, 0);
    let d: &mut dyn DynamicTagData = s;
    d.foreach_mut(m, |x| { match x { Ok(v) => { check!(k < got.len() && got[k] == value(v)); k += 1 } Err(_) => badm += 1 } true });
    check!(k == got.len() && bad == badm);
    (got, bad)
}
const PATHS: [(&str, &[u32]); 22] = [
    ("", &[1000]), ("n", &[1]), ("pair", &[2000]), ("pair.lower", &[2]), ("pair.upper", &[3]), ("pair[*]", &[2, 3]), ("pair[e]", &[3]), ("list", &[2000]), ("list[0].lower", &[10]), ("list[1].upper", &[13]),
    ("list[*].upper", &[11, 13]), ("list[0,1].lower", &[10, 12]), ("list[1-1][0]", &[12]), ("list[*][*]", &[10, 11, 12, 13]), ("arr[0]", &[4]), ("arr[e]", &[6]), ("arr[0,2]", &[4, 6]), ("sub", &[1000]), ("sub.x", &[8]),
    ("sub.list[*]", &[20, 21]), ("sub.list", &[2000]), ("locked", &[7])
];
harnesses! {
    fn s_paths() {
        let i = split({ let i: u8 = any(); assume((i as usize) < PATHS.len()); i as usize });
        let (got, bad) = run(&mut sample(2), PATHS[i].0);
        check!(bad == 0 && got[..] == *PATHS[i].1);
    }
    /// One arbitrary character more, less or different: what is found is what the changed path names.
    fn s_near_paths() {
        let i = split({ let i: u8 = any(); assume((i as usize) < PATHS.len()); i as usize });
        let p = PATHS[i].0;
        let at = len(p.len());
        let c: u8 = any();
        assume(c < 128);
        let insert: bool = any();
        let mut b = p.as_bytes()[..at].to_vec();
        b.push(c);
        b.extend_from_slice(&p.as_bytes()[(if insert { at } else { at + 1 }).min(p.len())..]);
        let m = unsafe { String::from_utf8_unchecked(b) };
        let (got, bad) = run(&mut sample(2), &m);
        check!(bad <= 4);
        for (q, e) in PATHS { if q == m { check!(bad == 0 && got[..] == *e) } }
        // a name that is not a field is an error
        if at == 0 && insert && c.is_ascii_alphabetic() && !p.is_empty() { check!(bad == 1 && got.is_empty()) }
    }
    fn s_text() {
        let m = ["", "n", "list", "list[", "pair[0]", "sub."][split({ let i: u8 = any(); assume(i < 6); i as usize })].to_string() + &utf8(len(bound(3, 4)));
        let (got, bad) = run(&mut sample(1), &m);
        check!(!got.is_empty() || bad > 0);
        if !m.is_ascii() { check!(got.is_empty() && bad > 0) }
    }
    fn s_array() {
        let n = len(3);
        let i: usize = any();
        let mut r = Reflexive { items: (0..n as u32).map(|x| x + 5).collect::<Vec<u32>>() };
        check!(DynamicTagDataArray::len(&r) == n && r.as_array().unwrap().len() == n && r.as_array_mut().unwrap().len() == n);
        match r.get_at_index(i) { Some(x) => { check!(i < n); check!(value(x) == i as u32 + 5) } None => check!(i >= n) }
        match r.get_at_index_mut(i) { Some(x) => { check!(i < n); *x.as_any_mut().downcast_mut::<u32>().unwrap() = 99; } None => check!(i >= n) }
        for k in 0..n { check!(r.items[k] == if k == i { 99 } else { k as u32 + 5 }) }
        let mut a = [7u16, 8, 9];
        check!(a.as_array().unwrap().len() == 3);
        match a.get_at_index(i) { Some(x) => { check!(i < 3); check!(value(x) == i as u32 + 7) } None => check!(i >= 3) }
        match a.get_at_index_mut(i) { Some(x) => { check!(i < 3); check!(value(x) == i as u32 + 7) } None => check!(i >= 3) }
        let mut b = Bounds { lower: 1u8, upper: 2 };
        check!(b.as_array().unwrap().len() == 2);
        match b.get_at_index(i) { Some(x) => { check!(i < 2); check!(value(x) == i as u32 + 1) } None => check!(i >= 2) }
        match b.get_at_index_mut(i) { Some(x) => { check!(i < 2); check!(value(x) == i as u32 + 1) } None => check!(i >= 2) }
    }
    /// Adding an item moves the others up and leaves them as they are.
    fn s_insert() {
        let n = len(3);
        let at = split({ let i: u8 = any(); assume(i as usize <= n); i as usize });
        let old: Vec<u32> = (0..n).map(|_| any()).collect();
        let mut r = Reflexive { items: old.clone() };
        let mut v: u32 = any();
        let w = v;
        let how = split({ let h: u8 = any(); assume(h < 3); h as usize });
        let d = r.as_reflexive_mut().unwrap();
        match how { 0 => d.insert_default(at), 1 => d.insert_copy(at, &v), _ => d.insert_moved(at, &mut v) }
        check!(r.items.len() == n + 1);
        check!(r.items[at] == if how == 0 { 0 } else { w });
        for i in 0..n { check!(r.items[if i < at { i } else { i + 1 }] == old[i]) }
        check!((&mut [1u8, 2] as &mut dyn DynamicTagData).as_reflexive_mut().is_none() && (&mut 1u8 as &mut dyn DynamicTagData).as_array().is_none());
    }
    /// Walking a tag reaches every field once; the mutable walk leaves the read-only ones out unless told otherwise.
    fn s_walk() {
        let n = len(2);
        let mut s = sample(n);
        let mut got = Vec::new();
        for_each_field(&s, |_, f| got.push(value(f)));
        let ro: bool = any();
        // The items of bounds and arrays are values; those of lists are blocks, of which only the fields are
        let mut w2 = Vec::new();
        w2.extend_from_slice(&[1, 2000, 2, 3, 2000]);
        for i in 0..n as u32 { w2.push(10 + 2 * i); w2.push(11 + 2 * i) }
        w2.extend_from_slice(&[2000, 4, 5, 6, 7, 1000, 8, 2000]);
        check!(got.len() == w2.len());
        for i in 0..w2.len() { check!(got[i] == w2[i]) }
        let mut k = 0;
        for_each_field_mut(&mut s, ro, |m, f| {
            if !ro { check!(!m.is_some_and(|m| m.read_only)); if k < w2.len() && w2[k] == 7 { k += 1 } }
            check!(k < w2.len() && value(f) == w2[k]);
            k += 1
        });
        check!(k == w2.len());
    }
}
kani_harnesses! {}
