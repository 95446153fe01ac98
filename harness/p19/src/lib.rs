// P19: resource maps: every resource is found with exactly its path and data, and a damaged file is an error.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::map::resource::*;

fn put(d: &mut [u8], at: usize, v: u32) { d[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
fn get(d: &[u8], at: usize) -> usize { u32::from_le_bytes([d[at], d[at + 1], d[at + 2], d[at + 3]]) as usize }
/// Header, data of two resources, paths, and the array, last.
fn sample() -> Vec<u8> {
    let mut d = Vec::new();
    d.extend_from_slice(&[1, 0, 0, 0]);
    for x in [24u32, 32, 2] { d.extend_from_slice(&x.to_le_bytes()) }
    d.extend_from_slice(b"AAABB\0\0\0");
    d.extend_from_slice(b"a\\b\0\xC3\xA9\0\0");
    for x in [0u32, 3, 16, 4, 2, 19] { d.extend_from_slice(&x.to_le_bytes()) }
    d
}
/// What the file says: None if it is damaged.
fn meaning(d: &[u8]) -> Option<Vec<(&[u8], &[u8], usize)>> {
    if d.len() < 16 { return None }
    let paths = d.get(get(d, 4)..)?;
    let (at, n) = (get(d, 8), get(d, 12));
    let mut v = Vec::new();
    if n > 1000 { return None }
    for i in 0..n {
        let a = at.checked_add(i * 12)?;
        let e = d.get(a..a.checked_add(12)?)?;
        let p = paths.get(get(e, 0)..)?;
        let p = &p[..p.iter().position(|c| *c == 0)?];
        std::str::from_utf8(p).ok()?;
        v.push((p, d.get(get(e, 8)..get(e, 8) + get(e, 4))?, get(e, 8)));
    }
    Some(v)
}
fn compare(d: &[u8]) {
    let m = ok(ResourceMap::from_data(d.to_vec()));
    let e = meaning(d);
    check!(m.is_some() == e.is_some());
    cover!(0, m.is_some());
    cover!(1, m.is_none());
    let (Some(m), Some(e)) = (m, e) else { return };
    check!(m.len() == e.len());
    for (i, (p, x, o)) in e.iter().enumerate() {
        let r = m.get(i).unwrap();
        check!(r.get_path().as_bytes() == *p && r.get_data() == *x && r.get_data_offset() == *o);
        let r = unsafe { m.get_unchecked(i) };
        check!(r.get_path().as_bytes() == *p && r.get_data() == *x);
        // the first one of that name
        let first = e.iter().position(|f| f.0 == *p).unwrap();
        let r = m.get_by_path(std::str::from_utf8(p).unwrap()).unwrap();
        check!(r.get_data() == e[first].1 && r.get_data_offset() == e[first].2);
    }
    check!(m.get(e.len()).is_none() && m.get(usize::MAX).is_none());
    check!(m.get_by_path("nothing").is_none());
    check!(m.data() == d && m.into_data() == d);
}
harnesses! {
    /// Any one number of the header or the array.
    fn s_number() {
        alloc_limit(1 << 16);
        let mut d = sample();
        let k = len(8);
        put(&mut d, if k < 3 { 4 + 4 * k } else { 32 + 4 * (k - 3) }, any());
        compare(&d);
    }
    /// Two numbers, below 64.
    fn s_two_numbers() {
        alloc_limit(1 << 16);
        let mut d = sample();
        for j in 0..2 {
            let k = len(8);
            if j == 1 { assume(k < 3) }
            let v: u8 = any();
            assume(v < 48);
            put(&mut d, if k < 3 { 4 + 4 * k } else { 32 + 4 * (k - 3) }, split(v as usize) as u32);
        }
        compare(&d);
    }
    /// Any three neighbouring bytes of the data and paths.
    fn s_text() {
        alloc_limit(1 << 16);
        let mut d = sample();
        let at = 16 + len(13);
        for i in 0..bound(2, 3) { d[at + i] = any() }
        compare(&d);
    }
    fn s_truncated() {
        alloc_limit(1 << 16);
        let d = sample();
        let n = len(d.len());
        compare(&d[..n]);
    }
    /// Any index.
    fn s_index() {
        let m = ok(ResourceMap::from_data(sample())).unwrap();
        let i: usize = any();
        let r = m.get(i);
        check!(r.is_some() == (i < 2));
        if let Some(r) = r { check!(r.get_data() == if i == 0 { &b"AAA"[..] } else { &b"BB"[..] }) }
    }
    /// Any path of up to three bytes.
    fn s_path() {
        let m = ok(ResourceMap::from_data(sample())).unwrap();
        let p = utf8(len(bound(3, 4)));
        let r = m.get_by_path(&p);
        check!(r.is_some() == (p == "a\\b" || p == "\u{e9}"));
        if let Some(r) = r { check!(r.get_path() == p) }
    }
}
kani_harnesses! {}
