// P06: variable-length tag data: what is written reads back as the same value, consumes exactly what was written, and is laid out as documented.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::parse::TagData;

/// Write `v` with its header at `pre` of a file that already has `tail` bytes after the header, and read it back.
fn rt<T: TagData + PartialEq>(v: &T) -> Vec<u8> {
    let pre = split({ let p: u8 = any(); assume(p < 2); p as usize }) * 3;
    let tail = split({ let p: u8 = any(); assume(p < 2); p as usize }) * 2;
    let size = T::size();
    let mut out = bytes(pre + size + tail);
    let before = out.clone();
    check!(ok(v.write_to_tag_file(&mut out, pre, pre + size)).is_some());
    check!(out.len() >= before.len());
    for i in 0..pre { check!(out[i] == before[i]) }
    for i in pre + size..before.len() { check!(out[i] == before[i]) }
    let mut cursor = before.len();
    let r = ok(T::read_from_tag_file(&out, pre, pre + size, &mut cursor));
    check!(r.is_some());
    check!(cursor == out.len());
    check!(r.unwrap() == *v);
    // one byte less: refused
    if out.len() > before.len() {
        let mut cursor = before.len();
        check!(ok(T::read_from_tag_file(&out[..out.len() - 1], pre, pre + size, &mut cursor)).is_none());
    }
    // trailing bytes do not matter to the value
    let end = out.len();
    out.push(any());
    let mut cursor = before.len();
    check!(ok(T::read_from_tag_file(&out, pre, pre + size, &mut cursor)).unwrap() == *v);
    check!(cursor == end);
    out.pop();
    let mut o = out[pre..pre + size].to_vec();
    o.extend_from_slice(&out[before.len()..]);
    o
}
fn be(v: usize) -> [u8; 4] { (v as u32).to_be_bytes() }
fn reference(long: bool) -> TagReference {
    let Some(g) = TagGroup::from_fourcc([0x77656170, 0x73626370, 0x6D6F6432, 0x736E6421, 0][split({ let i: u8 = any(); assume(i < 5); i as usize })]) else { return TagReference::Null(TagGroup::Model) };
    if any() { return TagReference::Null(g) }
    match ok(TagPath::new(&(if long { ascii(1 + len(1)) } else { "abc"[split({ let k: u8 = any(); assume(k < 2); k as usize })..].to_string() }), g)) { Some(p) => TagReference::Set(p), None => { assume(false); unreachable!() } }
}
harnesses! {
    fn s_data() {
        let d = bytes(len(bound(6, 40)));
        let o = rt(&Data::new(d.clone()));
        check!(o.len() == 20 + d.len() && o[..4] == be(d.len()) && o[4..20] == [0; 16] && o[20..] == d[..]);
        cover!(0, d.len() == 6);
    }
    fn s_file_data() {
        let d = bytes(len(bound(3, 20)));
        check!(rt(&FileData::new(d.clone()))[20..] == d[..]);
        check!(rt(&BSPVertexData::new(d.clone()))[20..] == d[..]);
    }
    fn s_utf16() {
        let b = bytes(len(bound(4, 8)));
        let mut file = [0u8; 20].to_vec();
        file[..4].copy_from_slice(&be(b.len())); file.extend_from_slice(&b);
        let mut cursor = 20;
        let v = ok(UTF16String::read_from_tag_file(&file, 0, 20, &mut cursor)).unwrap();
        check!(v.get_utf16_bytes() == &b[..]);
        let o = rt(&v);
        check!(o[..4] == be(b.len()) && o[20..] == b[..]);
    }
    fn s_reflexive() {
        let n = len(bound(3, 8));
        let v = Reflexive { items: (0..n).map(|_| any::<u32>()).collect() };
        let o = rt(&v);
        check!(o.len() == 12 + 4 * n && o[..4] == be(n) && o[4..12] == [0; 8]);
        for i in 0..n { check!(o[12 + 4 * i..16 + 4 * i] == v.items[i].to_be_bytes()) }
        cover!(0, n == 3);
    }
    /// Items first, then the extra data of each item in order.
    fn s_nested() {
        let n = len(bound(2, 3));
        let v = Reflexive { items: (0..n).map(|_| Data::new(bytes(len(2)))).collect() };
        let o = rt(&v);
        check!(o.len() == 12 + v.items.iter().map(|d| 20 + d.bytes.len()).sum::<usize>());
        let mut at = 12 + 20 * n;
        for d in &v.items { check!(o[at..at + d.bytes.len()] == d.bytes[..]); at += d.bytes.len() }
        cover!(0, o.len() == 12 + 40 + 4);
    }
    fn s_nested_twice() {
        let n = len(2);
        let v = Reflexive { items: (0..n).map(|_| { let k = len(2); Reflexive { items: (0..k).map(|_| Data::new(bytes(len(1)))).collect() } }).collect() };
        let o = rt(&v);
        cover!(0, o.len() == 12 + 2 * 12 + 4 * 21);
    }
    fn s_references() {
        let n = len(2);
        let v = Reflexive { items: (0..n).map(|_| reference(false)).collect() };
        let o = rt(&v);
        check!(o.len() == 12 + v.items.iter().map(|r| 16 + r.path().map_or(0, |p| p.path().len() + 1)).sum::<usize>());
        cover!(0, o.len() == 12 + 2 * 16 + 8);
    }
    fn s_reference() {
        let r = reference(true);
        let o = rt(&r);
        check!(o[..4] == r.group().as_fourcc().to_be_bytes());
        match r.path() {
            Some(p) => { let k = p.path().len(); check!(o[8..12] == be(k) && o.len() == 17 + k && o[16..16 + k] == *p.path().as_bytes() && o[16 + k] == 0) }
            None => check!(o.len() == 16 && o[8..12] == [0; 4])
        }
        check!(o[4..8] == [0; 4] && o[12..16] == [0xFF; 4]);
    }
}
kani_harnesses! {}
