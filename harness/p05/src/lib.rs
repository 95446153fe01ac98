// P05: decoding arbitrary tag-file bytes or map bytes: an error or a value whose data was really there; never a panic, never an
// allocation out of proportion to the input.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
#[path = "../../common/fakemap.rs"] pub mod fakemap;
use fakemap::FakeMap;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::parse::TagData;
use ringhopper_primitives::map::DomainType;

const LIMIT: usize = 4096;
/// Decode T whose header is at the start of an arbitrary image of n bytes; the extra data starts right after the header.
fn tag<T: TagData>(n: usize) -> Option<(T, Vec<u8>, usize)> {
    alloc_limit(LIMIT);
    let img = bytes(n);
    let mut cursor = T::size();
    let r = ok(T::read_from_tag_file(&img, 0, T::size(), &mut cursor));
    if r.is_some() { check!(cursor == T::size() || cursor <= n && cursor > T::size()) }
    cover!(0, r.is_none());
    let r = r?;
    Some((r, img, cursor))
}
fn word(d: &[u8], at: usize) -> usize { u32::from_be_bytes(d[at..at + 4].try_into().unwrap()) as usize }
fn le(d: &[u8], at: usize) -> usize { u32::from_le_bytes(d[at..at + 4].try_into().unwrap()) as usize }
fn data<T: TagData>(f: fn(&T) -> &[u8]) {
    let n = len(bound(26, 40));
    if let Some((v, img, cursor)) = tag::<T>(n) {
        let k = f(&v).len();
        check!(word(&img, 0) == k && cursor == 20 + k && *f(&v) == img[20..20 + k]);
        cover!(1, k == 3);
    }
}
/// As above with the extra-data cursor anywhere.
fn cursor<T: TagData>() {
    alloc_limit(LIMIT);
    let img = bytes(T::size() + 3);
    let start: usize = if any() { let s: usize = any(); assume(s > img.len() + 1); s } else { split({ let s: u8 = any(); assume(s as usize <= img.len() + 1 && s as usize + 2 >= T::size()); s as usize }) };
    let mut c = start;
    let r = ok(T::read_from_tag_file(&img, 0, T::size(), &mut c));
    if r.is_some() { check!(c >= start && (c == start || c <= img.len())) }
    cover!(0, r.is_some()); cover!(1, r.is_none());
}
/// An arbitrary map image of n bytes at one of three addresses, and any address to read from.
fn map(n: usize, last: usize) -> (FakeMap, usize) {
    alloc_limit(LIMIT);
    let base = [0, 0x40440000, 0xFFFF_FFE0][split({ let b: u8 = any(); assume(b < 3); b as usize })];
    let at = if any() { let a: usize = any(); assume(a < base || a > base + n); a } else { base + split({ let o: u8 = any(); assume(o as usize <= last); o as usize }) };
    (FakeMap::new(bytes(n), base), at)
}
fn same(v: &[u8], image: &[u8], offset: usize) {
    let k = split(v.len());
    if k == 0 { return }
    let o = split(offset);
    check!(o <= image.len() && k <= image.len() - o);
    for i in 0..k { check!(v[i] == image[o + i]) }
}
const D: DomainType = DomainType::TagData;
harnesses! {
    fn s_data() { data::<Data>(|v| &v.bytes) }
    fn s_file_data() { data::<FileData>(|v| &v.bytes) }
    fn s_bsp_data() { data::<BSPVertexData>(|v| &v.bytes) }
    fn s_utf16() { data::<UTF16String>(|v| v.get_utf16_bytes()) }
    fn s_cursor() { match split({ let k: u8 = any(); assume(k < 5); k as usize }) { 0 => cursor::<Data>(), 1 => cursor::<UTF16String>(), 2 => cursor::<TagReference>(), 3 => cursor::<Reflexive<u16>>(), _ => cursor::<Reflexive<Data>>() } }
    fn s_reflexive() {
        let n = len(bound(22, 32));
        if let Some((v, img, cursor)) = tag::<Reflexive<u32>>(n) {
            let k = v.items.len();
            check!(word(&img, 0) == k && cursor == 12 + 4 * k);
            for i in 0..k { check!(v.items[i] as usize == word(&img, 12 + 4 * i)) }
            cover!(1, k == 2);
        }
    }
    /// Items with extra data of their own.
    fn s_nested() {
        let n = len(bound(38, 50));
        if let Some((v, img, cursor)) = tag::<Reflexive<Data>>(n) {
            check!(word(&img, 0) == v.items.len());
            check!(cursor == 12 + v.items.iter().map(|d| 20 + d.bytes.len()).sum::<usize>());
            cover!(1, v.items.len() == 1 && v.items[0].bytes.len() == 2);
        }
    }
    fn s_nested_reflexive() {
        let n = len(bound(27, 44));
        if let Some((v, img, cursor)) = tag::<Reflexive<Reflexive<u8>>>(n) {
            check!(word(&img, 0) == v.items.len());
            check!(cursor == 12 + v.items.iter().map(|d| 12 + d.items.len()).sum::<usize>());
            cover!(1, v.items.len() == 1 && v.items[0].items.len() == 2);
        }
    }
    fn s_reference() {
        let n = len(bound(20, 24));
        if let Some((v, img, cursor)) = tag::<TagReference>(n) {
            let k = word(&img, 8);
            match v.path() {
                None => check!(k == 0 && cursor == 16),
                Some(p) => {
                    check!(p.path().len() == k && cursor == 17 + k && img[cursor - 1] == 0);
                    check!(*p.path().as_bytes() == img[16..16 + k]);
                }
            }
            cover!(1, k == 3);
        }
    }
    // ---- maps
    fn s_map_data() {
        let (m, at) = map(bound(22, 26), bound(1, 4));
        let Some(v) = ok(Data::read_from_map(&m, at, &D)) else { cover!(0, true); return };
        let h = m.slice(at, 20).unwrap();
        check!(v.bytes.len() == le(h, 0));
        same(&v.bytes, &m.data, le(h, 12).wrapping_sub(m.base));
        cover!(1, v.bytes.len() == 2);
    }
    fn s_map_reflexive() {
        let (m, at) = map(bound(20, 26), bound(8, 26));
        let Some(v) = ok(Reflexive::<u32>::read_from_map(&m, at, &D)) else { cover!(0, true); return };
        let h = m.slice(at, 12).unwrap();
        let (k, a) = (le(h, 0), le(h, 4));
        check!(v.items.len() == k);
        for i in 0..k { check!(v.items[i] as usize == le(m.slice(a + 4 * i, 4).unwrap(), 0)) }
        cover!(1, k == 2);
    }
    fn s_map_file_data() {
        let (m, at) = map(bound(22, 26), bound(1, 4));
        let Some(v) = ok(FileData::read_from_map(&m, at, &D)) else { cover!(0, true); return };
        let h = m.slice(at, 20).unwrap();
        check!(v.bytes.len() == le(h, 0));
        same(&v.bytes, &m.data, if le(h, 4) & 1 != 0 { le(h, 8).wrapping_sub(3) } else { le(h, 8) });
        cover!(1, v.bytes.len() == 1);
    }
    fn s_map_utf16() {
        let (m, at) = map(24, 24);
        let Some(v) = ok(UTF16String::read_from_map(&m, at, &D)) else { cover!(0, true); return };
        check!(v.get_utf16_bytes().len() == le(m.slice(at, 20).unwrap(), 0));
        cover!(1, v.get_utf16_bytes().len() == 2);
    }
    /// The vertices of a BSP: counts and offsets are the map's own.
    fn s_map_bsp_data() {
        let (mut m, at) = map(24, 24);
        let b = DomainType::BSP(0);
        m.engine = split({ let e: u8 = any(); assume(e < 4); e as usize });
        let (rc, ro, lc, lo) = (any::<u32>() as usize, any::<u32>() as usize, any::<u32>() as usize, any::<u32>() as usize);
        let compressed: bool = any();
        let r = ok(BSPVertexData::read_from_map_with_offset(&m, at, &b, compressed, rc, ro, lc, lo));
        if let Some(v) = &r { check!(v.bytes.len() <= 24) }
        cover!(0, r.is_some()); cover!(1, r.is_none());
    }
}
kani_harnesses! {}
