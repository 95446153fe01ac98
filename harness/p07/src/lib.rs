// P07: the tag file container: layout of the header, refusal of anything damaged, nothing left over.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use std::any::Any;
use ringhopper_primitives::{primitive::*, parse::*, tag::*, dynamic::*, map::*, error::*, crc32::CRC32};

/// A tag with one number and one block of variable length.
#[derive(Clone, Default, PartialEq)]
struct T { n: u16, d: Data, m: PrimaryTagStructMetadata }
impl TagData for T {
    fn size() -> usize { 22 }
    fn read_from_tag_file(data: &[u8], at: usize, end: usize, cursor: &mut usize) -> RinghopperResult<Self> {
        Ok(T { n: u16::read_from_tag_file(data, at, end, cursor)?, d: Data::read_from_tag_file(data, at + 2, end, cursor)?, m: Default::default() })
    }
    fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, end: usize) -> RinghopperResult<()> {
        self.n.write_to_tag_file(data, at, end)?;
        self.d.write_to_tag_file(data, at + 2, end)
    }
    fn read_from_map<M: Map>(_: &M, _: usize, _: &DomainType) -> RinghopperResult<Self> { Err(Error::InvalidTagFile) }
}
impl TagDataDefaults for T {}
impl DynamicTagData for T {
    fn get_field(&self, _: &str) -> Option<&dyn DynamicTagData> { None }
    fn get_field_mut(&mut self, _: &str) -> Option<&mut dyn DynamicTagData> { None }
    fn get_metadata_for_field(&self, _: &str) -> Option<TagFieldMetadata> { None }
    fn fields(&self) -> &'static [&'static str] { &[] }
    fn as_any(&self) -> &dyn Any { self }
    fn as_any_mut(&mut self) -> &mut dyn Any { self }
    fn data_type(&self) -> DynamicTagDataType { DynamicTagDataType::Block }
}
const GROUP: TagGroup = TagGroup::Weapon;
const VERSION: u16 = 0x0103;
impl PrimaryTagStruct for T {
    fn group() -> TagGroup { GROUP }
    fn version() -> u16 { VERSION }
    fn metadata(&self) -> &PrimaryTagStructMetadata { &self.m }
    fn metadata_mut(&mut self) -> &mut PrimaryTagStructMetadata { &mut self.m }
}
fn file(t: &T) -> Vec<u8> { ok(TagFile::to_tag_file(t)).unwrap() }
fn read(f: &[u8], strict: bool) -> Option<T> { ok(TagFile::read_tag_from_file_buffer::<T>(f, if strict { ParseStrictness::Strict } else { ParseStrictness::Relaxed })) }
fn sample() -> T { T { n: 0x1234, d: Data::new([5u8, 0, 0xFF].to_vec()), m: Default::default() } }
harnesses! {
    fn s_layout() {
        let n = len(bound(4, 8));
        let mut d: Vec<u8> = (0..n as u8).map(|x| x.wrapping_mul(0x5B)).collect();
        let mut t = T { n: 0x1234, d: Default::default(), m: Default::default() };
        // one arbitrary byte, anywhere
        match split({ let i: u8 = any(); assume(i as usize <= n); i as usize }) { 0 => t.n = 0x1200 | any::<u8>() as u16, i => d[i - 1] = any() }
        t.d = Data::new(d);
        let f = file(&t);
        check!(f.len() == 0x40 + 22 + t.d.bytes.len());
        for i in 0..0x24 { check!(f[i] == 0) }
        check!(f[0x24..0x28] == *b"weap");
        let mut c = CRC32::new();
        c.update(&f[0x40..]);
        check!(f[0x28..0x2C] == c.crc().to_be_bytes());
        check!(f[0x2C..0x30] == [0, 0, 0, 0x40]);
        for i in 0x30..0x38 { check!(f[i] == 0) }
        check!(f[0x38..0x3C] == [1, 3, 0, 0xFF]);
        check!(f[0x3C..0x40] == *b"blam");
        check!(f[0x40..0x42] == t.n.to_be_bytes() && f[0x42..0x46] == (t.d.bytes.len() as u32).to_be_bytes());
        check!(f[0x56..] == t.d.bytes[..]);
        check!(read(&f, true).unwrap() == t);
        check!(read(&f, false).unwrap() == t);
        check!(PrimaryTagStructDyn::to_tag_file(&t).ok().unwrap() == f);
        check!(PrimaryTagStructDyn::group(&t) == GROUP);
    }
    /// Any change of any byte after the header is noticed.
    fn s_damaged_data() {
        let mut f = file(&sample());
        let at = 0x40 + split({ let i: u8 = any(); assume((i as usize) < 25); i as usize });
        let x: u8 = any();
        assume(x != 0);
        f[at] ^= x;
        check!(read(&f, true).is_none());
        check!(ok(TagFile::load_header_and_data(&f, ParseStrictness::Strict)).is_none());
        check!(ok(TagFile::load_header_and_data(&f, ParseStrictness::Relaxed)).is_some());
        // in the number or the contents: still readable when asked to be relaxed
        if at < 0x42 || at >= 0x56 { let t = read(&f, false).unwrap(); check!(t.n.to_be_bytes() == f[0x40..0x42] && t.d.bytes == f[0x56..]) }
        // in the size
        if at >= 0x42 && at < 0x46 { check!(read(&f, false).is_none()) }
    }
    fn s_two_bytes_swapped() {
        let mut f = file(&T { n: 0, d: Data::new([1, 2, 3, 4, 5].to_vec()), m: Default::default() });
        let (i, j) = (split({ let i: u8 = any(); assume(i < 5); i as usize }), split({ let i: u8 = any(); assume(i < 5); i as usize }));
        assume(i != j);
        f.swap(0x56 + i, 0x56 + j);
        check!(read(&f, true).is_none());
        check!(read(&f, false).is_some());
    }
    /// A checksum that is not the right one is refused unless it says that it is not to be checked.
    fn s_damaged_checksum() {
        let mut f = file(&sample());
        let right = u32::from_be_bytes(f[0x28..0x2C].try_into().unwrap());
        let c: u32 = any();
        f[0x28..0x2C].copy_from_slice(&c.to_be_bytes());
        let good = c == right || c == u32::MAX;
        check!(read(&f, true).is_some() == good);
        check!(read(&f, false).unwrap() == sample());
        cover!(0, c == u32::MAX);
        cover!(1, c == right);
    }
    fn s_truncated() {
        let mut f = file(&sample());
        for i in 0x28..0x2C { f[i] = 0xFF }
        let k = split({ let k: u8 = any(); assume((k as usize) < f.len()); k as usize });
        check!(read(&f[..k], true).is_none());
        check!(read(&f[..k], false).is_none());
    }
    fn s_trailing() {
        let mut f = file(&sample());
        let ignored: bool = any();
        if ignored { for i in 0x28..0x2C { f[i] = 0xFF } }
        for _ in 0..1 + len(2) { f.push(any()) }
        check!(read(&f, false).is_none());
        if ignored { check!(read(&f, true).is_none()) }
    }
    /// Another group, another version, or a header that is not one.
    fn s_group() {
        let mut f = file(&sample());
        let g: u32 = any();
        f[0x24..0x28].copy_from_slice(&g.to_be_bytes());
        let r = ok(TagFile::read_tag_from_file_buffer::<T>(&f, ParseStrictness::Strict));
        check!(r.is_some() == (g == u32::from_be_bytes(*b"weap")));
        if let Some((h, d)) = ok(TagFile::load_header_and_data(&f, ParseStrictness::Strict)) { check!((h.group.as_fourcc() == g || g == u32::MAX) && d.len() == 25 && h.version == VERSION) }
    }
    fn s_version() {
        let mut f = file(&sample());
        let v: u16 = any();
        f[0x38..0x3A].copy_from_slice(&v.to_be_bytes());
        let strict: bool = any();
        check!(read(&f, strict).is_some() == (v == VERSION));
        let (h, _) = ok(TagFile::load_header_and_data(&f, ParseStrictness::Strict)).unwrap();
        check!(h.version == v);
    }
    fn s_magic() {
        let mut f = file(&sample());
        let v: [u8; 6] = any();
        f[0x3A..0x40].copy_from_slice(&v);
        let s: u32 = any();
        f[0x2C..0x30].copy_from_slice(&s.to_be_bytes());
        let strict: bool = any();
        check!(read(&f, strict).is_some() == (v == [0, 0xFF, b'b', b'l', b'a', b'm'] && s == 0x40));
        cover!(0, read(&f, strict).is_some());
    }
    /// The parts of the header that are not used do not matter.
    fn s_unused() {
        let mut f = file(&sample());
        for i in 0..4 { f[i] = any() }
        for i in 4..0x24 { f[i] = b'x' }
        for i in 0x30..0x38 { f[i] = any() }
        for i in 8..10 { f[i] = any() }
        check!(read(&f, true).unwrap() == sample());
    }
    /// Arbitrary files: a value or an error, and a value that stands for the whole file.
    fn s_arbitrary() {
        let n = [0, 1, 0x3F, 0x40, 0x41, 0x55, 0x56, 0x58][split({ let i: u8 = any(); assume(i < 8); i as usize })];
        let mut f = bytes(n);
        for i in 6..0x24 { if i < n { f[i] = b'x' } }
        for i in 0..4 { if 0x24 + i < n { f[0x24 + i] = b"weap"[i]; f[0x28 + i] = 0xFF } }
        let (a, b) = (read(&f, true), read(&f, false));
        check!(a == b);
        if let Some(t) = b { check!(n >= 0x56); check!(t.n.to_be_bytes() == f[0x40..0x42] && t.d.bytes == f[0x56..] && f[0x42..0x46] == ((n - 0x56) as u32).to_be_bytes()); check!(f[0x2C..0x30] == [0, 0, 0, 0x40] && f[0x38..0x40] == *b"\x01\x03\0\xFFblam"); cover!(0, n == 0x58) }
    }
}
kani_harnesses! {}
