// P18: no map file, however damaged, makes loading panic, read outside the file or allocate what the file cannot hold,
// and a map that loads is what the file says.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{map::{gearbox::*, xbox::*, header::*}, primitives::{primitive::*, map::*, engine::*, crc32::CRC32, tag::ParseStrictness}};

fn put(d: &mut [u8], at: usize, v: u32) { d[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
fn get(d: &[u8], at: usize) -> usize { u32::from_le_bytes([d[at], d[at + 1], d[at + 2], d[at + 3]]) as usize }
#[derive(Copy, Clone, PartialEq)]
enum Kind { Retail, Beta, Custom, Anniversary, Xbox }
use Kind::*;
const TAGS: usize = 3;
const PATHS: usize = 40 + 32 * (TAGS + 2);
const REF: usize = PATHS + 16;
const SCENARIO: usize = REF + 32;
const SOUND: usize = SCENARIO + 1456;
const END: usize = SOUND + 164;
const DATA: usize = 0x800;
const BSP: usize = DATA + END;
const MODEL: usize = BSP + 28;
const VERTICES: usize = MODEL + 8;
const SIZE: usize = VERTICES + 4;
fn base(k: Kind) -> usize { match k { Beta => 0x2EC0000, Anniversary => 0x50000000, Xbox => 0x803A6000, _ => 0x40440000 } }
fn tag(d: &mut [u8], i: usize, group: u32, path: usize, data: usize, external: u32) {
    let a = DATA + 40 + 32 * i;
    for (j, v) in [group, 0xFFFFFFFF, 0xFFFFFFFF, 0xE1740000 + 0x10001 * i as u32, path as u32, data as u32, external].iter().enumerate() { put(d, a + 4 * j, *v) }
}
/// A scenario, its BSP, a weapon and (Custom Edition) an external bitmap and sound.
fn sample(k: Kind) -> Vec<u8> {
    let mut d: Vec<u8> = (0..SIZE).map(|_| 0).collect();
    let b = base(k);
    let (version, build): (u32, &[u8]) = match k { Retail => (7, &b"01.00.10.0621"[..]), Beta => (6, b"01.05.22.0268"), Custom => (609, b"01.00.10.0621"), Anniversary => (13, b"01.03.43.0000"), Xbox => (5, b"01.10.12.2276") };
    put(&mut d, 0, 0x68656164); put(&mut d, 4, version); put(&mut d, 8, SIZE as u32); put(&mut d, 16, DATA as u32); put(&mut d, 20, END as u32);
    d[32] = b'm'; d[64..77].copy_from_slice(build); put(&mut d, 2044, 0x666F6F74);
    let n = if k == Custom { TAGS + 2 } else { TAGS };
    for (i, v) in [b as u32 + 40, 0xE1740000, 0, n as u32, 0, MODEL as u32, 0, 4, 8, 0x74616773].iter().enumerate() { put(&mut d, DATA + 4 * i, *v) }
    for i in 0..5 { d[DATA + PATHS + 2 * i] = b'a' + i as u8 }
    let p = b + PATHS;
    tag(&mut d, 0, 0x73636E72, p, b + SCENARIO, 0);
    tag(&mut d, 1, 0x73627370, p + 2, 0, 0);
    tag(&mut d, 2, 0x77656170, p + 4, b + 0x100, 0);
    if k == Custom { tag(&mut d, 3, 0x6269746D, p + 6, 1, 1); tag(&mut d, 4, 0x736E6421, p + 8, b + SOUND, 1) }
    // the reference to the BSP
    for (i, v) in [BSP as u32, 28, 0x1000, 0, 0x73627370, p as u32 + 2, 0, 0xE1750001].iter().enumerate() { put(&mut d, DATA + REF + 4 * i, *v) }
    d[DATA + SCENARIO + 60] = 1;
    put(&mut d, DATA + SCENARIO + 1444, 1);
    put(&mut d, DATA + SCENARIO + 1448, (b + REF) as u32);
    for (i, v) in [0x1018u32, 4, VERTICES as u32, 0, 0, 0x73627370].iter().enumerate() { put(&mut d, BSP + 4 * i, *v) }
    for i in 0..SIZE - MODEL { d[MODEL + i] = 0xA0 + i as u8 }
    for i in 0..164 { d[DATA + SOUND + i] = i as u8 }
    d
}
/// One resource per path.
fn resources(items: &[(&str, &[u8])]) -> Vec<u8> {
    let mut d: Vec<u8> = Vec::new();
    let n = items.len();
    let mut paths = Vec::new();
    let mut array = Vec::new();
    let mut at = 16 + 12 * n;
    for (p, x) in items { for v in [paths.len(), x.len(), at] { array.extend_from_slice(&(v as u32).to_le_bytes()) } paths.extend_from_slice(p.as_bytes()); paths.push(0); at += x.len() }
    for v in [1, at, 16, n] { d.extend_from_slice(&(v as u32).to_le_bytes()) }
    d.extend_from_slice(&array);
    for (_, x) in items { d.extend_from_slice(x) }
    d.extend_from_slice(&paths);
    d
}
fn sound() -> Vec<u8> { (0..164 + 5).map(|i| 0xFF - i as u8).collect() }
fn inside(d: &[u8], r: &[u8]) -> bool { let (a, b) = (d.as_ptr() as usize, r.as_ptr() as usize); b >= a && b + r.len() <= a + d.len() }
fn verify<M: Map>(m: &M, d: &[u8], k: Kind) {
    let (all, zero) = m.get_domain(&DomainType::MapData).unwrap();
    check!(all == d && zero == 0);
    let (tags, at) = m.get_domain(&DomainType::TagData).unwrap();
    let (o, n) = (get(d, 16), get(d, 20));
    check!(inside(all, tags) && tags.as_ptr() as usize - all.as_ptr() as usize == o && tags.len() == n);
    check!(at == if k == Anniversary { get(d, o) - 40 } else { base(k) });
    let s = m.get_scenario_tag();
    check!(s.tag_path.group() == TagGroup::Scenario);
    check!(m.get_tag(&s.tag_path).is_some_and(|t| t.address == s.address && t.domain == DomainType::TagData));
    let paths = m.get_all_tags();
    for p in &paths {
        let t = m.get_tag(p).unwrap();
        check!(t.tag_path == *p);
        if p.group() == TagGroup::ScenarioStructureBSP { check!(matches!(t.domain, DomainType::BSP(_))) }
        if let DomainType::BSP(i) = t.domain { check!(m.get_domain(&t.domain).is_some()); check!(i == 0) }
    }
    if let Some((b, _)) = m.get_domain(&DomainType::BSP(0)) { check!(inside(all, b)) }
    if let Some((b, z)) = m.get_domain(&DomainType::BSPVertices(0)) { check!(inside(all, b) && z == 0 && k == Anniversary) }
    check!(m.get_domain(&DomainType::BSPVertices(7)).is_none());
    let (v, t) = (m.get_domain(&DomainType::ModelVertexData), m.get_domain(&DomainType::ModelTriangleData));
    check!(v.is_some() == !(k == Beta || k == Xbox) && t.is_some() == v.is_some());
    if let (Some((v, vz)), Some((t, tz))) = (v, t) {
        check!(inside(all, v) && inside(all, t) && vz == 0 && tz == 0);
        let (f, to, l) = (get(d, o + 20), get(d, o + 28), get(d, o + 32));
        check!(v.as_ptr() as usize - all.as_ptr() as usize == f && v.len() == to && t.len() == l - to && t.as_ptr() as usize == v.as_ptr() as usize + to);
    }
    check!(m.get_uncompressed_size() == Some(d.len()));
}
fn load(d: &[u8], k: Kind, bitmaps: Vec<u8>, sounds: Vec<u8>, loc: Vec<u8>) -> Option<()> {
    alloc_limit(1 << 24);
    let d2 = d.to_vec();
    if k == Xbox {
        let m = ok(XboxCacheFile::new(d2, ParseStrictness::Strict))?;
        verify(&m, d, k);
        return Some(())
    }
    let m = ok(GearboxCacheFile::new(d2, bitmaps, sounds, loc, ParseStrictness::Relaxed))?;
    verify(&m, d, k);
    let mut c = CRC32::new();
    for b in [DomainType::BSPVertices(0), DomainType::BSP(0), DomainType::ModelVertexData, DomainType::ModelTriangleData, DomainType::TagData] { if let Some((b, _)) = m.get_domain(&b) { c.update(b) } }
    let crc = m.get_crc32().unwrap();
    if m.get_domain(&DomainType::BSP(1)).is_none() { check!(crc.1 == c.crc()) }
    check!(crc.0 as usize == get(d, 100));
    core::mem::forget(m);
    Some(())
}
fn good(k: Kind) { check!(load(&sample(k), k, Vec::new(), Vec::new(), Vec::new()).is_some()) }
fn kind() -> Kind { [Retail, Beta, Custom, Anniversary, Xbox][len(4)] }
/// A 32-bit number: one around every place that means something, or (`whole`) any that is in neither the file nor the tag data.
fn number(k: Kind, radius: usize, whole: bool) -> u32 {
    let b = base(k);
    if whole && split(any::<u8>() as usize & 1) == 1 { let v: u32 = any(); let x = v as usize; assume(!(x < 2 * SIZE || (x >= b - END - 16 && x < b + 2 * END))); return v }
    let places = [0, DATA, BSP, MODEL, VERTICES, SIZE, b, b + 40, b + PATHS, b + REF, b + SCENARIO, b + END, END, 40, 0x80000000, 0xFFFFFFFF];
    let p = places[len(places.len() - 1)];
    (p + len(2 * radius)).wrapping_sub(radius) as u32
}
fn word(k: Kind, d: &mut [u8], from: usize, to: usize, radius: usize, whole: bool) {
    let i: u16 = any();
    assume((i as usize) < (to - from) / 4);
    let at = from + 4 * split(i as usize);
    put(d, at, number(k, radius, whole));
}
fn go(d: &[u8], k: Kind) {
    let r = load(d, k, Vec::new(), Vec::new(), Vec::new());
    cover!(0, r.is_some());
    cover!(1, r.is_none());
}
fn one(k: Kind, from: usize, to: usize, radius: usize) { let mut d = sample(k); word(k, &mut d, from, to, radius, from < DATA || (k == Xbox && from != DATA && from != DATA + REF)); go(&d, k) }
harnesses! {
    fn s_good() { good(Retail); good(Beta); good(Custom); good(Anniversary); good(Xbox) }
    /// Any one number of the header, tag data header, tag array, the reference to the BSP and the BSP's header.
    fn s_head() { one(kind(), 8, 24, bound(1, 4)) }
    fn s_tag_header() { one(kind(), DATA, DATA + 40, bound(1, 4)) }
    fn s_tags() { one(kind(), DATA + 40, DATA + 40 + 32 * 3, bound(1, 4)) }
    fn s_external() { one(Custom, DATA + 40 + 32 * 3, DATA + 40 + 32 * 5, bound(1, 4)) }
    fn s_bsp() { one(kind(), DATA + REF, DATA + SCENARIO, bound(1, 4)) }
    fn s_bsp_header() { one(kind(), BSP, MODEL, bound(1, 4)) }
    fn s_scenario_bsps() { one(kind(), DATA + SCENARIO + 1440, DATA + SCENARIO + 1456, bound(1, 4)) }
    /// Whole tags: any one number of the scenario (thorough).
    fn st_two() { let k = kind(); let mut d = sample(k); word(k, &mut d, DATA, DATA + 40, 1, false); word(k, &mut d, DATA + 40, DATA + 40 + 32 * 2, 1, false); go(&d, k) }
    fn st_two_bsp() { let k = kind(); let mut d = sample(k); word(k, &mut d, DATA + REF, DATA + SCENARIO, 1, false); word(k, &mut d, BSP, MODEL, 1, false); go(&d, k) }
    /// The checksum: any stored one; strict loading accepts the right one and no other, unless the engine does not use it.
    fn s_checksum() {
        let k = [Retail, Custom][len(1)];
        let mut d = sample(k);
        let v: u32 = any();
        put(&mut d, 100, v);
        let relaxed = ok(GearboxCacheFile::new(d.to_vec(), Vec::new(), Vec::new(), Vec::new(), ParseStrictness::Relaxed)).unwrap();
        let right = relaxed.get_crc32().unwrap();
        check!(right.0 == v);
        let strict = ok(GearboxCacheFile::new(d, Vec::new(), Vec::new(), Vec::new(), ParseStrictness::Strict));
        check!(strict.is_some() == (right.1 == v || v == 0xFFFFFFFF));
        core::mem::forget((relaxed, strict));
    }
    /// Decompression: sizes or padding that cannot be are an error (the decompressor itself, zlib, is outside).
    fn s_decompress() {
        let engine = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.compression_type == EngineCompressionType::Deflate).unwrap();
        let n = 0x800 - 2 + len(4);
        let d: Vec<u8> = (0..n).map(|_| 0).collect();
        let padding: usize = any();
        let size: usize = any();
        assume(n < 0x800 || padding > n - 0x800 || size < 0x800);
        alloc_limit(0x10000);
        let header = ParsedCacheFileHeader { name: String32::default(), build: String32::default(), cache_version: 5, tag_data_offset: 0, tag_data_size: 0, decompressed_size: size, compression_padding: padding, map_type: ringhopper::definitions::ScenarioType::Singleplayer, crc32: 0 };
        check!(ok(ringhopper::map::verif::decompress_map_data(d, &header, engine)).is_none());
        let engine = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.compression_type == EngineCompressionType::Uncompressed).unwrap();
        let d = bytes(3);
        check!(ok(ringhopper::map::verif::decompress_map_data(d.clone(), &header, engine)).unwrap() == d);
    }
    /// An external bitmap is found by its number or its path, and the sound's own data is put in place of the map's.
    fn s_resources() {
        let mut d = sample(Custom);
        let n: u32 = [0, 1, 2, 3, 0x10001, 0x80000001, 0xFFFFFFFF][len(6)];
        put(&mut d, DATA + 40 + 32 * 3 + 20, n);
        let bm = [1u8, 2, 3, 4];
        let bitmaps = resources(&[("d__pixels", b"PIX"), ("d", &bm), ("z", b"ZZ")]);
        let sounds = resources(&[("e__permutations", b"PCM"), ("e", &sound())]);
        let m = ok(GearboxCacheFile::new(d.to_vec(), bitmaps.clone(), sounds.clone(), Vec::new(), ParseStrictness::Relaxed));
        cover!(0, m.is_some());
        check!(m.is_some() == (n == 1));
        let Some(m) = m else { return };
        let t = m.get_tag(&TagPath::new("d", TagGroup::Bitmap).unwrap()).unwrap();
        let (r, z) = m.get_domain(&t.domain).unwrap();
        check!(r == &bm[..] && z == 0 && t.address == 0);
        check!(m.get_domain(&DomainType::ResourceMapFile(ResourceMapType::Bitmaps)).unwrap().0 == &bitmaps[..]);
        check!(m.get_domain(&DomainType::ResourceMapFile(ResourceMapType::Sounds)).unwrap().0 == &sounds[..]);
        core::mem::forget(m);
    }
    /// The sound in the sound resource map provides the sample rate, channels, format and pitch ranges, the map the rest.
    fn s_sound() {
        let mut d = sample(Custom);
        let mut snd = sound();
        let n = [0, 163, 164, 169][len(3)];
        snd.truncate(n);
        let (a, b): (u8, u8) = (any(), any());
        for at in [7, 60, 109] { d[DATA + SOUND + at] = a; if at < n { snd[at] = b } }
        if n > 160 { snd[152] = 3 }
        for x in snd.iter_mut().skip(164) { *x = any() }
        let there = split(any::<u8>() as usize & 1) == 1;
        let sounds = resources(&[("a", b"PCM"), (if there { "e" } else { "E" }, &snd)]);
        let m = ok(GearboxCacheFile::new(d.to_vec(), Vec::new(), sounds, Vec::new(), ParseStrictness::Relaxed));
        cover!(0, m.is_some());
        check!(m.is_some() == (there && n >= 164));
        let Some(m) = m else { return };
        let t = m.get_tag(&TagPath::new("e", TagGroup::Sound).unwrap()).unwrap();
        let (r, z) = m.get_domain(&t.domain).unwrap();
        check!(z == 0 && t.address == n - 164 && r.len() == n);
        check!(r[..n - 164] == snd[164..]);
        for i in 0..164 {
            let e = match i { 6 | 7 | 108..=111 | 152..=155 => snd[i], 156..=159 => 0, 160..=163 => continue, _ => d[DATA + SOUND + i] };
            check!(r[n - 164 + i] == e);
        }
        core::mem::forget(m);
    }
}
kani_harnesses! {}
