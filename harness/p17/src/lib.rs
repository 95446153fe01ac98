// P17: map headers: recognized exactly, every field read from its place, and the engine is the one the map was built for.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{map::header::*, primitives::{primitive::*, engine::*}, definitions::ScenarioType};
use ringhopper_engines::ALL_SUPPORTED_ENGINES;

/// (cache file version, build string, engine); the last one of a version without a build string is used for any other build.
const TABLE: [(u32, Option<&str>, &str); 25] = [
    (5, Some("01.01.14.2342"), "xbox-pal"), (5, Some("01.10.12.2276"), "xbox-us"), (5, Some("01.03.14.0009"), "xbox-jp"), (5, Some("01.12.09.0135"), "xbox-tw"),
    (5, Some("01.08.15.1749"), "xbox-1749"), (5, Some("01.09.25.2247"), "xbox-2247"), (5, Some("01.10.12.2300"), "xbox-nhe"), (5, Some("20.00.00.1337"), "xbox-pro"), (5, Some(""), "xbox-demo"), (5, None, "xbox"),
    (6, Some("01.00.00.0579"), "mac-demo"), (6, Some("01.05.22.0268"), "pc-0268"), (6, Some("01.00.00.0578"), "pc-demo"), (6, Some("01.00.00.0576"), "pc-demo"), (6, None, "pc-demo"),
    (7, Some("01.00.09.0620"), "mac-retail"), (7, Some("01.07.30.0452"), "pc-0452"), (7, Some("01.00.10.0621"), "pc-retail"), (7, Some("01.00.00.0563"), "pc-retail"), (7, Some("01.00.00.0564"), "pc-retail"), (7, None, "pc"),
    (609, Some("01.00.10.0621"), "pc-custom"), (609, Some("01.00.00.0609"), "pc-custom"), (609, None, "pc-custom"), (13, None, "mcc-cea")
];
fn expected(version: u32, build: &[u8]) -> Option<&'static str> {
    for (v, b, e) in TABLE { if v == version && b.map_or(true, |b| b.as_bytes() == build) { return Some(e) } }
    None
}
fn put(d: &mut [u8], at: usize, v: u32) { d[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
fn get(d: &[u8], at: usize) -> u32 { u32::from_le_bytes([d[at], d[at + 1], d[at + 2], d[at + 3]]) }
fn retail() -> Vec<u8> {
    let mut d: Vec<u8> = (0..0x800).map(|_| 0).collect();
    put(&mut d, 0, 0x68656164); put(&mut d, 4, 7); put(&mut d, 8, 0x12345); put(&mut d, 12, 0x77); put(&mut d, 16, 0x900); put(&mut d, 20, 0x654);
    d[32..36].copy_from_slice(b"name"); d[64..77].copy_from_slice(b"01.00.10.0621"); d[96] = 1; put(&mut d, 100, 0xCAFEBABE); put(&mut d, 2044, 0x666F6F74);
    d
}
fn demo() -> Vec<u8> {
    let mut d: Vec<u8> = (0..0x800).map(|_| 0).collect();
    put(&mut d, 704, 0x45686564); put(&mut d, 708, 0x654); d[712..725].copy_from_slice(b"01.00.00.0578"); d[2] = 2; put(&mut d, 1416, 6); d[1420..1424].copy_from_slice(b"demo");
    put(&mut d, 1456, 0xCAFEBABE); put(&mut d, 1512, 0x12345); put(&mut d, 1516, 0x900); put(&mut d, 1520, 0x47666F74);
    d
}
fn text(d: &[u8]) -> Option<&[u8]> { let n = d[..31].iter().position(|c| *c == 0).unwrap_or(31); let t = &d[..n]; if t.is_ascii() { Some(t) } else { None } }
fn compare(d: &[u8]) {
    let ascii = |at: usize| d[at..at + 32].is_ascii();
    let kind = |at: usize| match u16::from_le_bytes([d[at], d[at + 1]]) { 0 => Some(ScenarioType::Singleplayer), 1 => Some(ScenarioType::Multiplayer), 2 => Some(ScenarioType::UserInterface), _ => Some(ScenarioType::Singleplayer) /* anything else reads as the default */ };
    let r = ok(ParsedCacheFileHeader::read_from_map_data(d));
    let is_retail = get(d, 0) == 0x68656164 && get(d, 2044) == 0x666F6F74 && kind(96).is_some();
    let is_demo = get(d, 704) == 0x45686564 && get(d, 1520) == 0x47666F74 && kind(2).is_some();
    check!(r.is_some() == (is_retail || is_demo));
    let Some(h) = r else { check!(ok(get_map_details(d)).is_none()); return };
    let p = if is_retail { [8, 12, 16, 20, 4, 100, 32, 64, 96] } else { [1512, 0, 1516, 708, 1416, 1456, 1420, 712, 2] };
    check!(h.decompressed_size == get(d, p[0]) as usize);
    check!(h.compression_padding == if is_retail { get(d, p[1]) as usize } else { 0 });
    check!(h.tag_data_offset == get(d, p[2]) as usize && h.tag_data_size == get(d, p[3]) as usize);
    check!(h.cache_version == get(d, p[4]) && h.crc32 == get(d, p[5]));
    check!(Some(h.map_type) == kind(p[8]));
    if ascii(p[6]) { check!(Some(h.name.as_str().as_bytes()) == text(&d[p[6]..])) }
    if ascii(p[7]) {
        let build = text(&d[p[7]..]).unwrap();
        check!(h.build.as_str().as_bytes() == build);
        let e = h.match_engine().map(|e| e.name);
        check!(e == expected(h.cache_version, build));
    }
    match ok(get_map_details(d)) { Some((g, e)) => { check!(g.crc32 == h.crc32); check!(Some(e.name) == h.match_engine().map(|e| e.name)) } None => check!(h.match_engine().is_none()) }
    cover!(0, is_retail); 
}
/// Four arbitrary bytes, or one in a text.
fn window(d: &mut [u8], at: usize, text: bool) { if text { d[at] = any(); } else { put(d, at, any()) } }
const WINDOWS: [usize; 26] = [0, 4, 8, 12, 16, 20, 24, 28, 32, 36, 60, 64, 68, 76, 92, 96, 100, 104, 108, 704, 1000, 1516, 1520, 1524, 2040, 2044];
const DEMO_WINDOWS: [usize; 19] = [0, 4, 8, 700, 704, 708, 712, 724, 740, 744, 1412, 1416, 1420, 1448, 1452, 1456, 1512, 1516, 1520];
harnesses! {
    /// Four arbitrary bytes anywhere in a good header, in both formats.
    fn s_retail() {
        let mut d = retail();
        let at = WINDOWS[split({ let i: u8 = any(); assume((i as usize) < WINDOWS.len()); i as usize })];
        window(&mut d, at, at >= 32 && at < 96);
        compare(&d);
    }
    fn s_demo() {
        let mut d = demo();
        let at = DEMO_WINDOWS[split({ let i: u8 = any(); assume((i as usize) < DEMO_WINDOWS.len()); i as usize })];
        window(&mut d, at, (at >= 712 && at < 744) || (at >= 1420 && at < 1452));
        compare(&d);
    }
    /// A header that has both formats' marks is a retail header; damaged retail marks leave the other.
    fn s_both() {
        let mut d = retail();
        let e = demo();
        for (i, x) in e.iter().enumerate() { if i >= 700 && *x != 0 { d[i] = *x } }
                put(&mut d, 2044, any());
        compare(&d);
    }
    fn s_short() {
        let n = [0, 1, 0x40, 0x7FE, 0x7FF][split({ let i: u8 = any(); assume(i < 5); i as usize })];
        check!(ok(ParsedCacheFileHeader::read_from_map_data(&retail()[..n])).is_none());
        let mut d = retail();
        d.push(1);
        check!(ok(ParsedCacheFileHeader::read_from_map_data(&d)).is_some());
    }
    /// Every version, with every build string known and every one that differs in one character or is cut.
    fn s_engine() {
        let i = split({ let i: u8 = any(); assume((i as usize) < TABLE.len()); i as usize });
        let mut d = retail();
        put(&mut d, 4, any());
        let b = TABLE[i].1.unwrap_or("01.03.43.0000").as_bytes();
        for k in 0..13 { d[64 + k] = 0 }
        d[64..64 + b.len()].copy_from_slice(b);
        if any() { let k = len(13); let c: u8 = any(); assume(c < 128); d[64 + k] = c }
        compare(&d);
    }
    /// What the rest of the library relies on about engines.
    fn s_engines() {
        let i = split({ let i: u8 = any(); assume((i as usize) < ALL_SUPPORTED_ENGINES.len()); i as usize });
        let e = &ALL_SUPPORTED_ENGINES[i];
        check!((e.cache_file_version == 5) == matches!(e.cache_parser, EngineCacheParser::Xbox));
        check!(matches!(e.compression_type, EngineCompressionType::Deflate) == matches!(e.cache_parser, EngineCacheParser::Xbox));
        check!(matches!(e.cache_parser, EngineCacheParser::Xbox) || e.resource_maps.is_some());
        check!(e.resource_maps.is_some_and(|r| r.externally_indexed_tags) == (e.cache_file_version == 609));
        check!((e.external_bsps && e.base_memory_address.inferred) == (e.cache_file_version == 13));
        check!(!e.external_models || matches!(e.cache_parser, EngineCacheParser::PC));
        check!(e.bitmap_options.alignment > 0 && e.data_alignment > 0);
        let mut defaults = 0;
        for f in ALL_SUPPORTED_ENGINES { if f.cache_file_version == e.cache_file_version && f.cache_default { defaults += 1 } if f.name == e.name { check!(core::ptr::eq(e, f)) } }
        check!(defaults == 1);
        let a = e.base_memory_address.address;
        check!(a == match (e.cache_file_version, e.name) { (5, "xbox-1749") => 0x803AF000, (5, _) => 0x803A6000, (6, "pc-0268") => 0x2EC0000, (6, _) => 0x4BF10000, (13, _) => 0x50000000, _ => 0x40440000 });
    }
}
kani_harnesses! {}
