// P29: bitmaps taken out of a map hold exactly their pixels, in the tag's layout.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, map::verif::fix_bitmap_tag, primitives::{primitive::*, engine::*, error::*, map::*, tag::*}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
const fn engine(swizzled: bool, modulo: bool, separate: bool, alignment: usize) -> Engine {
    Engine { name: "", display_name: "", version: None, build: None, build_target: false, custom: false, fallback: false, cache_default: false, cache_file_version: 7,
        max_script_nodes: 19001, max_tag_space: 0x1700000, external_bsps: false, external_models: false, compressed_models: false, data_alignment: 4,
        bitmap_options: EngineBitmapOptions { swizzled, texture_dimension_must_modulo_block_size: modulo, cubemap_faces_stored_separately: separate, alignment },
        resource_maps: None, compression_type: EngineCompressionType::Uncompressed,
        max_cache_file_size: EngineCacheFileSize { user_interface: 0, singleplayer: 0, multiplayer: 0 },
        base_memory_address: EngineBaseMemoryAddress { address: 0, inferred: false },
        required_tags: EngineRequiredTags { all: &[], user_interface: &[], singleplayer: &[], multiplayer: &[] }, cache_parser: EngineCacheParser::PC }
}
static ENGINES: [Engine; 4] = [engine(false, false, false, 1), engine(true, true, true, 128), engine(true, false, false, 4), engine(false, true, true, 16)];
struct Pixels { inside: Vec<u8>, outside: Vec<u8>, engine: usize }
impl Map for Pixels {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { &ENGINES[self.engine] }
    fn extract_tag(&self, _: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { unreachable!() }
    fn get_domain(&self, domain: &DomainType) -> Option<(&[u8], usize)> {
        match domain { DomainType::MapData => Some((&self.inside, 0)), DomainType::ResourceMapFile(ResourceMapType::Bitmaps) => Some((&self.outside, 0)), _ => None }
    }
    fn get_tag_by_id(&self, _: ID) -> Option<&Tag> { None }
    fn get_tag(&self, _: &TagPath) -> Option<&Tag> { None }
    fn get_scenario_tag(&self) -> &Tag { unreachable!() }
    fn get_all_tags(&self) -> Vec<TagPath> { Vec::new() }
}
use ringhopper::primitives::map::ResourceMapType;
use BitmapDataFormat as F;
/// Pixels along a block, bytes of a block.
const FORMATS: [(F, usize, usize); 14] = [(F::DXT1, 4, 8), (F::R5G6B5, 1, 2), (F::A8R8G8B8, 1, 4), (F::P8, 1, 1), (F::DXT5, 4, 16), (F::DXT3, 4, 16), (F::BC7, 4, 16), (F::A8, 1, 1), (F::Y8, 1, 1), (F::AY8, 1, 1), (F::A8Y8, 1, 2), (F::A1R5G5B5, 1, 2), (F::A4R4G4B4, 1, 2), (F::X8R8G8B8, 1, 4)];
const TYPES: [BitmapDataType; 3] = [BitmapDataType::_2dTexture, BitmapDataType::_3dTexture, BitmapDataType::CubeMap];
#[derive(Copy, Clone)]
struct Shape { kind: usize, format: usize, w: usize, h: usize, d: usize, mips: usize }
impl Shape {
    fn data(&self) -> BitmapData {
        let mut b = BitmapData { width: self.w as u16, height: self.h as u16, depth: self.d as u16, mipmap_count: self.mips as u16, _type: TYPES[self.kind], format: FORMATS[self.format].0, ..Default::default() };
        b.flags.compressed = FORMATS[self.format].1 == 4;
        b
    }
    /// Width, height and depth of every level of detail that is kept.
    fn levels(&self, modulo: bool) -> Vec<(usize, usize, usize)> {
        let (mut w, mut h, mut d) = (self.w, self.h, self.d);
        let mut all = vec![(w, h, d)];
        let block = FORMATS[self.format].1;
        for _ in 0..self.mips {
            if w * h * d == 1 { break }
            let half = |n: usize| if n > 1 { n / 2 } else { 1 };
            (w, h, d) = (half(w), half(h), half(d));
            if modulo && (w % block > 0 || h % block > 0) { break }
            all.push((w, h, d));
        }
        all
    }
    fn faces(&self) -> usize { if self.kind == 2 { 6 } else { 1 } }
    fn size(&self, l: (usize, usize, usize)) -> usize { let (_, b, n) = FORMATS[self.format]; ((l.0 + b - 1) / b) * ((l.1 + b - 1) / b) * l.2 * n }
    fn total(&self, modulo: bool) -> usize { self.levels(modulo).iter().map(|l| self.size(*l) * self.faces()).sum() }
    /// How many bytes there are in the map, without what is needed for alignment.
    fn valid(&self, e: usize) -> bool {
        let o = &ENGINES[e].bitmap_options;
        let b = FORMATS[self.format].1;
        self.w > 0 && self.h > 0 && matches!(self.d, 1 | 2 | 4 | 8) && (self.d == 1 || self.kind == 1) && (!o.texture_dimension_must_modulo_block_size || (self.w % b == 0 && self.h % b == 0))
    }
}
fn up(n: usize, a: usize) -> usize { (n + a - 1) / a * a }
/// The bytes the bitmap needs in the map.
fn needs(s: &Shape, e: usize) -> usize {
    let o = &ENGINES[e].bitmap_options;
    let m = o.texture_dimension_must_modulo_block_size;
    if o.cubemap_faces_stored_separately && s.kind == 2 { up(s.total(m) / 6, o.alignment) * 6 } else { up(s.total(m), o.alignment) }
}
/// Where each byte of the tag comes from in the map, if nothing is swizzled.
fn order(s: &Shape, e: usize) -> Vec<usize> {
    let o = &ENGINES[e].bitmap_options;
    let m = o.texture_dimension_must_modulo_block_size;
    let n = s.total(m);
    if !(o.cubemap_faces_stored_separately && s.kind == 2) { return (0..n).collect() }
    let face = up(n / 6, o.alignment);
    let mut v = vec![];
    let mut at = 0;
    for l in s.levels(m) {
        let n = s.size(l);
        for f in [0, 2, 1, 3, 4, 5] { for i in 0..n { v.push(f * face + at + i) } }
        at += n;
    }
    v
}
fn morton(x: usize, y: usize, z: usize, w: usize, h: usize, d: usize) -> usize {
    let (mut at, mut o) = (0, 0);
    for i in 0..16 { for (v, n) in [(x, w), (y, h), (z, d)] { if 1 << i < n { at |= (v >> i & 1) << o; o += 1 } } }
    at
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any()).collect() }
fn shape(kind: usize, format: usize) -> Shape {
    let n = bound(3, 4);
    let sizes = [4, 1, 6, 8, 3];
    Shape { kind, format, w: sizes[len(n)], h: sizes[len(n)], d: if kind == 1 { [1, 2, 4][len(2)] } else { 1 }, mips: [0, 1, 7, 2, 3][len(bound(2, 4))] }
}
fn go(tag: &mut Bitmap, map: &Pixels) -> bool { ok(fix_bitmap_tag(tag, map)).is_some() }
harnesses! {
    /// Data of every layout, some bytes more or less than needed.
    fn s_layout() {
        let e = len(3);
        let s = shape(len(2), [0, 2, 1, 3][len(bound(1, 3))]);
        let o = &ENGINES[e].bitmap_options;
        let need = if s.valid(e) { needs(&s, e) } else { 64 };
        let length = match len(3) { 0 => need, 1 => need + o.alignment, 2 => need.wrapping_sub(o.alignment), _ => need + 1 };
        assume(length < 0x10000);
        let data = bytes(length);
        let mut b = s.data();
        b.pixel_data_offset = 3; b.pixel_data_size = length as u32;
        let mut inside = vec![1, 2, 3]; inside.extend_from_slice(&data);
        let map = Pixels { inside, outside: Vec::new(), engine: e };
        let mut tag = Bitmap { bitmap_data: refl(vec![b.clone()]), _type: BitmapType::_2dTextures, ..Default::default() };
        let separate = o.cubemap_faces_stored_separately && s.kind == 2;
        let good = s.valid(e) && length % o.alignment == 0 && (length == need || (length > need && o.texture_dimension_must_modulo_block_size && !separate));
        cover!(0, good); cover!(1, !good);
        check!(go(&mut tag, &map) == good);
        if !good { return }
        let from = order(&s, e);
        let out = &tag.processed_pixel_data.bytes;
        check!(out.len() == from.len());
        for (a, b) in out.iter().zip(from) { check!(*a == data[b]) }
        let r = &tag.bitmap_data.items[0];
        check!(r.pixel_data_offset == 0);
        b.pixel_data_offset = 0;
        if o.texture_dimension_must_modulo_block_size { b.mipmap_count = s.levels(true).len() as u16 - 1 }
        check!(*r == b);
    }
    /// Every format has blocks of its size.
    fn s_formats() {
        let s = Shape { kind: 0, format: len(13), w: [4, 8][len(1)], h: [4, 12][len(1)], d: 1, mips: len(1) };
        let n = needs(&s, 0);
        let data = bytes(n);
        let map = Pixels { inside: data.clone(), outside: Vec::new(), engine: 0 };
        let mut b = s.data();
        b.pixel_data_size = n as u32;
        let compressed = bit();
        if compressed { b.flags.compressed = !b.flags.compressed }
        let mut tag = Bitmap { bitmap_data: refl(vec![b]), ..Default::default() };
        check!(go(&mut tag, &map) == !compressed);
        if !compressed { check!(tag.processed_pixel_data.bytes == data) }
    }
    /// Swizzled pixels are put back in rows, level by level and face by face.
    fn s_swizzled() {
        let (e, format) = (1 + len(1), [1, 2, 3, 0][len(3)]);
        let sizes = [4, 1, 2, 3, 8];
        let n = bound(3, 4);
        let kind = len(2);
        let w = sizes[len(n)];
        let s = if kind == 1 { Shape { kind, format, w, h: w, d: [w, 1, 2][len(2)], mips: [0, 1, 7][len(2)] } } else { Shape { kind, format, w, h: sizes[len(n)], d: 1, mips: [0, 1, 7][len(2)] } };
        let o = &ENGINES[e].bitmap_options;
        let m = o.texture_dimension_must_modulo_block_size;
        let valid = s.valid(e);
        let need = if valid { needs(&s, e) } else { 128 };
        let data = bytes(need);
        let mut b = s.data();
        b.flags.swizzled = true; b.pixel_data_size = need as u32;
        let map = Pixels { inside: data.clone(), outside: Vec::new(), engine: e };
        let mut tag = Bitmap { bitmap_data: refl(vec![b]), ..Default::default() };
        let p = |n: usize| matches!(n, 1 | 2 | 4 | 8);
        let good = valid && format != 0 && s.levels(m).iter().all(|l| p(l.0) && p(l.1) && (l.2 == 1 || (l.0 == l.1 && l.1 == l.2)));
        cover!(0, good && kind == 1 && s.d > 1); cover!(1, good && kind == 2); cover!(2, !good);
        check!(go(&mut tag, &map) == good);
        if !good { return }
        let from = order(&s, e);
        let out = &tag.processed_pixel_data.bytes;
        check!(out.len() == from.len());
        let (mut at, size) = (0, FORMATS[format].2);
        for l in s.levels(m) {
            for _ in 0..s.faces() {
                for z in 0..l.2 { for y in 0..l.1 { for x in 0..l.0 { for i in 0..size {
                    check!(out[at + (x + y * l.0 + z * l.0 * l.1) * size + i] == data[from[at + morton(x, y, z, l.0, l.1, l.2) * size + i]]);
                } } } }
                at += s.size(l);
            }
        }
    }
    /// Dimensions that are not possible.
    fn s_refuse() {
        let e = len(1);
        let s = Shape { kind: len(2), format: 2 + len(1), w: len(1) * 4, h: len(1) * 4, d: len(5), mips: 0 };
        let swizzled = bit();
        let n = if s.valid(e) { needs(&s, e) } else { 128 };
        let map = Pixels { inside: bytes(n), outside: Vec::new(), engine: e };
        let mut b = s.data();
        b.flags.swizzled = swizzled; b.pixel_data_size = n as u32;
        let mut tag = Bitmap { bitmap_data: refl(vec![b]), ..Default::default() };
        let good = s.valid(e) && (!swizzled || (e == 1 && (s.d == 1 || s.d == 4)));
        cover!(0, good); cover!(1, !good);
        check!(go(&mut tag, &map) == good);
    }
    /// Several bitmaps, inside and outside of the map: one after the other in the tag.
    fn s_several() {
        let n = len(bound(3, 4));
        let map = Pixels { inside: bytes(40), outside: bytes(24), engine: 0 };
        let (mut bitmaps, mut want, mut starts) = (vec![], vec![], vec![]);
        for k in 0..n {
            let s = Shape { kind: 0, format: 3, w: 1 + len(1) * 2, h: 1 + k, d: 1, mips: 0 };
            let external = bit();
            let at = [0, 5, 24 - 3 * (1 + k)][len(2)];
            let mut b = s.data();
            let n = s.w * s.h;
            b.flags.external = external; b.pixel_data_offset = at as u32; b.pixel_data_size = n as u32;
            starts.push(want.len());
            want.extend_from_slice(&if external { &map.outside } else { &map.inside }[at..at + n]);
            bitmaps.push(b);
        }
        let mut tag = Bitmap { bitmap_data: refl(bitmaps), ..Default::default() };
        check!(go(&mut tag, &map));
        check!(tag.bitmap_data.items.len() == n);
        for k in 0..n { check!(tag.bitmap_data.items[k].pixel_data_offset as usize == starts[k]) }
        check!(tag.processed_pixel_data.bytes == want);
    }
    /// Any offset and any size: inside of the map or refused, and nothing large is allocated for it.
    fn s_bounds() {
        alloc_limit(1 << 20);
        let (at, size, w): (u32, u32, u16) = (any(), any(), [0, 1, 2, 4, 0xFFFF][len(4)]);
        let more: u32 = any();
        let mut b = Shape { kind: 0, format: 3, w: w as usize, h: 2, d: 1, mips: 0 }.data();
        b.pixel_data_offset = at; b.pixel_data_size = size;
        b.flags.external = bit();
        let map = Pixels { inside: bytes(8), outside: bytes(4), engine: 0 };
        let d = if b.flags.external { &map.outside } else { &map.inside };
        let two = bit();
        let mut c = b.clone();
        c.pixel_data_size = more;
        let mut tag = Bitmap { bitmap_data: refl(if two { vec![b.clone(), c] } else { vec![b.clone()] }), ..Default::default() };
        let inside = |n: u32| n as usize == w as usize * 2 && w != 0 && at as usize + n as usize <= d.len();
        let good = inside(size) && (!two || inside(more));
        cover!(0, good);
        check!(go(&mut tag, &map) == good);
    }
    /// Sprite sequences get back what they refer to; other bitmaps keep it.
    fn s_sprites() {
        let sprites = bit();
        let n = len(bound(3, 4));
        let (first, count): (u16, u16) = (any(), any());
        let kept = if bit() { Some(first) } else { None };
        let mut v = vec![];
        for _ in 0..n { let i: u16 = any(); assume(i != 0xFFFF); v.push(BitmapGroupSprite { bitmap_index: if bit() { Some(i) } else { None }, ..Default::default() }) }
        let q = BitmapGroupSequence { first_bitmap_index: kept, bitmap_count: count, sprites: refl(v.clone()), ..Default::default() };
        let mut tag = Bitmap { _type: if sprites { BitmapType::Sprites } else { [BitmapType::_2dTextures, BitmapType::InterfaceBitmaps][len(1)] }, bitmap_group_sequence: refl(vec![q.clone()]), ..Default::default() };
        check!(go(&mut tag, &Pixels { inside: Vec::new(), outside: Vec::new(), engine: 0 }));
        let r = &tag.bitmap_group_sequence.items[0];
        check!(r.sprites.items == v);
        if !sprites { check!(*r == q); return }
        check!(r.bitmap_count == (n == 1) as u16);
        match r.first_bitmap_index {
            None => check!(v.iter().all(|s| s.bitmap_index.is_none())),
            Some(i) => { check!(v.iter().any(|s| s.bitmap_index == Some(i))); for s in &v { if let Some(k) = s.bitmap_index { check!(i <= k) } } }
        }
    }
}
kani_harnesses! {}
