// P26: structure BSPs: the two kinds of vertices stay in step, detail objects are moved back and broken vertices are repaired.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/tree.rs"] mod tree;
use nd::*;
use ringhopper::{definitions::*, map::verif::fix_scenario_structure_bsp_tag, tag::{scenario_structure_bsp::*, bludgeon::*}, primitives::{primitive::*, engine::*, error::*, map::*, tag::*, byteorder::*, parse::SimpleTagData}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
fn f(b: &[u8], at: usize) -> f64 { f32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as f64 }
fn u(b: &[u8], at: usize) -> u32 { u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) }
fn v3(b: &[u8], at: usize) -> Vector3D { Vector3D { x: f(b, at), y: f(b, at + 4), z: f(b, at + 8) } }
fn v2(b: &[u8], at: usize) -> Vector2D { Vector2D { x: f(b, at), y: f(b, at + 4) } }
fn put(b: &mut [u8], at: usize, v: f32) { b[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
fn le<T: SimpleTagData>(v: T) -> Vec<u8> { v.as_bytes::<LittleEndian>().unwrap().bytes().to_vec() }
const UNITS: [f32; 3] = [0.0, 1.0, -1.0];
/// Uncompressed vertices: distinguishable positions, one of them arbitrary; vectors of 0, 1 and -1.
fn uncompressed(rendered: usize, lightmap: usize) -> Vec<u8> {
    let mut b = vec![0u8; rendered * 56 + lightmap * 20];
    for r in 0..rendered {
        for k in 0..14 { put(&mut b, r * 56 + k * 4, UNITS[(r + k) % 3]) }
        put(&mut b, r * 56, 10.0 + r as f32);
        put(&mut b, r * 56 + 48, 20.0 + r as f32);
    }
    for l in 0..lightmap { for k in 0..5 { put(&mut b, rendered * 56 + l * 20 + k * 4, UNITS[(l * 2 + k) % 3]) } }
    b
}
fn compressed(rendered: usize, lightmap: usize) -> Vec<u8> {
    let mut b = vec![0u8; rendered * 32 + lightmap * 8];
    for (i, c) in b.iter_mut().enumerate() { *c = (i * 7 % 60) as u8 }
    let _ = (rendered, lightmap);
    b
}
fn material(rendered: u32, lightmap: u32, un: Vec<u8>, co: Vec<u8>) -> ScenarioStructureBSPMaterial {
    let mut m = ScenarioStructureBSPMaterial::default();
    m.rendered_vertices.vertex_count = rendered;
    m.lightmap_vertices.vertex_count = lightmap;
    m.uncompressed_vertices.bytes = un;
    m.compressed_vertices.bytes = co;
    m
}
fn bsp(m: Vec<ScenarioStructureBSPMaterial>) -> ScenarioStructureBSP { ScenarioStructureBSP { lightmaps: refl(m.into_iter().map(|m| ScenarioStructureBSPLightmap { materials: refl(vec![m]), ..Default::default() }).collect()), ..Default::default() } }
fn of(b: &ScenarioStructureBSP, i: usize) -> (&[u8], &[u8]) { let m = &b.lightmaps.items[i].materials.items[0]; (&m.uncompressed_vertices.bytes, &m.compressed_vertices.bytes) }
fn is_compression(u_: &[u8], c: &[u8], r: usize, l: usize) {
    check!(u_.len() == r * 56 + l * 20 && c.len() == r * 32 + l * 8);
    if c.len() != r * 32 + l * 8 { return }
    for i in 0..r {
        let (u_, c) = (&u_[i * 56..], &c[i * 32..]);
        check!(c[..12] == u_[..12] && c[24..32] == u_[48..56]);
        for k in 0..3 { check!(u(c, 12 + k * 4).to_le_bytes()[..] == le(CompressedVector3D::from(v3(u_, 12 + k * 12)))[..]) }
    }
    for i in 0..l {
        let (u_, c) = (&u_[r * 56 + i * 20..], &c[r * 32 + i * 8..]);
        check!(c[..4] == le(CompressedVector3D::from(v3(u_, 0)))[..] && c[4..8] == le(CompressedVector2D::from(v2(u_, 12)))[..]);
    }
}
fn is_decompression(u_: &[u8], c: &[u8], r: usize, l: usize) {
    check!(c.len() == r * 32 + l * 8 && u_.len() == r * 56 + l * 20);
    if u_.len() != r * 56 + l * 20 { return }
    for i in 0..r {
        let (u_, c) = (&u_[i * 56..], &c[i * 32..]);
        check!(c[..12] == u_[..12] && c[24..32] == u_[48..56]);
        for k in 0..3 { check!(u_[12 + k * 12..24 + k * 12] == le(Vector3D::from(CompressedVector3D { data: u(c, 12 + k * 4) }))[..]) }
    }
    for i in 0..l {
        let (u_, c) = (&u_[r * 56 + i * 20..], &c[r * 32 + i * 8..]);
        check!(u_[..12] == le(Vector3D::from(CompressedVector3D { data: u(c, 0) }))[..]);
        check!(u_[12..20] == le(Vector2D::from(CompressedVector2D { data: u(c, 4) }))[..]);
    }
}
const NORMALS: [[f32; 3]; 10] = [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 4.0], [3.0, 0.0, 4.0], [f32::NAN, 0.0, 1.0], [f32::INFINITY, 0.0, 0.0], [0.0, f32::NEG_INFINITY, f32::INFINITY], [1e-30, 0.0, 0.0], [3e38, 3e38, 3e38]];
/// One scenario tag and detail object collections, extracted with the offset given.
struct Collections { tags: Vec<Tag>, z: f64 }
impl Map for Collections {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { unreachable!() }
    fn extract_tag(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        check!(*p == self.tags[1].tag_path);
        Ok(Box::new(DetailObjectCollection { global_z_offset: self.z, ..Default::default() }))
    }
    fn get_domain(&self, _: &DomainType) -> Option<(&[u8], usize)> { None }
    fn get_tag_by_id(&self, _: ID) -> Option<&Tag> { None }
    fn get_tag(&self, path: &TagPath) -> Option<&Tag> { self.tags.iter().find(|t| t.tag_path == *path) }
    fn get_scenario_tag(&self) -> &Tag { &self.tags[0] }
    fn get_all_tags(&self) -> Vec<TagPath> { vec![] }
}
fn tag(p: TagPath) -> Tag { Tag { tag_path: p, address: 0, domain: DomainType::TagData } }
const fn cell(flags: i32, start: u32, count: u32) -> ScenarioStructureBSPGlobalDetailObjectCell { ScenarioStructureBSPGlobalDetailObjectCell { cell_x: 0, cell_y: 0, cell_z: 0, offset_z: 0, valid_layers_flags: flags, start_index: start, count_index: count } }
harnesses! {
    /// Detail objects and normals that are wrong are found when the tag is verified.
    fn s_verify() {
        let n = [1.0, 0.5, 0.999, 1.000001, f32::NAN, 0.0][len(5)];
        let ok_normal = n == 1.0 || n == 1.000001;
        let mut un = uncompressed(1, 0);
        for k in 0..3 { put(&mut un, 12 + k * 4, if k == 1 { n } else { 0.0 }) }
        let mut b = bsp(vec![material(0, 0, vec![], vec![]), material(1, if ok_normal { 0 } else { 0 }, un, vec![])]);
        let (start, count): (u32, u32) = (any(), any());
        let layer = [0, 1, 31][len(2)];
        let two = bit();
        let flags = (1i32 << layer) | if two { 2 } else { 0 };
        let set = flags.count_ones() as u64;
        let (counts, zs, instances) = (len(2), 2, 3);
        let amounts = [[1, 1], [3, 0], [0, 4]][len(2)];
        let c = |n: u16| ScenarioStructureBSPGlobalDetailObjectCount { count: n };
        b.detail_objects.items.push(ScenarioStructureBSPDetailObjectData { cells: refl(vec![cell(flags, start, count)]), counts: refl((0..counts).map(|i| c(amounts[i])).collect()), z_reference_vectors: refl((0..zs).map(|_| Default::default()).collect()), instances: refl((0..instances).map(|_| Default::default()).collect()), ..Default::default() });
        let mut t = tree::Mem::default();
        let doc = t.add("d", DetailObjectCollection::default());
        let mut s = Scenario::default();
        let (palette, at) = ([0, 2, 32][len(2)], len(1));
        for i in 0..palette { s.detail_object_collection_palette.items.push(ScenarioDetailObjectCollectionPalette { reference: if i == at { TagReference::Set(doc.clone()) } else { TagReference::Null(TagGroup::DetailObjectCollection) } }) }
        let p = t.add("b", b);
        let r = tree::verify(t, s, HUDGlobals::default(), &p);
        let mut good = count as u64 + set <= counts as u64 && count as u64 + set <= zs as u64;
        if good {
            let mut end = start as u64;
            for i in 0..set as usize { end += amounts[count as usize + i] as u64; }
            good = end <= instances as u64;
        }
        let mut missing = 0;
        if good { for l in 0..32 { if flags >> l & 1 == 1 && !(l == at && l < palette) { missing += 1 } } }
        cover!(0, good && missing == 0); cover!(1, good && missing > 0); cover!(2, !good);
        check!(tree::counts(&r, &p) == Some((!good as usize + missing + !ok_normal as usize, 0)));
    }
    /// The vertices that are missing are made from the others.
    fn s_missing() {
        let (r, l) = (len(bound(2, 3)), bit());
        let l = if l { r } else { 0 };
        let (have_u, have_c) = (bit(), bit());
        let mut un = if have_u { uncompressed(r, l) } else { vec![] };
        let mut co = if have_c { compressed(r, l) } else { vec![] };
        if have_u && r > 0 { un[r * 56 - 53] = any(); un[r * 56 - 2] = any(); }
        if have_c && r > 0 { co[r * 32 - 32 + 2] = any(); co[r * 32 - 5] = any(); }
        let mut b = bsp(vec![material(0, 0, vec![], vec![]), material(r as u32, l as u32, un.clone(), co.clone())]);
        let done = ok(recompress_scenario_structure_bsp_vertices(&mut b));
        let (nu, nc) = of(&b, 1);
        check!(done == Some(un.is_empty() != co.is_empty()));
        check!(of(&b, 0).0.is_empty() && of(&b, 0).1.is_empty());
        if un.is_empty() == co.is_empty() { check!(nu == un && nc == co); return }
        if un.is_empty() { check!(nc == co); is_decompression(nu, nc, r, l) } else { check!(nu == un); is_compression(nu, nc, r, l) }
        let again = (nu.to_vec(), nc.to_vec());
        check!(ok(recompress_scenario_structure_bsp_vertices(&mut b)) == Some(false) && of(&b, 1).0 == again.0 && of(&b, 1).1 == again.1);
    }
    /// Counts that do not agree with the data.
    fn s_sizes() {
        let (r, l): (u32, u32) = (any(), any());
        let size = len(bound(3, 8));
        let size = [0, 56, 76, 152, 32, 40, 96, 75, 112][size];
        let comp = bit();
        let m = if comp { material(r, l, vec![], vec![0; size]) } else { material(r, l, vec![0; size], vec![]) };
        let (a, c) = if comp { (32u64, 8u64) } else { (56, 20) };
        let good = (l == 0 || l == r) && r as u64 * a + l as u64 * c == size as u64;
        cover!(0, good); cover!(1, !good);
        if comp { check!(ok(get_compressed_vertices_for_bsp_material(&m).map(|(a, b)| (a.count(), b.count()))) == good.then_some((r as usize, l as usize))) }
        else { check!(ok(get_uncompressed_vertices_for_bsp_material(&m).map(|(a, b)| (a.count(), b.count()))) == good.then_some((r as usize, l as usize))) }
        let mut b = bsp(vec![m]);
        let was_empty = size == 0;
        let repaired = matches!(bludgeon_tag(&mut b, &ok(TagPath::new("a", TagGroup::ScenarioStructureBSP)).unwrap()), BludgeonResult::Done);
        check!(repaired == if was_empty { l == 0 || l == r } else { good });
        check!(ok(recompress_scenario_structure_bsp_vertices(&mut b)) == if was_empty { Some(false) } else { good.then_some(true) });
    }
    /// Normals of length 1 are left alone and others are made so, keeping the direction if there is one; nothing else changes.
    fn s_normals() {
        let r = 1 + len(bound(1, 2));
        let l = if bit() { r } else { 0 };
        let mut un = uncompressed(r, l);
        let at = len(r - 1) * 56;
        for i in 0..r { for k in 0..3 { put(&mut un, i * 56 + 12 + k * 4, UNITS[(k == i) as usize]) } }
        let n = NORMALS[len(NORMALS.len() - 1)];
        for k in 0..3 { put(&mut un, at + 12 + k * 4, n[k]) }
        let i = any::<u8>() as usize;
        assume(i < un.len() && !(i >= at + 12 && i < at + 24) && !(i % 56 >= 12 && i % 56 < 24 && i < r * 56));
        let i = split(i);
        un[i] = any();
        if i / 4 * 4 + 4 <= un.len() { assume(!f(&un, i / 4 * 4).is_nan()) }
        let mut b = bsp(vec![material(r as u32, l as u32, un.clone(), vec![])]);
        check!(matches!(bludgeon_tag(&mut b, &ok(TagPath::new("a", TagGroup::ScenarioStructureBSP)).unwrap()), BludgeonResult::Done));
        let (nu, nc) = of(&b, 0);
        check!(nc.is_empty() && nu.len() == un.len());
        if nu.len() != un.len() { return }
        for k in 0..un.len() { if k < at + 12 || k >= at + 24 { check!(nu[k] == un[k]) } }
        let m = v3(nu, at + 12);
        let want = match (n[0] as f64, n[1] as f64, n[2] as f64) {
            (x, y, z) if !(x * x + y * y + z * z).is_finite() || (x == 0.0 && y == 0.0 && z == 0.0) => (0.0, 0.0, 1.0),
            (x, y, z) => { let d = (x * x + y * y + z * z).sqrt(); (x / d, y / d, z / d) }
        };
        check!((m.x - want.0).abs() < 1e-6 && (m.y - want.1).abs() < 1e-6 && (m.z - want.2).abs() < 1e-6);
    }
    /// Detail objects: the global offset of the collections is taken out of the reference vectors of the layers in use.
    fn s_detail() {
        let layers = [0, 1, 2, 31][len(3)];
        let second = [0, 2, 5, 30][len(3)];
        let flags: i32 = (1i32 << layers) | if second != layers { 1 << second } else { 0 };
        let set = 1 + (second != layers) as usize;
        let (lo, hi) = (if layers < second { layers } else { second }, if layers < second { second } else { layers });
        let start: u32 = any();
        let vectors = len(bound(3, 4));
        let palette = [0, 1, 3, 33][len(3)];
        let set_at = [0, 2, 40][len(2)];
        let doc = ok(TagPath::new("d", TagGroup::DetailObjectCollection)).unwrap();
        let scenario = ok(TagPath::new("s", TagGroup::Scenario)).unwrap();
        let map = Collections { tags: vec![tag(scenario), tag(doc.clone())], z: 16.0 };
        let mut s = Scenario::default();
        for i in 0..palette { s.detail_object_collection_palette.items.push(ScenarioDetailObjectCollectionPalette { reference: if i == set_at { TagReference::Set(doc.clone()) } else { TagReference::Null(TagGroup::DetailObjectCollection) }, ..Default::default() }) }
        let mut b = ScenarioStructureBSP::default();
        let cell = ScenarioStructureBSPGlobalDetailObjectCell { valid_layers_flags: flags, count_index: start, ..Default::default() };
        let zs = (0..vectors).map(|i| ScenarioStructureBSPGlobalZReferenceVector { z_reference_l: 100.0 * i as f64, z_reference_i: 1.0, z_reference_j: 2.0, z_reference_k: 3.0 }).collect();
        let none = bit();
        b.detail_objects.items.push(ScenarioStructureBSPDetailObjectData { cells: refl(if none { vec![] } else { vec![Default::default(), cell] }), z_reference_vectors: refl(zs), ..Default::default() });
        let good = none || start as u64 + set as u64 <= vectors as u64;
        cover!(0, good && !none); cover!(1, !good);
        let done = ok(fix_scenario_structure_bsp_tag(&mut b, &s, &map));
        check!(done.is_some() == good);
        if !good { return }
        let z = &b.detail_objects.items[0].z_reference_vectors.items;
        check!(z.len() == vectors);
        let offset = |layer: usize| if palette > set_at && layer == set_at { 2.0 } else { 0.0 };
        for (i, v) in z.iter().enumerate() {
            let mut want = 100.0 * i as f64;
            if !none { if i as u32 == start { want -= offset(lo) } if set == 2 && i as u64 == start as u64 + 1 { want -= offset(hi) } }
            check!(v.z_reference_l == want && v.z_reference_i == 1.0 && v.z_reference_k == 3.0);
        }
    }
}
kani_harnesses! {}
