// P24: models: broken indices are found, conversions keep everything, missing vertices are restored from the others.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, tag::{model::*, convert::*, bludgeon::*}, primitives::{primitive::*, tag::*}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
fn vertex(a: Index, b: Index) -> ModelVertexUncompressed { ModelVertexUncompressed { node0_index: a, node1_index: b, ..Default::default() } }
/// The indices of a model; the first is of vertices, ... each with how many there are of what it refers to.
const INDICES: usize = 16;
struct Ix { v: [Index; INDICES], bad: bool }
/// All indices null or zero but one, which is arbitrary.
fn indices(limits: [usize; INDICES]) -> Ix {
    let zero = bit();
    let mut v = [if zero { Some(0) } else { None }; INDICES];
    let mut bad = false;
    for i in 0..INDICES { bad |= zero && limits[i] == 0 }
    if bad { for i in 0..INDICES { if limits[i] == 0 { v[i] = None } } }
    let k = len(INDICES - 1);
    let n: u16 = any();
    assume(n != u16::MAX);
    v[k] = if bit() { Some(n) } else { None };
    Ix { v, bad: v[k].is_some() && n as usize >= limits[k] }
}
/// Regions, nodes and part with the indices: 0-1 vertex nodes (limits by `local` if there are local nodes), 2 shader, 3-4 centroid, 5-7 node, 8-12 permutation, 13 marker, 14-15 compressed vertex.
fn parts(i: &Ix, nodes: usize, shaders: usize) -> (ModelGeometryPart, Reflexive<ModelNode>, Reflexive<ModelRegion>, Reflexive<ModelShaderReference>) {
    let v = &i.v;
    let part = ModelGeometryPart {
        shader_index: v[2], centroid_primary_node: v[3], centroid_secondary_node: v[4],
        uncompressed_vertices: refl(vec![vertex(None, None), vertex(v[0], v[1])]),
        compressed_vertices: refl(vec![ModelVertexCompressed { node0_index: packed(v[14]), node1_index: packed(v[15]), ..Default::default() }]), ..Default::default()
    };
    let mut n: Vec<ModelNode> = (0..nodes).map(|_| ModelNode { default_rotation: Quaternion { x: 0.0, y: 0.0, z: 0.0, w: 1.0 }, ..Default::default() }).collect();
    if nodes > 0 { let l = &mut n[nodes - 1]; l.next_sibling_node_index = v[5]; l.first_child_node_index = v[6]; l.parent_node_index = v[7] }
    let regions = refl(vec![ModelRegion { permutations: refl(vec![ModelRegionPermutation { super_low: v[8], low: v[9], medium: v[10], high: v[11], super_high: v[12], markers: refl(vec![ModelRegionPermutationMarker { node_index: v[13], ..Default::default() }]), ..Default::default() }]), ..Default::default() }]);
    (part, refl(n), regions, refl((0..shaders).map(|_| Default::default()).collect()))
}
fn packed(i: Index) -> u8 { match i { None => 253, Some(n) => (n as u8).wrapping_mul(3) } }
fn limits(nodes: usize, local: usize, shaders: usize) -> [usize; INDICES] {
    let mut l = [nodes; INDICES];
    l[0] = local; l[1] = local; l[2] = shaders;
    for i in 5..8 { if nodes == 0 { l[i] = usize::MAX } }
    for i in 8..13 { l[i] = 1 }
    l
}
fn packed_ok(i: &Ix) { assume(i.v[14].unwrap_or(0) < 84 && i.v[15].unwrap_or(0) < 84) }
fn model(i: &Ix, nodes: usize, shaders: usize) -> Model {
    let (part, n, regions, s) = parts(i, nodes, shaders);
    Model { nodes: n, regions, shaders: s, geometries: refl(vec![ModelGeometry { parts: refl(vec![part]), ..Default::default() }]), ..Default::default() }
}
fn gbxmodel(i: &Ix, nodes: usize, shaders: usize) -> GBXModel {
    let (part, n, regions, s) = parts(i, nodes, shaders);
    GBXModel { nodes: n, regions, shaders: s, geometries: refl(vec![GBXModelGeometry { parts: refl(vec![GBXModelGeometryPart { model_geometry_part: part, ..Default::default() }]), ..Default::default() }]), ..Default::default() }
}
fn convert(t: &dyn PrimaryTagStructDyn, to: TagGroup) -> Option<Box<dyn PrimaryTagStructDyn>> {
    let Some(f) = get_tag_conversion_fn(t.group(), to) else { check!(false); return None };
    ok(f(t))
}
fn small(max: usize) -> f64 { [0.0, 0.25, 0.5, 1.0, 3.0][len(max)] }
harnesses! {
    /// Indices of a model; conversion to the other kind of model and back.
    fn s_model() {
        let (nodes, shaders) = (len(bound(2, 4)), len(1));
        let i = indices(limits(nodes, nodes, shaders)); packed_ok(&i);
        let mut m = model(&i, nodes, shaders);
        let zoner = bit();
        m.geometries.items[0].parts.items[0].flags.zoner = zoner;
        m.node_list_checksum = any();
        m.detail_node_count.low = any();
        m.detail_cutoff.super_low = 0.5;
        let good = !i.bad && !zoner;
        check!(ok(m.check_indices()).is_some() == good);
        cover!(0, good); cover!(1, !good);
        let g = convert(&m, TagGroup::GBXModel);
        check!(g.is_some() == good);
        if let Some(g) = g {
            let Some(g) = g.as_any().downcast_ref::<GBXModel>() else { check!(false); return };
            check!(g.geometries.items[0].parts.items[0].model_geometry_part == m.geometries.items[0].parts.items[0]);
            check!(g.nodes == m.nodes && g.regions == m.regions && g.shaders == m.shaders && g.node_list_checksum == m.node_list_checksum && g.detail_node_count == m.detail_node_count && g.detail_cutoff == m.detail_cutoff && !g.flags.parts_have_local_nodes);
            let Some(b) = convert(g, TagGroup::Model) else { check!(false); return };
            check!(b.as_any().downcast_ref::<Model>().is_some_and(|b| *b == m));
        }
    }
    /// Indices of a GBX model without local nodes.
    fn s_gbx() {
        let (nodes, shaders) = (len(bound(2, 4)), len(1));
        let i = indices(limits(nodes, nodes, shaders)); packed_ok(&i);
        let mut m = gbxmodel(&i, nodes, shaders);
        let zoner = bit();
        m.geometries.items[0].parts.items[0].model_geometry_part.flags.zoner = zoner;
        let good = !i.bad && !zoner;
        check!(ok(m.check_indices()).is_some() == good);
        check!(convert(&m, TagGroup::Model).is_some() == good);
    }
    /// Local nodes: an index into the local list, whose entry is the node.
    fn s_local() {
        let nodes = 1 + len(bound(1, 3));
        let count: u8 = any();
        let entry: u8 = any();
        let l = if count as usize > 22 { 0 } else { count as usize };
        let mut i = indices(limits(nodes, usize::MAX, 1)); packed_ok(&i);
        let mut bad = i.bad || count as usize > 22;
        if bit() { i.v[0] = Some(1) } else { i.v[0] = None; }
        for n in [i.v[0], i.v[1]] { if let Some(n) = n { bad |= n as usize >= l || (n == 1 && entry as usize >= nodes) } }
        let mut m = gbxmodel(&i, nodes, 1);
        m.flags.parts_have_local_nodes = true;
        let zoner = bit();
        let p = &mut m.geometries.items[0].parts.items[0];
        p.model_geometry_part.flags.zoner = zoner;
        p.local_node_count = count;
        p.local_node_indices[1] = entry;
        bad |= !zoner;
        check!(ok(m.check_indices()).is_some() != bad);
        cover!(0, !bad); cover!(1, bad);
        let o = convert(&m, TagGroup::Model);
        check!(o.is_some() != bad);
        if let Some(o) = o {
            let Some(o) = o.as_any().downcast_ref::<Model>() else { check!(false); return };
            let (a, b) = (&o.geometries.items[0].parts.items[0], &m.geometries.items[0].parts.items[0].model_geometry_part);
            let real = |n: Index| n.map(|n| if n == 1 { entry as u16 } else { 0 });
            check!(!a.flags.zoner && a.uncompressed_vertices.items[1].node0_index == real(i.v[0]) && a.uncompressed_vertices.items[1].node1_index == real(i.v[1]) && a.uncompressed_vertices.items[0].node0_index.is_none());
            check!(a.compressed_vertices == b.compressed_vertices && a.shader_index == b.shader_index && ok(o.check_indices()).is_some());
        }
    }
    /// Missing vertices are restored from the ones there are; vertices that are there stay.
    fn s_vertices() {
        let nodes = [1, 42, 43][len(2)];
        let none = Ix { v: [None; INDICES], bad: false };
        let n: u16 = any();
        assume((n as usize) < nodes);
        let node = if bit() { Some(n) } else { None };
        let other = if bit() { Some(n) } else { None };
        let v = ModelVertexUncompressed { position: Vector3D { x: any(), y: 2.0, z: 3.0 }, normal: Vector3D { x: 1.0, y: 0.0, z: 0.0 }, binormal: Vector3D { x: 0.0, y: 1.0, z: 0.0 }, tangent: Vector3D { x: 0.0, y: 0.0, z: -1.0 },
            texture_coords: Vector2D { x: 1.0, y: 0.0 }, node0_index: node, node1_index: other, node0_weight: small(3), node1_weight: small(4) };
        assume(!v.position.x.is_nan());
        let (w0, total) = (v.node0_weight, v.node0_weight + v.node1_weight);
        let weight: CompressedFloat = (if total == 0.0 { 0.0 } else { w0 / total }).into();
        let c = ModelVertexCompressed { position: v.position, normal: v.normal.into(), binormal: v.binormal.into(), tangent: v.tangent.into(), texture_coordinate_u: v.texture_coords.x.into(), texture_coordinate_v: v.texture_coords.y.into(), node0_index: packed(node), node1_index: packed(other), node0_weight: weight };
        let (have_u, have_c) = (bit(), bit());
        let gbx = bit();
        let local = gbx && bit();
        let (mut m, mut g) = (model(&none, nodes, 0), gbxmodel(&none, nodes, 0));
        g.flags.parts_have_local_nodes = local;
        let supported = nodes <= 42 && !local;
        if !supported { assume(!have_c || have_u) }
        {
            let p = if gbx { &mut g.geometries.items[0].parts.items[0].model_geometry_part } else { &mut m.geometries.items[0].parts.items[0] };
            p.uncompressed_vertices.items = if have_u { vec![v.clone()] } else { vec![] };
            p.compressed_vertices.items = if have_c { vec![ModelVertexCompressed { node1_index: 6, ..c.clone() }] } else { vec![] };
        }
        let how = len(2);
        let f: &mut dyn ModelFunctions = if gbx { &mut g } else { &mut m };
        check!(f.supports_compressed_vertices() == supported);
        match how { 0 => { f.fix_compressed_vertices(); } 1 => { f.fix_uncompressed_vertices(); } _ => { f.recompress_vertices(); } }
        let p = if gbx { &g.geometries.items[0].parts.items[0].model_geometry_part } else { &m.geometries.items[0].parts.items[0] };
        let (u, d) = (&p.uncompressed_vertices.items, &p.compressed_vertices.items);
        let kept_u = u.len() == have_u as usize && (!have_u || u[0] == v);
        let kept_c = d.len() == have_c as usize && (!have_c || d[0] == ModelVertexCompressed { node1_index: 6, ..c.clone() });
        let made_c = d.len() == 1 && d[0] == c;
        match how {
            0 => { check!(kept_u); if have_u && !have_c && supported { check!(made_c) } else { check!(kept_c) } }
            1 => {
                check!(kept_c);
                if have_u || !have_c { check!(kept_u) } else {
                    check!(u.len() == 1);
                    let x = &u[0];
                    check!(x.position == v.position && x.node0_index == node && x.node1_index == Some(2) && x.normal == c.normal.into() && x.binormal == c.binormal.into() && x.tangent == c.tangent.into());
                    check!(x.texture_coords.x == c.texture_coordinate_u.into() && x.texture_coords.y == c.texture_coordinate_v.into() && x.node0_weight == c.node0_weight.into() && x.node0_weight + x.node1_weight == 1.0);
                }
            }
            _ => { check!(kept_u); if have_u { if supported { check!(made_c) } else { check!(d.is_empty()) } } else { check!(kept_c) } }
        }
    }
    /// Swapping the levels of detail, twice.
    fn s_cutoffs() {
        let d = ModelDetailCutoff { super_low: 1.0, low: 2.0, medium: any(), high: 4.0, super_high: 5.0 };
        assume(!d.medium.is_nan());
        let mut m = Model { detail_cutoff: d, ..Default::default() };
        m.flip_lod_cutoffs();
        let e = m.detail_cutoff;
        check!(e.super_low == 5.0 && e.low == 4.0 && e.medium == d.medium && e.high == 2.0 && e.super_high == 1.0);
        let mut g = GBXModel { detail_cutoff: e, ..Default::default() };
        g.flip_lod_cutoffs();
        check!(g.detail_cutoff == d);
    }
    /// Markers of the runtime go to the permutation they are of, or the model is refused.
    fn s_markers() {
        let none = Ix { v: [None; INDICES], bad: false };
        let (r, p, n) = (any::<u8>(), any::<u8>(), any::<u8>());
        let nodes = len(2);
        let mut m = model(&none, nodes, 0);
        m.regions.items.push(ModelRegion { permutations: refl(vec![Default::default(), Default::default()]), ..Default::default() });
        let name = ok(String32::from_str("x")).unwrap();
        let at = Vector3D { x: any(), y: 1.0, z: 2.0 };
        assume(!at.x.is_nan());
        let instance = ModelMarkerInstance { region_index: r, permutation_index: p, node_index: n, translation: at, ..Default::default() };
        let any_marker = bit();
        if any_marker { m.runtime_markers.items = vec![ModelMarker { name, instances: refl(vec![instance]), ..Default::default() }] }
        let good = !any_marker || ((n as usize) < nodes && ((r == 0 && p == 0) || (r == 1 && p < 2)));
        let before: Vec<usize> = m.regions.items.iter().flat_map(|r| r.permutations.items.iter().map(|p| p.markers.items.len())).collect();
        let f = ok(m.fix_runtime_markers());
        check!(f.is_some() == good);
        cover!(0, f == Some(true));
        if f.is_none() { return }
        check!(f == Some(any_marker) && m.runtime_markers.items.is_empty());
        let mut k = 0;
        for (i, region) in m.regions.items.iter().enumerate() { for (j, q) in region.permutations.items.iter().enumerate() {
            let mine = any_marker && r as usize == i && p as usize == j;
            check!(q.markers.items.len() == before[k] + mine as usize);
            k += 1;
            if mine { let l = q.markers.items.last().unwrap(); check!(l.name == name && l.node_index == Some(n as u16) && l.translation == at) }
        } }
    }
}
kani_harnesses! {}
