// P27: extraction gives tags back the values they had before the map was built.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, map::verif::*, primitives::{primitive::*, engine::*, error::*, map::*, tag::*, byteorder::*, parse::SimpleTagData}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
fn le<T: SimpleTagData>(v: &T) -> Vec<u8> { v.as_bytes::<LittleEndian>().unwrap().bytes().to_vec() }
#[path = "../../common/fakemap.rs"] mod common;
/// A map with vertices, triangles and tag data in different places.
struct Models { vertices: Vec<u8>, triangles: Vec<u8>, tags: Vec<u8>, external: bool, compressed: bool, fonts: Vec<Tag>, extended: usize }
const TAGS: usize = 0x1000;
impl Map for Models {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { &common::ENGINES[self.external as usize * 2 + self.compressed as usize] }
    fn extract_tag(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        check!(p.group() == TagGroup::Font);
        Ok(Box::new(Font { encoding_type: if self.fonts[self.extended % 3].tag_path == *p && self.extended < 3 { FontEncodingType::Extended } else { Default::default() }, ..Default::default() }))
    }
    fn get_domain(&self, domain: &DomainType) -> Option<(&[u8], usize)> {
        match domain { DomainType::ModelVertexData => Some((&self.vertices, 0)), DomainType::ModelTriangleData => Some((&self.triangles, 0)), DomainType::TagData => Some((&self.tags, TAGS)), _ => None }
    }
    fn get_tag_by_id(&self, _: ID) -> Option<&Tag> { None }
    fn get_tag(&self, path: &TagPath) -> Option<&Tag> { self.fonts.iter().find(|t| t.tag_path == *path) }
    fn get_scenario_tag(&self) -> &Tag { &self.fonts[0] }
    fn get_all_tags(&self) -> Vec<TagPath> { self.fonts.iter().map(|t| t.tag_path.clone()).collect() }
}
fn part_at(p: &mut ModelGeometryPart, vertices: u32, at: u32, triangles: u32, triangles_at: u32) {
    p.vertices.vertex_count = vertices;
    p.vertices.vertex_pointer = at.into();
    p.triangle_count = triangles;
    p.triangle_pointer = triangles_at.into();
}
/// A value in a map, and in the tag.
fn ticks(divided: bool) -> (f64, f64) { let t = [(0.0, 0.0), (30.0, 900.0), (1.0, 30.0), (0.5, 15.0)][len(3)]; if divided { (t.1, t.0) } else { t } }
const WEIGHTS: [f64; 6] = [0.0, 0.25, 0.5, 1.0, 1.5, -0.25];
fn path(p: &str, g: TagGroup) -> TagPath { ok(TagPath::new(p, g)).unwrap() }
fn patched(s: &mut Scenario) -> bool {
    s._type = [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface][len(2)];
    s.flags.do_not_apply_bungie_campaign_tag_patches = bit();
    s._type == ScenarioType::Singleplayer && !s.flags.do_not_apply_bungie_campaign_tag_patches
}
harnesses! {
    /// Vertices and triangles of models come from where the engine keeps them; the other kind of vertices is made.
    fn s_model() {
        let (external, compressed) = (bit(), bit());
        let size = if compressed { 32 } else { 68 };
        let (held, indices) = (len(bound(2, 3)), len(bound(6, 9)));
        let mut v = vec![0u8; 8 + held * size];
        for i in 0..held { for k in 0..size { v[8 + i * size + k] = if k % 4 == 3 { 0x3F } else { (i * 3 + k) as u8 & 0x3F } }
            if compressed { v[8 + i * size + 28] = 3; v[8 + i * size + 29] = 253; v[8 + i * size + 30] = 0; v[8 + i * size + 31] = i as u8 }
            else { v[8 + i * size + 56] = 0; v[8 + i * size + 57] = 0; v[8 + i * size + 58] = 255; v[8 + i * size + 59] = 255 } }
        if held > 0 { v[8] = any() }
        let mut t = vec![0u8; indices * 2];
        for (i, b) in t.iter_mut().enumerate() { *b = i as u8 }
        if indices > 0 { let i = len(indices - 1) * 2; t[i] = any(); t[i + 1] = any(); }
        // Room for the vertices is made at once
        let count = [0, 1, 2, 3, 4, 0xFFFF, 0x10000, 0xFFFF_FFFF][len(7)];
        let triangles: u32 = any();
        let (vertices_in, triangles_in, tags, at, triangles_at);
        let pointer = [0u8, 4, 8, 0x10][len(3)] as usize;
        if external { vertices_in = v.clone(); triangles_in = t.clone(); tags = vec![]; at = pointer; triangles_at = 0 }
        else {
            // Tag data holds the pointer, vertices and triangles, in this order
            let mut d = vec![9u8; 4];
            let base = TAGS + 12;
            d.extend_from_slice(&((base + pointer) as u32).to_le_bytes());
            d.extend_from_slice(&[7; 4]);
            d.extend_from_slice(&v);
            triangles_at = TAGS + d.len();
            d.extend_from_slice(&t);
            tags = d; vertices_in = vec![]; triangles_in = vec![];
            at = if compressed { TAGS } else { base + pointer };
        }
        let total = if external { v.len() } else { v.len() + t.len() };
        let fits = count as u64 <= 0xFFFF && triangles <= 0xFFFE * 3 && pointer as u64 + count as u64 * size as u64 <= total as u64 && (triangles == 0 || (triangles as u64 + 2) * 2 <= t.len() as u64);
        assume(!fits || (pointer == 8 && count as usize <= held));
        let m = Models { vertices: vertices_in, triangles: triangles_in, tags, external, compressed, fonts: vec![], extended: 9 };
        let gbx = bit();
        let mut p = ModelGeometryPart::default();
        part_at(&mut p, count, at as u32, triangles, triangles_at as u32);
        let nodes = refl(vec![ModelNode::default(), ModelNode::default()]);
        let mut a = Model { nodes: nodes.clone(), geometries: refl(vec![Default::default(), ModelGeometry { parts: refl(vec![p.clone()]), ..Default::default() }]), ..Default::default() };
        a.flags.blend_shared_normals = true; a.detail_cutoff.low = 2.0; a.detail_cutoff.high = 4.0;
        let mut g = GBXModel { nodes, geometries: refl(vec![GBXModelGeometry { parts: refl(vec![GBXModelGeometryPart { model_geometry_part: p, ..Default::default() }]), ..Default::default() }]), ..Default::default() };
        g.flags.blend_shared_normals = true; g.detail_cutoff.low = 2.0; g.detail_cutoff.high = 4.0;
        let done = ok(if gbx { fix_gbxmodel_tag(&mut g, &m) } else { fix_model_tag(&mut a, &m) }).is_some();
        cover!(0, done && count > 0); cover!(1, !done);
        check!(done == fits);
        if !done { return }
        let (flags, cutoff) = if gbx { (g.flags.blend_shared_normals, g.detail_cutoff) } else { (a.flags.blend_shared_normals, a.detail_cutoff) };
        check!(!flags && cutoff.low == 4.0 && cutoff.high == 2.0);
        let p = if gbx { &g.geometries.items[0].parts.items[0].model_geometry_part } else { &a.geometries.items[1].parts.items[0] };
        let n = split(count as usize);
        check!(p.compressed_vertices.items.len() == n && p.uncompressed_vertices.items.len() == n);
        for i in 0..n {
            let raw = &v[8 + i * size..8 + (i + 1) * size];
            if compressed { check!(le(&p.compressed_vertices.items[i])[..] == *raw); check!(p.uncompressed_vertices.items[i].position == p.compressed_vertices.items[i].position) }
            else { check!(le(&p.uncompressed_vertices.items[i])[..] == *raw); check!(p.compressed_vertices.items[i].position == p.uncompressed_vertices.items[i].position) }
        }
        let want = if triangles == 0 { 0 } else { triangles as usize + 2 };
        let s = &p.triangle_data.items;
        check!(s.len() == (want + 2) / 3);
        for k in 0..s.len() * 3 {
            let raw = if k < want { u16::from_le_bytes([t[k * 2], t[k * 2 + 1]]) } else { u16::MAX };
            check!(s[k / 3].indices[k % 3] == if raw == u16::MAX { None } else { Some(raw) });
        }
    }
    /// Weights of change colors: from running totals back to shares.
    fn s_weights() {
        let n = len(bound(3, 4));
        let mut w = vec![];
        for _ in 0..n { w.push(WEIGHTS[len(5)]) }
        let mut o = Object::default();
        let c = ObjectChangeColors { permutations: refl(w.iter().map(|w| ObjectChangeColorsPermutation { weight: *w, ..Default::default() }).collect()), ..Default::default() };
        let other = ObjectChangeColors::default();
        o.change_colors.items = if bit() { vec![other, c] } else { vec![c] };
        let mut good = true;
        if n > 1 { let mut last = 0.0; for x in &w { good &= *x >= last && *x <= 1.0; last = *x } good &= last == 1.0 }
        real_fmt(true);
        let done = ok(fix_object_tag(&mut o)).is_some();
        check!(done == good);
        cover!(0, done && n > 1);
        if !done { return }
        let r = &o.change_colors.items.last().unwrap().permutations.items;
        check!(r.len() == n);
        // Only the proportions matter
        let (mut last, mut sum) = (0.0, 0.0);
        for x in r { sum += x.weight }
        for i in 0..n { if n > 1 { check!((r[i].weight - (w[i] - last) * sum).abs() <= 0.002 * sum) } else { check!(r[i].weight == 1.0) } last = w[i] }
    }
    /// Values kept per tick in maps.
    fn s_ticks() {
        real_fmt(true);
        let (m, d) = (ticks(false), ticks(true));
        let mut a = ActorVariant::default(); a.grenades.grenade_velocity = m.0; a.grenades.collateral_damage_radius = m.0;
        fix_actor_variant_tag(&mut a);
        check!(a.grenades.grenade_velocity == m.1 && a.grenades.collateral_damage_radius == m.0);
        let mut c = ContinuousDamageEffect::default(); c.camera_shaking.wobble_period = d.0;
        fix_continuous_damage_effect_tag(&mut c);
        check!(c.camera_shaking.wobble_period == d.1);
        let mut p = Projectile::default();
        p.minimum_velocity = m.0; p.initial_velocity = d.0; p.final_velocity = 2.0;
        p.material_response.items = vec![Default::default(), Default::default()];
        p.material_response.items[1].potential_and.lower = m.0; p.material_response.items[1].potential_and.upper = 3.0;
        fix_projectile_tag(&mut p);
        let r = &p.material_response.items;
        check!(p.minimum_velocity == m.1 && p.initial_velocity == d.0 * 30.0 && p.final_velocity == 60.0 && r[1].potential_and.lower == m.1 && r[1].potential_and.upper == 90.0 && r[0].potential_and.upper == 0.0);
        let mut l = Light::default(); l.effect_parameters.duration = d.0; l.shape.radius = d.0;
        fix_light_tag(&mut l);
        check!(l.effect_parameters.duration == d.1 && l.shape.radius == d.0);
        let mut q = PointPhysics { density: 5000.0, air_friction: 5000.0, water_friction: 20000.0, ..Default::default() };
        fix_point_physics_tag(&mut q);
        check!(q.density == 5000.0 && q.air_friction == 0.5 && q.water_friction == 2.0);
    }
    /// Titles keep their total time in maps, in ticks.
    fn s_titles() {
        real_fmt(true);
        let t = ticks(true);
        let (up, out) = ([0.0, 30.0, 900.0][len(2)], [0.0, 15.0][len(1)]);
        let mut s = Scenario::default();
        s.cutscene_titles.items = vec![Default::default(), ScenarioCutsceneTitle { fade_in_time: t.0, up_time: t.0 + up, fade_out_time: out, ..Default::default() }];
        let mut table = vec![0u8; 56];
        table[34] = 20;
        s.script_syntax_data.bytes = table;
        check!(ok(fix_scenario_tag(&mut s, "a")).is_some());
        let c = &s.cutscene_titles.items[1];
        check!(c.fade_in_time == t.1 && c.up_time == up / 30.0 && c.fade_out_time == out / 30.0 && s.cutscene_titles.items[0].up_time == 0.0);
    }
    /// The patches of the campaign are undone for exactly the tags they are for.
    fn s_patches() {
        real_fmt(true);
        let mut s = Scenario::default();
        let patch = patched(&mut s);
        let k = len(3);
        let p = ["weapons\\pistol\\pistol", "weapons\\plasma rifle\\plasma rifle", "weapons\\pistol\\pistol2", "weapons\\pistol\\bullet"][k];
        let n = len(2);
        let t = WeaponTrigger { minimum_error: Angle { angle: 1.0 }, error_angle: Bounds { lower: Angle { angle: 0.5 }, upper: Angle { angle: 0.75 } }, ..Default::default() };
        let mut w = Weapon { triggers: refl((0..n).map(|_| t.clone()).collect()), ..Default::default() };
        fix_weapon_tag(&mut w, &path(p, TagGroup::Weapon), &s);
        let w = &w.triggers.items;
        check!(w.len() == n);
        for i in 0..n {
            let deg = |d: f32| Angle::from_degrees(d);
            let mut want = t.clone();
            if i == 0 && patch && k == 0 { want.minimum_error = deg(0.0); want.error_angle = Bounds { lower: deg(0.2), upper: deg(2.0) } }
            if i == 0 && patch && k == 1 { want.error_angle = Bounds { lower: deg(0.5), upper: deg(5.0) } }
            check!(w[i] == want);
        }
        let t = ticks(true);
        let mut d = DamageEffect::default(); d.camera_shaking.wobble_period = t.0; d.damage.modifiers.elite_energy_shield = 0.5; d.damage.modifiers.elite = 0.5;
        fix_damage_effect_tag(&mut d, &path(p, TagGroup::DamageEffect), &s);
        check!(d.camera_shaking.wobble_period == t.1 && d.damage.modifiers.elite == 0.5 && d.damage.modifiers.elite_energy_shield == if patch && k == 3 { 1.0 } else { 0.5 });
    }
    /// String lists are refused if a font of the map is extended.
    fn s_strings() {
        let tag = |p: &str, g| Tag { tag_path: path(p, g), address: 0, domain: DomainType::TagData };
        let extended = len(3);
        let m = Models { vertices: vec![], triangles: vec![], tags: vec![], external: false, compressed: false, fonts: vec![tag("a", TagGroup::Font), tag("b", TagGroup::Sound), tag("c", TagGroup::Font)], extended };
        check!(ok(fix_unicode_string_list_tag(&mut UnicodeStringList::default(), &m)).is_none() == (extended == 0 || extended == 2));
    }
    /// PCM samples become big endian; other formats stay.
    fn s_sound() {
        real_fmt(true);
        let n = len(bound(5, 9));
        let mut d = vec![0u8; n];
        for b in d.iter_mut() { *b = any() }
        let pcm = bit();
        let p = SoundPermutation { format: if pcm { SoundFormat::PCM } else { [SoundFormat::XboxADPCM, SoundFormat::ImaADPCM, SoundFormat::OggVorbis][len(2)] }, ..Default::default() };
        let mut q = p.clone();
        q.samples.bytes = d.clone();
        let r = SoundPitchRange { permutations: refl(vec![p.clone(), q]), ..Default::default() };
        let mut s = Sound { maximum_bend_rate: 1.0, pitch_ranges: refl(vec![Default::default(), r]), ..Default::default() };
        let good = !pcm || n % 2 == 0;
        check!(ok(fix_sound_tag(&mut s)).is_some() == good);
        if !good { return }
        let x = &s.pitch_ranges.items[1].permutations.items[1].samples.bytes;
        check!(x.len() == n && s.maximum_bend_rate == 1.0 && s.pitch_ranges.items[1].permutations.items[0].samples.bytes.is_empty());
        for i in 0..n { check!(x[i] == if pcm { d[i ^ 1] } else { d[i] }) }
    }
}
kani_harnesses! {}
