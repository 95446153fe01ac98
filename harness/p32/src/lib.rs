// P32: the dependencies of tags are exactly the references in them, and exactly the references that are not allowed are reported.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/tree.rs"] pub mod tree;
use nd::*;
use tree::*;
use ringhopper::{definitions::*, tag::{dependency::*, tree::*, verify::verif, bludgeon::*}, primitives::{primitive::*, dynamic::*, tag::*, error::*, engine::Engine}};
use std::{borrow::Cow, collections::{HashMap, HashSet}, sync::{Arc, Mutex}};

/// Visit every reference of a tag with the groups it may have.
fn visit(d: &mut dyn DynamicTagData, f: &mut dyn FnMut(&'static [TagGroup], &mut TagReference)) {
    match d.data_type() {
        DynamicTagDataType::Reflexive | DynamicTagDataType::Array => { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { visit(a.get_at_index_mut(i).unwrap(), f) } }
        DynamicTagDataType::Block => for n in d.fields() {
            let m = d.get_metadata_for_field(n);
            let x = d.get_field_mut(n).unwrap();
            match x.as_any_mut().downcast_mut::<TagReference>() { Some(r) => f(m.unwrap().allowed_references.unwrap(), r), None => visit(x, f) }
        },
        _ => ()
    }
}
/// Give every list of the tag one item.
fn fill(d: &mut dyn DynamicTagData, depth: usize) {
    if let Some(r) = d.as_reflexive_mut() { if depth > 0 { r.insert_default(0) } }
    let reflexive = d.data_type() == DynamicTagDataType::Reflexive;
    if reflexive { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { fill(a.get_at_index_mut(i).unwrap(), depth - 1) } }
    else if d.data_type() == DynamicTagDataType::Block { for n in d.fields() { fill(d.get_field_mut(n).unwrap(), depth) } }
}
const GROUPS: [TagGroup; 10] = [TagGroup::Bitmap, TagGroup::Weapon, TagGroup::Sound, TagGroup::Effect, TagGroup::GBXModel, TagGroup::Model, TagGroup::ShaderTransparentChicagoExtended, TagGroup::TagCollection, TagGroup::Scenery, TagGroup::DamageEffect];
fn path(s: &str, g: TagGroup) -> TagPath { ok(TagPath::new(s, g)).unwrap() }
fn engine_named(n: &str) -> &'static Engine { ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == n).unwrap() }
fn tag<T: PrimaryTagStructDyn + Clone + PartialEq + Default>() -> (T, Vec<&'static [TagGroup]>) {
    let mut t = T::default();
    fill(t.as_mut_dynamic(), 3);
    let mut all = Vec::new();
    visit(t.as_mut_dynamic(), &mut |g, _| all.push(g));
    (t, all)
}
/// What a tag depends on.
fn references<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(_: bool) {
    let (mut t, all) = tag::<T>();
    if all.is_empty() { return }
    // Groups that can be referenced somewhere, and no others
    let can = get_all_referenceable_tag_groups_for_group(t.group());
    for a in &all { for g in a.iter() { check!(can.contains(g)); } }
    for g in can { check!(all.iter().any(|a| a.contains(g))); }
    let (i, j) = (len(all.len() - 1), all.len() - 1 - len(1).min(all.len() - 1));
    let (p, q) = (path("x", GROUPS[len(1)]), path(["x", "y"][len(1)], TagGroup::Bitmap));
    let mut k = 0;
    visit(t.as_mut_dynamic(), &mut |_, r| { if k == i { *r = TagReference::Set(p.clone()) } if k == j { *r = TagReference::Set(q.clone()) } k += 1 });
    let mut want = HashSet::new();
    want.insert(q);
    if i != j { want.insert(p); }
    check!(get_tag_dependencies_for_block(t.as_dynamic()) == want);
    // In the order of the fields, with what each may refer to
    let before = t.clone();
    let mut seen = Vec::new();
    for_each_dependency_mut(t.as_mut_dynamic(), true, |a, _| seen.push(a));
    check!(seen == all);
    let mut n = 0;
    for_each_dependency(t.as_dynamic(), |_| n += 1);
    check!(n == all.len());
    check!(t == before);
}
/// References that are not allowed, for the field or for the engine.
fn allowed<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(verified: bool) {
    let (mut t, all) = tag::<T>();
    if all.is_empty() || !verified { return }
    let i = len(all.len() - 1);
    let k = len(GROUPS.len());
    let g = if k == GROUPS.len() { *all[i].last().unwrap() } else { GROUPS[k] };
    let e = ["pc-custom", "xbox-us", "mcc-cea", "pc-demo"][len(3)];
    let pc = !e.starts_with("xbox");
    let mut k = 0;
    visit(t.as_mut_dynamic(), &mut |_, r| { if k == i { *r = TagReference::Set(path("x", g)) } k += 1 });
    let mut m = Mem::default();
    let p = m.add("a", t);
    let (s, h) = (m.add("s", Scenario::default()), m.add("h", HUDGlobals::default()));
    let r = ok(verif::verify_tag(&p, &s, &h, ScenarioType::Multiplayer, Arc::new(m), engine_named(e))).unwrap();
    let only_pc = g == TagGroup::GBXModel || g == TagGroup::ShaderTransparentChicagoExtended || g == TagGroup::TagCollection;
    let bad = !all[i].contains(&g) || (only_pc && !pc);
    check!(counts(&r, &p) == Some((bad as usize, 0)));
}
/// Another group for the references of a tag.
fn regrouped<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(_: bool) {
    let (mut t, all) = tag::<T>();
    if all.is_empty() { return }
    let i = len(all.len() - 1);
    let (from, to) = [(TagGroup::Model, TagGroup::GBXModel), (TagGroup::GBXModel, TagGroup::Model), (TagGroup::Bitmap, TagGroup::Sound), (TagGroup::ShaderTransparentChicago, TagGroup::ShaderTransparentChicagoExtended), (TagGroup::Sound, TagGroup::SoundLooping), (TagGroup::Weapon, TagGroup::Equipment)][len(bound(2, 5))];
    let there = len(1) == 1;
    let kind = len(3);
    let mut m = Mem::default();
    m.tags.push((path("y", to), Arc::new(Mutex::new(Box::new(Model::default()) as Dyn))));
    m.tags.push((path("x", from), Arc::new(Mutex::new(Box::new(Model::default()) as Dyn))));
    if there { m.tags.push((path("x", to), Arc::new(Mutex::new(Box::new(Model::default()) as Dyn)))); }
    let mut k = 0;
    visit(t.as_mut_dynamic(), &mut |_, r| { if k == i { *r = match kind { 0 => TagReference::Set(path("x", from)), 1 => TagReference::Null(from), 2 => TagReference::Set(path("x", TagGroup::Wind)), _ => TagReference::Set(path("y", from)) } } k += 1 });
    let mut want = t.clone();
    let mut any = false;
    visit(want.as_mut_dynamic(), &mut |a, r| {
        if !a.contains(&to) || r.group() != from { return }
        let n = match r { TagReference::Null(_) => TagReference::Null(to), TagReference::Set(p) => { if p.path() == "x" && !there { return } TagReference::Set(path(p.path(), to)) } };
        *r = n;
        any = true;
    });
    check!(refactor_groups_for_block(t.as_mut_dynamic(), from, to, &m, true) == any);
    check!(t == want);
}
macro_rules! tags { ($f:ident: $($t:ident),*; $($u:ident),*) => {{
    let all: &[(fn(bool), bool)] = &[$(($f::<$t>, true),)* $(($f::<$u>, false)),*];
    let (f, v) = all[len(all.len() - 1)];
    f(v)
}} }
macro_rules! all_tags { ($f:ident) => {
    tags!($f: ContinuousDamageEffect, Contrail, DamageEffect, Decal, LightVolume, Glow, Lightning, Light, LensFlare, PointPhysics, SoundEnvironment, Wind, Fog, Sky,
        ActorVariant, Antenna, CameraTrack, Physics, DetailObjectCollection, MaterialEffects, Meter, ShaderModel, ShaderTransparentGlass, ShaderTransparentMeter, ShaderTransparentPlasma,
        Actor, Flag, ModelCollisionGeometry, ModelAnimations, ShaderEnvironment, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentWater, SoundLooping, UIWidgetDefinition, WeatherParticleSystem, Dialogue, Font, HUDNumber, ItemCollection, ColorTable, TagCollection, UIWidgetCollection;
        Particle, ParticleSystem, Projectile, Equipment, DeviceControl, Biped, Vehicle, Weapon, Globals, UnitHUDInterface, WeaponHUDInterface, GrenadeHUDInterface, HUDGlobals, Effect, Scenery, Bitmap, Scenario, ScenarioStructureBSP, Sound, Model, GBXModel, Placeholder, SoundScenery, Garbage, DeviceMachine, DeviceLightFixture)
} }
/// A tree in which tags can be looked for.
struct Listed(Mem);
impl TagTree for Listed {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Dyn> { self.0.open_tag_copy(p) }
    fn open_tag_shared(&self, p: &TagPath) -> RinghopperResult<Arc<Mutex<Dyn>>> { self.0.open_tag_shared(p) }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { Some(self.0.tags.iter().map(|t| TagTreeItem::new(TagTreeItemType::Tag, Cow::Borrowed(t.0.path()), Some(t.0.group()), self)).collect()) }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { Ok(false) }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.0.contains(p) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.0.get_all_tags_with_filter(None) }
}
fn collection(to: &[TagPath]) -> TagCollection {
    let mut c = TagCollection::default();
    for p in to { c.tags.items.push(TagCollectionTag { reference: TagReference::Set(p.clone()), ..Default::default() }); c.tags.items.push(Default::default()) }
    c
}
fn bit() -> bool { split(any::<bool>() as usize) == 1 }
/// Tags 0 to 2 are collections, 3 a tag that refers to nothing; 2 and 3 may be missing.
struct Graph { paths: [TagPath; 4], edges: [[bool; 4]; 3], there: [bool; 4], tree: Mem }
fn graph(dense: bool) -> Graph {
    let paths = [path("a", TagGroup::TagCollection), path("b", TagGroup::TagCollection), path("c", TagGroup::TagCollection), path("d", TagGroup::Wind)];
    let there = [true, true, bit(), bit()];
    let mut edges = [[false; 4]; 3];
    for i in 0..3 { for j in 0..4 { if (dense || i != j || i == 1) && !(i == 2 && !there[2]) { edges[i][j] = bit() } } }
    let mut tree = Mem::default();
    for i in 0..3 { if there[i] { let to: Vec<TagPath> = (0..4).filter(|j| edges[i][*j]).map(|j| paths[j].clone()).collect(); tree.add(["a", "b", "c"][i], collection(&to)); } }
    if there[3] { tree.add("d", Wind::default()); }
    Graph { paths, edges, there, tree }
}
impl Graph {
    /// Tags that can be reached, whether they exist or not.
    fn reach(&self, from: usize) -> [bool; 4] {
        let mut r = [false; 4];
        r[from] = true;
        for _ in 0..4 { for i in 0..3 { if r[i] && self.there[i] { for j in 0..4 { r[j] |= self.edges[i][j] } } } }
        r
    }
    fn index(&self, p: &TagPath) -> usize { self.paths.iter().position(|q| q == p).unwrap() }
    fn same(&self, m: &HashMap<TagPath, HashSet<TagPath>>, from: usize) {
        let r = self.reach(from);
        let mut n = 0;
        for i in 0..4 {
            let want = r[i] && self.there[i];
            n += want as usize;
            let Some(s) = m.get(&self.paths[i]) else { check!(!want); continue };
            check!(want);
            let mut k = 0;
            if i < 3 { for j in 0..4 { check!(s.contains(&self.paths[j]) == self.edges[i][j]); k += self.edges[i][j] as usize } }
            check!(s.len() == k);
        }
        check!(m.len() == n);
    }
}
/// A tree with every tag whose dependencies are not looked at.
struct Everything { inner: Mem, missing: Option<TagPath> }
impl TagTree for Everything {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Dyn> { self.inner.open_tag_copy(p) }
    fn open_tag_shared(&self, p: &TagPath) -> RinghopperResult<Arc<Mutex<Dyn>>> {
        if self.missing.as_ref() == Some(p) { return Err(Error::TagNotFound(p.clone())) }
        if let Ok(t) = self.inner.open_tag_shared(p) { return Ok(t) }
        let d: Dyn = match p.group() {
            TagGroup::Globals => Box::new(Globals::default()), TagGroup::TagCollection => Box::new(TagCollection::default()), TagGroup::Sound => Box::new(Sound::default()),
            TagGroup::SoundLooping => Box::new(SoundLooping::default()), TagGroup::UIWidgetCollection => Box::new(UIWidgetCollection::default()), TagGroup::VirtualKeyboard => Box::new(VirtualKeyboard::default()),
            TagGroup::MultiplayerScenarioDescription => Box::new(MultiplayerScenarioDescription::default()), _ => unreachable!()
        };
        Ok(Arc::new(Mutex::new(d)))
    }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { Ok(false) }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.missing.as_ref() != Some(p) }
    fn root(&self) -> TagTreeItem { unreachable!() }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { Vec::new() }
}
harnesses! {
    fn s_references() { all_tags!(references) }
    fn s_allowed() { all_tags!(allowed) }
    fn s_regrouped() { all_tags!(regrouped) }
    /// Everything a tag needs, directly or not, even in circles.
    fn s_recursive() {
        let g = graph(tier() == 1);
        let from = [0, 2, 3][len(2)];
        let r = g.reach(from);
        match recursively_get_dependencies_for_tag(&g.paths[from], &g.tree, false) {
            Ok(m) => { check!((0..4).all(|i| !r[i] || g.there[i])); g.same(&m, from) }
            Err(e) => {
                match &e {
                    Error::TagNotFound(p) => check!(*p == g.paths[from] && !g.there[from]),
                    Error::BrokenDependency(p, q) => { let (i, j) = (g.index(p), g.index(q)); check!(i < 3 && g.edges[i][j] && r[i] && g.there[i] && !g.there[j]) }
                    _ => check!(false)
                }
                std::mem::forget(e);
            }
        }
        let m = ok(recursively_get_dependencies_for_tag(&g.paths[from], &g.tree, true)).unwrap();
        g.same(&m, from);
    }
    /// Everything that needs a tag directly.
    fn s_reverse() {
        let g = graph(tier() == 1);
        let to = len(3);
        let want: Vec<bool> = (0..3).map(|i| g.there[i] && g.edges[i][to]).collect();
        let found = ok(get_reverse_dependencies_for_tag(&g.paths[to], &Listed(g.tree))).unwrap();
        for i in 0..3 { check!(found.contains(&g.paths[i]) == want[i]) }
        check!(found.len() == want.iter().filter(|w| **w).count());
    }
    /// Groups of tags that cannot refer to a tag are not opened, others must open.
    fn s_reverse_groups() {
        let mut m = Mem::default();
        let (a, b) = (path("a", TagGroup::Bitmap), path("b", TagGroup::ShaderModel));
        let mut s = ShaderModel::default();
        let set = bit();
        if set { s.maps.base_map = TagReference::Set(a.clone()) }
        m.add("b", s);
        m.add("a", Bitmap::default());
        m.add("w", Wind::default());
        let found = ok(get_reverse_dependencies_for_tag(&a, &Listed(m))).unwrap();
        check!(found.len() == set as usize && found.contains(&b) == set);
    }
    /// Everything a scenario needs on an engine.
    fn s_map() {
        let e = &ringhopper_engines::ALL_SUPPORTED_ENGINES[len(ringhopper_engines::ALL_SUPPORTED_ENGINES.len() - 1)];
        let kind = len(2);
        let mut s = Scenario { _type: [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface][kind], ..Default::default() };
        let (k, w) = (path("k", TagGroup::Sky), path("w", TagGroup::Fog));
        s.skies.items.push(ScenarioSky { sky: TagReference::Set(k.clone()), ..Default::default() });
        let mut sky = Sky::default();
        visit(sky.as_mut_dynamic(), &mut |a, r| if a.contains(&TagGroup::Fog) { *r = TagReference::Set(w.clone()) });
        let mut globals = Globals::default();
        globals.camera.items.push(Default::default());
        visit(globals.as_mut_dynamic(), &mut |a, r| if a.contains(&TagGroup::CameraTrack) { *r = TagReference::Set(path("t", TagGroup::CameraTrack)) });
        let mut t = Everything { inner: Mem::default(), missing: None };
        let p = t.inner.add("s", s);
        t.inner.add("k", sky);
        t.inner.add("w", Fog::default());
        t.inner.add("t", CameraTrack::default());
        t.inner.add("globals\\globals", globals);
        let kinds = [e.required_tags.singleplayer, e.required_tags.multiplayer, e.required_tags.user_interface];
        let required: Vec<TagPath> = e.required_tags.all.iter().chain(kinds[kind]).map(|t| ok(TagPath::from_path(t)).unwrap()).collect();
        check!(required.contains(&path("globals\\globals", TagGroup::Globals)));
        let broken = len(required.len());
        if broken > 0 { t.missing = Some(required[broken - 1].clone()) }
        let r = ok(recursively_get_dependencies_for_map(&p, &t, e));
        check!(r.is_none() == (broken > 0));
        let Some(r) = r else { return };
        let more = [p, k, w, path("t", TagGroup::CameraTrack)];
        for x in required.iter().chain(&more) { check!(r.contains(x)) }
        for x in &r { check!(required.contains(x) || more.contains(x)) }
    }
}
kani_harnesses! {}
