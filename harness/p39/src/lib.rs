// P39: the common part of related tags is found in place, survives conversion, and collections hold the tags they list.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, primitives::{primitive::*, dynamic::*, tag::*}, tag::{object::*, convert::*, tag_collection::*}};

fn number() -> f64 { let v: f64 = any(); assume(!v.is_nan()); v }
fn object() -> Object {
    let mut o = Object { bounding_radius: number(), hud_text_message_index: any(), ..Default::default() };
    o.functions.items.push(ObjectFunction { period: number(), ..Default::default() });
    if len(1) == 1 { o.model = TagReference::Set(ok(TagPath::new("x", TagGroup::GBXModel)).unwrap()) }
    o
}
fn unit() -> Unit { Unit { object: object(), camera_field_of_view: Angle { angle: { let v: f32 = any(); assume(!v.is_nan()); v } }, ..Default::default() } }
fn item() -> Item { Item { object: object(), pickup_text_index: Some(any()), ..Default::default() } }
fn device() -> Device { Device { object: object(), power_transition_time: number(), ..Default::default() } }
fn basic() -> BasicObject { BasicObject { object: object(), ..Default::default() } }
/// What a tag has in common with others, as seen through its fields.
fn part<'a, T: 'static>(t: &'a dyn PrimaryTagStructDyn, path: &[&str]) -> &'a T {
    let mut d = t.as_dynamic();
    for p in path { d = d.get_field(p).unwrap() }
    d.as_any().downcast_ref().unwrap()
}
/// All five ways find the same place or nothing.
fn found<T: PrimaryTagStructDyn>(mut t: T, o: Option<&[&str]>, u: Option<&[&str]>, i: Option<&[&str]>, d: Option<&[&str]>, b: Option<&[&str]>) {
    macro_rules! is { ($p:expr, $get:ident, $get_mut:ident, $t:ty) => {{
        let want = $p.map(|p| part::<$t>(&t, p) as *const $t);
        check!($get(&t).map(|x| x as *const $t) == want);
        check!($get_mut(&mut t).map(|x| x as *const $t) == want);
    }} }
    is!(o, downcast_base_object, downcast_base_object_mut, Object);
    is!(u, downcast_base_unit, downcast_base_unit_mut, Unit);
    is!(i, downcast_base_item, downcast_base_item_mut, Item);
    is!(d, downcast_base_device, downcast_base_device_mut, Device);
    is!(b, downcast_basic_object, downcast_basic_object_mut, BasicObject);
    let g = t.group();
    check!(is_object(g) == o.is_some());
    check!(g.full_subgroup_tree().contains(&TagGroup::Object) == o.is_some());
    check!(g.full_subgroup_tree().contains(&TagGroup::Unit) == u.is_some());
    check!(g.full_subgroup_tree().contains(&TagGroup::Item) == i.is_some());
    check!(g.full_subgroup_tree().contains(&TagGroup::Device) == d.is_some());
}
fn nothing<T: PrimaryTagStructDyn + Default>() { found(T::default(), None, None, None, None, None) }
const GROUPS: [TagGroup; 82] = { use TagGroup::*; [Actor, ActorVariant, Antenna, Biped, Bitmap, CameraTrack, ColorTable, ContinuousDamageEffect, Contrail, DamageEffect, Decal, DetailObjectCollection, Device, DeviceControl, DeviceLightFixture, DeviceMachine, Dialogue, Effect, Equipment, Flag, Fog, Font, Garbage, GBXModel, Globals, Glow, GrenadeHUDInterface, HUDGlobals, HUDMessageText, HUDNumber, InputDeviceDefaults, Item, ItemCollection, LensFlare, Light, LightVolume, Lightning, MaterialEffects, Meter, Model, ModelAnimations, ModelCollisionGeometry, MultiplayerScenarioDescription, Object, Particle, ParticleSystem, Physics, Placeholder, PointPhysics, PreferencesNetworkGame, Projectile, Scenario, ScenarioStructureBSP, Scenery, Shader, ShaderEnvironment, ShaderModel, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentGlass, ShaderTransparentMeter, ShaderTransparentPlasma, ShaderTransparentWater, Sky, Sound, SoundEnvironment, SoundLooping, SoundScenery, StringList, TagCollection, UIWidgetCollection, UIWidgetDefinition, UnicodeStringList, Unit, UnitHUDInterface, Vehicle, VirtualKeyboard, Weapon, WeaponHUDInterface, WeatherParticleSystem, Wind] };
fn any_item_tag() -> Box<dyn PrimaryTagStructDyn> { match len(3) { 0 => Box::new(item()), 1 => Box::new(Weapon { item: item(), zoom_levels: 3, ..Default::default() }), 2 => Box::new(Equipment { item: item(), ..Default::default() }), _ => Box::new(Garbage { item: item(), ..Default::default() }) } }
fn any_object_tag() -> Box<dyn PrimaryTagStructDyn> {
    match len(12) {
        0 => Box::new(object()), 1 => Box::new(unit()), 2 => Box::new(Biped { unit: unit(), ..Default::default() }), 3 => Box::new(Vehicle { unit: unit(), ..Default::default() }),
        4 => any_item_tag(), 5 => Box::new(device()), 6 => Box::new(DeviceMachine { device: device(), ..Default::default() }), 7 => Box::new(DeviceControl { device: device(), ..Default::default() }), 8 => Box::new(DeviceLightFixture { device: device(), ..Default::default() }),
        9 => Box::new(Projectile { object: object(), ..Default::default() }), 10 => Box::new(Placeholder { basic_object: basic(), ..Default::default() }), 11 => Box::new(SoundScenery { basic_object: basic(), ..Default::default() }), _ => Box::new(Scenery { basic_object: basic(), ..Default::default() })
    }
}
harnesses! {
    fn s_parts() {
        match len(15) {
            0 => found(object(), Some(&[]), None, None, None, None),
            1 => found(unit(), Some(&["object"]), Some(&[]), None, None, None),
            2 => found(Biped { unit: unit(), ..Default::default() }, Some(&["unit", "object"]), Some(&["unit"]), None, None, None),
            3 => found(Vehicle { unit: unit(), ..Default::default() }, Some(&["unit", "object"]), Some(&["unit"]), None, None, None),
            4 => found(item(), Some(&["object"]), None, Some(&[]), None, None),
            5 => found(Weapon { item: item(), ..Default::default() }, Some(&["item", "object"]), None, Some(&["item"]), None, None),
            6 => found(Equipment { item: item(), ..Default::default() }, Some(&["item", "object"]), None, Some(&["item"]), None, None),
            7 => found(Garbage { item: item(), ..Default::default() }, Some(&["item", "object"]), None, Some(&["item"]), None, None),
            8 => found(device(), Some(&["object"]), None, None, Some(&[]), None),
            9 => found(DeviceMachine { device: device(), ..Default::default() }, Some(&["device", "object"]), None, None, Some(&["device"]), None),
            10 => found(DeviceControl { device: device(), ..Default::default() }, Some(&["device", "object"]), None, None, Some(&["device"]), None),
            11 => found(DeviceLightFixture { device: device(), ..Default::default() }, Some(&["device", "object"]), None, None, Some(&["device"]), None),
            12 => found(Projectile { object: object(), ..Default::default() }, Some(&["object"]), None, None, None, None),
            13 => found(Scenery { basic_object: basic(), ..Default::default() }, Some(&["basic_object", "object"]), None, None, None, Some(&["basic_object"])),
            14 => found(Placeholder { basic_object: basic(), ..Default::default() }, Some(&["basic_object", "object"]), None, None, None, Some(&["basic_object"])),
            _ => found(SoundScenery { basic_object: basic(), ..Default::default() }, Some(&["basic_object", "object"]), None, None, None, Some(&["basic_object"]))
        }
    }
    fn s_no_parts() {
        let all: &[fn()] = &[nothing::<Actor>, nothing::<Bitmap>, nothing::<Dialogue>, nothing::<Effect>, nothing::<ItemCollection>, nothing::<DetailObjectCollection>, nothing::<GBXModel>, nothing::<Model>, nothing::<Globals>, nothing::<UnitHUDInterface>, nothing::<WeaponHUDInterface>, nothing::<Shader>, nothing::<ShaderModel>, nothing::<Sound>, nothing::<DamageEffect>, nothing::<ContinuousDamageEffect>, nothing::<Light>, nothing::<Physics>];
        all[len(all.len() - 1)]()
    }
    /// Which groups can become which, and what they then are.
    fn s_groups() {
        use TagGroup::*;
        let (from, to) = (GROUPS[len(81)], GROUPS[len(81)]);
        let item = matches!(from, Item | Weapon | Equipment | Garbage);
        let object = item || matches!(from, Object | Unit | Biped | Vehicle | Device | DeviceMachine | DeviceControl | DeviceLightFixture | Projectile | Scenery | Placeholder | SoundScenery);
        let can = from != to && match to { Model => from == GBXModel, GBXModel => from == Model, Scenery => object, Garbage | Weapon | Equipment => item, _ => false };
        check!(get_tag_conversion_fn(from, to).is_some() == can);
    }
    fn s_convert() {
        let (t, to) = if len(1) == 0 { (any_object_tag(), TagGroup::Scenery) } else { (any_item_tag(), [TagGroup::Weapon, TagGroup::Garbage, TagGroup::Equipment][len(2)]) };
        let Some(f) = get_tag_conversion_fn(t.group(), to) else { check!(t.group() == to); return };
        let u = ok(f(t.as_ref())).unwrap();
        check!(u.group() == to);
        check!(downcast_base_object(u.as_ref()) == downcast_base_object(t.as_ref()));
        let o = downcast_base_object(t.as_ref()).unwrap().clone();
        // and nothing else
        if to == TagGroup::Scenery { check!(u.as_any().downcast_ref() == Some(&Scenery { basic_object: BasicObject { object: o, ..Default::default() }, ..Default::default() })) }
        else {
            let item = downcast_base_item(t.as_ref()).unwrap().clone();
            check!(match to { TagGroup::Weapon => u.as_any().downcast_ref() == Some(&Weapon { item, ..Default::default() }), TagGroup::Garbage => u.as_any().downcast_ref() == Some(&Garbage { item, ..Default::default() }), _ => u.as_any().downcast_ref() == Some(&Equipment { item, ..Default::default() }) })
        }
    }
    /// Lists of tags: each line a path, empty ones are left out.
    fn s_collection() {
        let lines = ["", "a.bitmap", "b\\c.d.weapon", "a.wind", "a.unicode_string_list", "a", "a.nothing", "?.bitmap", " "];
        let mut text = std::string::String::new();
        let (mut want, mut bad) = (Vec::new(), None);
        let n = len(3);
        for i in 0..n {
            let k = len(8);
            text.push_str(lines[k]);
            if i < n - 1 || len(1) == 1 { text.push_str(["\n", "\r\n"][len(1)]) }
            match k { 0 => (), 1 => want.push(("a", TagGroup::Bitmap)), 2 => want.push(("b\\c.d", TagGroup::Weapon)), 3 => want.push(("a", TagGroup::Wind)), 4 => want.push(("a", TagGroup::UnicodeStringList)), _ => if bad.is_none() { bad = Some((i + 1, lines[k])) } }
        }
        macro_rules! judge { ($t:ty) => { match <$t>::from_text_data(text.as_bytes()) {
            Ok(c) => { check!(bad.is_none()); check!(c.tags.items.len() == want.len()); for (c, w) in c.tags.items.iter().zip(&want) { check!(c.reference == TagReference::Set(ok(TagPath::new(w.0, w.1)).unwrap())) } }
            Err(TagCollectionError::BadTagPath(line, s)) => { check!(bad == Some((line, s.as_str()))) }
            Err(_) => check!(false)
        } } }
        if len(1) == 0 { judge!(TagCollection) } else { judge!(UIWidgetCollection) }
    }
    /// Text that is not UTF-8 is refused, whatever else it is.
    fn s_not_text() {
        let (a, b): (u8, u8) = (any(), any());
        let t = [b'a', b'.', b'f', b'o', b'g', b'\n', a, b];
        let whole = (a < 0x80 && b < 0x80) || (a >= 0xC2 && a < 0xE0 && b >= 0x80 && b < 0xC0);
        let r = TagCollection::from_text_data(&t);
        check!(matches!(r, Err(TagCollectionError::InvalidTextFile)) == !whole);
        if let Ok(r) = r { check!(r.tags.items.len() == 1 && (a == b'\n' || a == b'\r') && (b == b'\n' || (b == b'\r'))) }
    }
}
kani_harnesses! {}
