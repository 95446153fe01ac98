// P36: a tag written to a file and read again is the same tag.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::primitives::parse::TagData;
use ringhopper::{definitions::*, primitives::{primitive::*, dynamic::*, tag::*}};

/// Visit everything that holds a value: its path and whether it only exists in maps.
fn visit(d: &mut dyn DynamicTagData, path: &mut String, cache: bool, f: &mut dyn FnMut(&str, bool, &mut dyn DynamicTagData)) {
    let n = path.len();
    match d.data_type() {
        DynamicTagDataType::Reflexive | DynamicTagDataType::Array => {
            if d.data_type() == DynamicTagDataType::Reflexive { f(&path[1..], cache, d) }
            let a = d.as_array_mut().unwrap();
            for i in 0..a.len() { path.push('['); path.push((b'0' + i as u8) as char); path.push(']'); visit(a.get_at_index_mut(i).unwrap(), path, cache, f); path.truncate(n) }
        }
        DynamicTagDataType::Block => for name in d.fields() {
            let c = cache || d.get_metadata_for_field(name).is_some_and(|m| m.cache_only);
            path.push('.'); path.push_str(name);
            visit(d.get_field_mut(name).unwrap(), path, c, f);
            path.truncate(n);
        },
        _ => f(&path[1..], cache, d)
    }
}
/// Give every list of the tag one item.
fn fill(d: &mut dyn DynamicTagData, depth: usize, n: usize) {
    if let Some(r) = d.as_reflexive_mut() { if depth > 0 { for _ in 0..n { r.insert_default(0) } } }
    let reflexive = d.data_type() == DynamicTagDataType::Reflexive;
    if reflexive { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { fill(a.get_at_index_mut(i).unwrap(), depth - 1, 1) } }
    else if d.data_type() == DynamicTagDataType::Block { for n in d.fields() { if !d.get_metadata_for_field(n).is_some_and(|m| m.cache_only) { fill(d.get_field_mut(n).unwrap(), depth, 1) } } }
}
fn single(x: &mut f64, as32: bool) -> bool { let v: f32 = any(); assume(!v.is_nan()); let v = v as f64; let b = *x as f32 != v as f32; let b = if as32 { b } else { *x != v }; *x = v; b }
/// Put an arbitrary value there; whether it counts as another.
fn change(d: &mut dyn DynamicTagData) -> bool {
    use SimplePrimitiveType as S;
    macro_rules! of { ($t:ty) => { d.as_any_mut().downcast_mut::<$t>().unwrap() } }
    macro_rules! put { ($x:expr) => {{ let x = $x; let v = any(); let b = *x != v; *x = v; b }} }
    macro_rules! floats { ($t:ty: $($($p:ident).+),*) => {{ let v = of!($t); let mut all = [$(&mut v.$($p).+),*]; let n = all.len() - 1; single(all[len(n)], true) }} }
    fn angle(x: &mut f32) -> bool { let v: f32 = any(); assume(!v.is_nan()); let b = *x != v; *x = v; b }
    match d.data_type() {
        DynamicTagDataType::Reflexive => { let n = d.as_array().unwrap().len(); d.as_reflexive_mut().unwrap().insert_default(n); true }
        DynamicTagDataType::Enum => {
            let e = d.as_enum_mut().unwrap();
            let (was, all) = (e.get_enum_string_value(), e.get_possible_enum_string_values());
            let to = all[len(all.len() - 1)];
            check!(ok(e.set_enum_string_value(to)).is_some());
            was != to
        }
        DynamicTagDataType::TagReference => {
            let r = of!(TagReference);
            let to = match len(3) { 0 => r.clone(), 1 => TagReference::Set(ok(TagPath::new("x", r.group())).unwrap()), 2 => TagReference::Null(TagGroup::Placeholder), _ => TagReference::Set(ok(TagPath::new("a\\é.b", TagGroup::Wind)).unwrap()) };
            let b = *r != to;
            *r = to;
            b
        }
        DynamicTagDataType::Data => { of!(Data).bytes = bytes(len(2)); !of!(Data).bytes.is_empty() }
        DynamicTagDataType::FileData => { of!(FileData).bytes = bytes(len(2)); !of!(FileData).bytes.is_empty() }
        DynamicTagDataType::BSPVertexData => { of!(BSPVertexData).bytes = bytes(len(2)); !of!(BSPVertexData).bytes.is_empty() }
        DynamicTagDataType::UTF16String => { let s = of!(UTF16String); let to = UTF16String::from_str(["", "a", "é"][len(2)]); let b = s.get_utf16_bytes() != to.get_utf16_bytes(); *s = to; b }
        DynamicTagDataType::SimplePrimitive(t) => match t {
            S::Bool => put!(of!(bool)),
            S::String32 => { let s = of!(String32); let to = ["", "a", "\t", "A"][len(3)]; let b = s.as_str() != to; *s = ok(String32::from_str(to)).unwrap(); b }
            S::I8 => put!(of!(i8)), S::U8 => put!(of!(u8)), S::I16 => put!(of!(i16)), S::U16 => put!(of!(u16)), S::I32 => put!(of!(i32)), S::U32 => put!(of!(u32)), S::Size => put!(of!(usize)),
            S::Float => single(of!(f64), true),
            S::Angle => angle(&mut of!(Angle).angle),
            S::Vector2D => floats!(Vector2D: x, y),
            S::Vector3D => floats!(Vector3D: x, y, z),
            S::Plane2D => floats!(Plane2D: vector.x, vector.y, d),
            S::Plane3D => floats!(Plane3D: vector.x, vector.y, vector.z, d),
            S::Euler2D => { let v = of!(Euler2D); let mut all = [&mut v.yaw, &mut v.pitch]; angle(&mut all[len(1)].angle) }
            S::Euler3D => { let v = of!(Euler3D); let mut all = [&mut v.yaw, &mut v.pitch, &mut v.roll]; angle(&mut all[len(2)].angle) }
            S::Quaternion => floats!(Quaternion: x, y, z, w),
            S::Matrix3x3 => { let v = &mut of!(Matrix3x3).vectors[len(2)]; let mut all = [&mut v.x, &mut v.y, &mut v.z]; single(all[len(2)], true) }
            S::Vector2DInt => { let v = of!(Vector2DInt); let mut all = [&mut v.x, &mut v.y]; put!(&mut *all[len(1)]) }
            S::Rectangle => { let v = of!(Rectangle); let mut all = [&mut v.top, &mut v.left, &mut v.bottom, &mut v.right]; put!(&mut *all[len(3)]) }
            S::CompressedVector3D => put!(&mut of!(CompressedVector3D).data),
            S::CompressedVector2D => put!(&mut of!(CompressedVector2D).data),
            S::CompressedFloat => put!(&mut of!(CompressedFloat).data),
            S::ColorRGBFloat => floats!(ColorRGBFloat: red, green, blue),
            S::ColorARGBFloat => floats!(ColorARGBFloat: alpha, red, green, blue),
            S::ColorARGBInt => put!(&mut of!(ColorARGBInt).color),
            S::ColorARGBIntBytes => { let v = of!(ColorARGBIntBytes); let mut all = [&mut v.alpha, &mut v.red, &mut v.green, &mut v.blue]; put!(&mut *all[len(3)]) }
            S::Index => { let i = of!(Index); let to = if len(1) == 0 { None } else { Some(any::<u16>()) }; assume(to != Some(0xFFFF)); let b = *i != to; *i = to; b }
            S::ID => { let i = of!(ID); let to: u32 = any(); let b = i.as_u32() != to; *i = ID::from(ScenarioScriptNodeValue { data: to }); b }
            S::TagGroup => { let g = of!(TagGroup); let to = [TagGroup::Wind, TagGroup::Fog][len(1)]; let b = *g != to; *g = to; b }
            S::Address => put!(&mut of!(Address).address),
            S::ScenarioScriptNodeValue => { let v = of!(ScenarioScriptNodeValue); let to = ScenarioScriptNodeValue::from(any::<i32>()); let b = *v != to; *v = to; b }
        },
        _ => unreachable!()
    }
}
/// Values that only exist in maps are not stored.
fn go<T: PrimaryTagStructDyn + TagData + Clone + PartialEq + Default>() {
    let mut t = T::default();
    fill(t.as_mut_dynamic(), 3, 1);
    let (mut n, mut p) = (0, String::from("."));
    visit(t.as_mut_dynamic(), &mut p, false, &mut |_, _, _| n += 1);
    let mut want = t.clone();
    if n > 0 {
        let at = len(n - 1);
        let mut u = t.clone();
        let (mut k, mut cache) = (0, false);
        visit(u.as_mut_dynamic(), &mut p, false, &mut |_, c, d| { if k == at { cache = c; change(d); } k += 1 });
        t = u;
        if !cache { want = t.clone() }
    }
    // Without the header, whose checksum is another matter
    let mut file = vec![0u8; T::size()];
    check!(ok(t.write_to_tag_file(&mut file, 0, T::size())).is_some());
    let mut end = T::size();
    let u = ok(T::read_from_tag_file(&file, 0, T::size(), &mut end));
    check!(u.is_some() && end == file.len());
    check!(u.unwrap() == want);
}
/// With the header, and whatever the group is found to be.
fn whole<T: PrimaryTagStructDyn + Clone + PartialEq + Default>() {
    let mut t = T::default();
    fill(t.as_mut_dynamic(), 3, 1 + len(1));
    let mut file = ok(t.to_tag_file()).unwrap();
    if len(1) == 1 { let i: u8 = any(); let l = file.len() - 1; file[l] ^= i; assume(i != 0); check!(l == 0x3F || ok(read_any_tag_from_file_buffer(&file, ParseStrictness::Strict)).is_none()); return }
    let read = ok(read_any_tag_from_file_buffer(&file, ParseStrictness::Strict)).unwrap();
    check!(read.group() == t.group());
    check!(read.as_any().downcast_ref::<T>() == Some(&t));
}
macro_rules! tags { ($f:ident: $($t:ident),*) => {{ let all: &[fn()] = &[$($f::<$t>),*]; all[len(all.len() - 1)]() }} }
harnesses! {
    fn s_tags0() { tags!(go: Actor, CameraTrack, DamageEffect, DeviceControl, Effect, Font, HUDNumber, LensFlare, MaterialEffects, MultiplayerScenarioDescription, Physics, Projectile, ShaderModel, ShaderTransparentGlass, Sky, SoundScenery, UIWidgetDefinition, WeatherParticleSystem) }
    fn s_tags1() { tags!(go: ActorVariant, ColorTable, Decal, DeviceLightFixture, Equipment, Garbage, InputDeviceDefaults, Light, Meter, Object, Placeholder, Scenery, ShaderTransparentChicago, ShaderTransparentMeter, Sound, StringList, UnicodeStringList, Wind) }
    fn s_tags2() { tags!(go: Antenna, ContinuousDamageEffect, DetailObjectCollection, DeviceMachine, Flag, Glow, Item, LightVolume, ModelAnimations, Particle, PointPhysics, Shader, ShaderTransparentChicagoExtended, ShaderTransparentPlasma, SoundEnvironment, TagCollection, Unit) }
    fn s_tags3() { tags!(go: Bitmap, Contrail, Device, Dialogue, Fog, HUDMessageText, ItemCollection, Lightning, ModelCollisionGeometry, ParticleSystem, PreferencesNetworkGame, ShaderEnvironment, ShaderTransparentGeneric, ShaderTransparentWater, SoundLooping, UIWidgetCollection, VirtualKeyboard) }
    fn s_large() { tags!(go: ScenarioStructureBSP, Globals, Weapon, Biped, Vehicle, GBXModel, Model, WeaponHUDInterface, UnitHUDInterface, HUDGlobals, GrenadeHUDInterface) }
    fn s_scenario() { tags!(go: Scenario) }
    fn s_whole() { tags!(whole: Actor, ActorVariant, Antenna, Biped, Bitmap, CameraTrack, ColorTable, ContinuousDamageEffect, Contrail, DamageEffect, Decal, DetailObjectCollection, Device, DeviceControl, DeviceLightFixture, DeviceMachine, Dialogue, Effect, Equipment, Flag, Fog, Font, Garbage, GBXModel, Globals, Glow, GrenadeHUDInterface, HUDGlobals, HUDMessageText, HUDNumber, InputDeviceDefaults, Item, ItemCollection, LensFlare, Light, LightVolume, Lightning, MaterialEffects, Meter, Model, ModelAnimations, ModelCollisionGeometry, MultiplayerScenarioDescription, Object, Particle, ParticleSystem, Physics, Placeholder, PointPhysics, PreferencesNetworkGame, Projectile, Scenario, ScenarioStructureBSP, Scenery, Shader, ShaderEnvironment, ShaderModel, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentGlass, ShaderTransparentMeter, ShaderTransparentPlasma, ShaderTransparentWater, Sky, Sound, SoundEnvironment, SoundLooping, SoundScenery, StringList, TagCollection, UIWidgetCollection, UIWidgetDefinition, UnicodeStringList, Unit, UnitHUDInterface, Vehicle, VirtualKeyboard, Weapon, WeaponHUDInterface, WeatherParticleSystem, Wind) }
}
kani_harnesses! {}
