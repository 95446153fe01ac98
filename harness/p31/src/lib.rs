// P31: numbers that are not numbers and colours out of range are found wherever they are, and repaired, and nothing else is.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/tree.rs"] pub mod tree;
use nd::*;
use tree::*;
use ringhopper::{definitions::*, tag::bludgeon::*, primitives::{primitive::*, dynamic::*, tag::*}};

/// A component of a field.
enum Leaf<'a> { Double(&'a mut f64), Single(&'a mut f32) }
/// Visit every number of a tag: whether it is part of a colour, and the number.
fn visit(d: &mut dyn DynamicTagData, f: &mut dyn FnMut(bool, Leaf)) {
    use SimplePrimitiveType as S;
    macro_rules! of { ($t:ty) => { d.as_any_mut().downcast_mut::<$t>().unwrap() } }
    macro_rules! go { ($colour:expr, $t:ty: $($($p:ident).+),*) => {{ let v = of!($t); $(f($colour, Leaf::Double(&mut v.$($p).+));)* }} }
    match d.data_type() {
        DynamicTagDataType::Reflexive | DynamicTagDataType::Array => { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { visit(a.get_at_index_mut(i).unwrap(), f) } }
        DynamicTagDataType::Block => for n in d.fields() { visit(d.get_field_mut(n).unwrap(), f) },
        DynamicTagDataType::SimplePrimitive(t) => match t {
            S::Float => f(false, Leaf::Double(of!(f64))),
            S::Angle => f(false, Leaf::Single(&mut of!(Angle).angle)),
            S::Vector2D => go!(false, Vector2D: x, y),
            S::Vector3D => go!(false, Vector3D: x, y, z),
            S::Plane2D => go!(false, Plane2D: vector.x, vector.y, d),
            S::Plane3D => go!(false, Plane3D: vector.x, vector.y, vector.z, d),
            S::Euler2D => { let v = of!(Euler2D); for a in [&mut v.yaw, &mut v.pitch] { f(false, Leaf::Single(&mut a.angle)) } }
            S::Euler3D => { let v = of!(Euler3D); for a in [&mut v.yaw, &mut v.pitch, &mut v.roll] { f(false, Leaf::Single(&mut a.angle)) } }
            S::Quaternion => go!(false, Quaternion: x, y, z, w),
            S::Matrix3x3 => for v in &mut of!(Matrix3x3).vectors { for x in [&mut v.x, &mut v.y, &mut v.z] { f(false, Leaf::Double(x)) } },
            S::ColorRGBFloat => go!(true, ColorRGBFloat: red, green, blue),
            S::ColorARGBFloat => go!(true, ColorARGBFloat: alpha, red, green, blue),
            _ => ()
        },
        _ => ()
    }
}
/// Give every list of the tag one item.
fn fill(d: &mut dyn DynamicTagData, depth: usize) {
    if let Some(r) = d.as_reflexive_mut() { if depth > 0 { r.insert_default(0) } }
    let reflexive = d.data_type() == DynamicTagDataType::Reflexive;
    if reflexive { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { fill(a.get_at_index_mut(i).unwrap(), depth - 1) } }
    else if d.data_type() == DynamicTagDataType::Block { for n in d.fields() { fill(d.get_field_mut(n).unwrap(), depth) } }
}
fn go<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(verified: bool) {
    let mut t = T::default();
    fill(t.as_mut_dynamic(), 3);
    // The same before and after
    visit(t.as_mut_dynamic(), &mut |_, l| match l { Leaf::Double(d) => *d = 0.5, Leaf::Single(d) => *d = 0.5 });
    let mut n = 0;
    visit(t.as_mut_dynamic(), &mut |_, _| n += 1);
    let at = if n == 0 { 0 } else { len(n - 1) };
    let (d, s): (f64, f32) = (any(), any());
    let mut want = t.clone();
    let mut bad = false;
    let mut k = 0;
    visit(t.as_mut_dynamic(), &mut |colour, l| { if k == at { match l { Leaf::Double(x) => { *x = d; bad = d.is_nan() || (colour && !(d >= 0.0 && d <= 1.0)) }, Leaf::Single(x) => { *x = s; bad = s.is_nan() } } } k += 1 });
    k = 0;
    visit(want.as_mut_dynamic(), &mut |colour, l| { if k == at { match l { Leaf::Double(x) => *x = if d.is_nan() { 0.0 } else if colour && d < 0.0 { 0.0 } else if colour && d > 1.0 { 1.0 } else { d }, Leaf::Single(x) => *x = if s.is_nan() { 0.0 } else { s } } } k += 1 });
    if verified {
        let mut m = Mem::default();
        let p = m.add("a", t.clone());
        let r = verify(m, Scenario::default(), HUDGlobals::default(), &p);
        check!(counts(&r, &p).map_or(false, |c| c.0 > 0) == bad);
    }
    let p = ok(TagPath::new("a", t.group())).unwrap();
    check!(matches!(bludgeon_tag(&mut t, &p), BludgeonResult::Done));
    check!(t == want);
}
macro_rules! tags { ($v:expr, $($t:ident),*) => {{ let all: &[fn(bool)] = &[$(go::<$t>),*]; all[len(all.len() - 1)]($v) }} }
harnesses! {
    /// Tags that are not verified in any other way.
    fn s_effects() { tags!(true, ContinuousDamageEffect, Contrail, DamageEffect, Decal, LightVolume, Glow, Lightning, Light, LensFlare, PointPhysics, SoundEnvironment, Wind, Fog, Sky) }
    fn s_others() { tags!(true, ActorVariant, Antenna, CameraTrack, Physics, DetailObjectCollection, MaterialEffects, Meter, ShaderModel, ShaderTransparentGlass, ShaderTransparentMeter, ShaderTransparentPlasma) }
    fn s_more_others() { tags!(true, Actor, Flag, ModelCollisionGeometry, ModelAnimations, ShaderEnvironment, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentWater, SoundLooping, UIWidgetDefinition, WeatherParticleSystem, Dialogue, Font, HUDNumber, ItemCollection, ColorTable) }
    /// Tags that are: repair only.
    fn s_repair() { tags!(false, Particle, ParticleSystem, Projectile, Equipment, DeviceControl) }
    fn s_more_repair() { tags!(false, Biped, Vehicle, Weapon, Globals, UnitHUDInterface, WeaponHUDInterface, GrenadeHUDInterface, HUDGlobals, Effect, Scenery, Bitmap) }
}
kani_harnesses! {}
