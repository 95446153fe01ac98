// P37: default values replace zeros and only those, removing them brings zeros back, and neither loses anything.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, primitives::{primitive::*, dynamic::*, tag::*}, tag::default::*};

/// A number of a tag.
enum Leaf<'a> { Double(&'a mut f64), Angle(&'a mut f32), I16(&'a mut i16), U16(&'a mut u16), U8(&'a mut u8) }
impl Leaf<'_> {
    fn get(&self) -> f64 { match self { Leaf::Double(x) => **x, Leaf::Angle(x) => **x as f64, Leaf::I16(x) => **x as f64, Leaf::U16(x) => **x as f64, Leaf::U8(x) => **x as f64 } }
    fn change(&mut self) { match self { Leaf::Double(x) => { let v: f64 = any(); assume(!v.is_nan()); **x = v }, Leaf::Angle(x) => { let v: f32 = any(); assume(!v.is_nan()); **x = v }, Leaf::I16(x) => **x = any(), Leaf::U16(x) => **x = any(), Leaf::U8(x) => **x = any() } }
}
fn visit(d: &mut dyn DynamicTagData, path: &mut String, f: &mut dyn FnMut(&str, Leaf)) {
    use SimplePrimitiveType as S;
    let n = path.len();
    macro_rules! of { ($t:ty) => { d.as_any_mut().downcast_mut::<$t>().unwrap() } }
    macro_rules! go { ($t:ty: $($($p:ident).+),*) => {{ let v = of!($t); $(f(path, Leaf::Double(&mut v.$($p).+));)* }} }
    match d.data_type() {
        DynamicTagDataType::Reflexive | DynamicTagDataType::Array => { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { visit(a.get_at_index_mut(i).unwrap(), path, f) } }
        DynamicTagDataType::Block => for name in d.fields() { path.push('.'); path.push_str(name); visit(d.get_field_mut(name).unwrap(), path, f); path.truncate(n) },
        DynamicTagDataType::SimplePrimitive(t) => match t {
            S::Float => f(path, Leaf::Double(of!(f64))),
            S::Angle => f(path, Leaf::Angle(&mut of!(Angle).angle)),
            S::U8 => f(path, Leaf::U8(of!(u8))), S::I16 => f(path, Leaf::I16(of!(i16))), S::U16 => f(path, Leaf::U16(of!(u16))),
            S::Vector2D => go!(Vector2D: x, y),
            S::Vector3D => go!(Vector3D: x, y, z),
            S::Euler2D => { let v = of!(Euler2D); for a in [&mut v.yaw, &mut v.pitch] { f(path, Leaf::Angle(&mut a.angle)) } }
            S::ColorRGBFloat => go!(ColorRGBFloat: red, green, blue),
            S::ColorARGBFloat => go!(ColorARGBFloat: alpha, red, green, blue),
            _ => ()
        },
        _ => ()
    }
}
/// Give every list of the tag one item.
fn fill(d: &mut dyn DynamicTagData, depth: usize) {
    if let Some(r) = d.as_reflexive_mut() { if depth > 0 { r.insert_default(0) } }
    let reflexive = d.data_type() == DynamicTagDataType::Reflexive;
    if reflexive { let a = d.as_array_mut().unwrap(); for i in 0..a.len() { fill(a.get_at_index_mut(i).unwrap(), depth - 1) } }
    else if d.data_type() == DynamicTagDataType::Block { for n in d.fields() { fill(d.get_field_mut(n).unwrap(), depth) } }
}
type Table = &'static [(&'static str, &'static [f64])];
const POSITION: Table = &[("position.width_scale", &[1.0]), ("position.height_scale", &[1.0])];
const OBJECT: Table = &[("functions.period", &[1.0]), ("functions.bounds", &[0.0, 1.0])];
const ANIMATION: Table = &[("animation.u_animation_period", &[1.0]), ("animation.u_animation_scale", &[1.0]), ("animation.v_animation_period", &[1.0]), ("animation.v_animation_scale", &[1.0]), ("animation.rotation_animation_period", &[1.0]), ("animation.rotation_animation_scale", &[360.0])];
/// What zero stands for. Numbers listed together only stand for it together; angles are in degrees.
fn table(group: TagGroup) -> &'static [Table] {
    use TagGroup::*;
    match group {
        Object | Item | Weapon | Garbage | Equipment | Device | DeviceMachine | DeviceControl | DeviceLightFixture | Projectile | Scenery | Placeholder | SoundScenery => &[OBJECT],
        Unit | Biped => &[OBJECT, &[("camera_field_of_view", &[70.0])]],
        Vehicle => &[OBJECT, &[("camera_field_of_view", &[70.0]), ("minimum_flipping_angular_velocity", &[0.2f32 as f64]), ("maximum_flipping_angular_velocity", &[0.75])]],
        ContinuousDamageEffect => &[&[("camera_shaking.wobble_period", &[1.0])]],
        DamageEffect => &[&[("camera_shaking.wobble_period", &[1.0]), ("screen_flash.maximum_intensity", &[1.0])]],
        Decal => &[&[("appearance.radius", &[0.125, 0.125]), ("appearance.intensity", &[1.0, 1.0]), ("appearance.color", &[1.0; 6]), ("animation.animation_speed", &[1.0])]],
        Fog => &[&[("wind_period", &[1.0, 1.0])]],
        Model | GBXModel => &[&[("base_map_u_scale", &[1.0]), ("base_map_v_scale", &[1.0])]],
        GrenadeHUDInterface | HUDGlobals | WeaponHUDInterface => &[POSITION],
        UnitHUDInterface => &[POSITION, &[("motion_sensor_center.width_scale", &[1.0]), ("motion_sensor_center.height_scale", &[1.0])]],
        LensFlare => &[&[("rotation_function_scale", &[360.0]), ("horizontal_scale", &[1.0]), ("vertical_scale", &[1.0]), ("reflections.animation_period", &[1.0])]],
        Light => &[&[("shape.radius", &[1.0]), ("shape.radius_modifer", &[1.0, 1.0]), ("shape.falloff_angle", &[180.0]), ("shape.cutoff_angle", &[180.0]), ("gel.yaw_period", &[1.0]), ("gel.roll_period", &[1.0]), ("gel.pitch_period", &[1.0])]],
        LightVolume => &[&[("frames.offset_exponent", &[1.0]), ("frames.radius_exponent", &[1.0]), ("frames.tint_color_exponent", &[1.0]), ("frames.brightness_exponent", &[1.0])]],
        Lightning => &[&[("count", &[1.0])]],
        ParticleSystem => &[&[("states.radius_multiplier", &[1.0]), ("particle_states.radius_multiplier", &[1.0])]],
        Particle => &[&[("radius_animation.lower", &[1.0]), ("radius_animation.upper", &[1.0])]],
        ShaderEnvironment => &[ANIMATION, &[("diffuse.primary_detail_map_scale", &[1.0]), ("diffuse.secondary_detail_map_scale", &[1.0]), ("diffuse.micro_detail_map_scale", &[1.0]), ("diffuse.material_color", &[1.0; 3]), ("bump.bump_map_scale", &[1.0]),
            ("self_illumination.primary_animation_period", &[1.0]), ("self_illumination.secondary_animation_period", &[1.0]), ("self_illumination.plasma_animation_period", &[1.0]), ("self_illumination.map_scale", &[1.0])]],
        ShaderModel => &[ANIMATION, &[("self_illumination.animation_period", &[1.0]), ("maps.detail_map_scale", &[1.0]), ("maps.detail_map_v_scale", &[1.0])]],
        ShaderTransparentChicago | ShaderTransparentChicagoExtended => &[ANIMATION],
        ShaderTransparentGeneric => &[ANIMATION, &[("stages.color0_animation_period", &[1.0])]],
        ShaderTransparentGlass => &[&[("background_tint.background_tint_color", &[1.0; 3]), ("background_tint.background_tint_map_scale", &[1.0]), ("reflection.bump_map_scale", &[1.0]), ("diffuse.diffuse_map_scale", &[1.0]), ("diffuse.diffuse_detail_map_scale", &[1.0]), ("specular.specular_map_scale", &[1.0]), ("specular.specular_detail_map_scale", &[1.0])]],
        ShaderTransparentPlasma => &[&[("intensity.intensity_exponent", &[1.0]), ("offset.offset_exponent", &[1.0]), ("noise_map.animation_period", &[1.0])]],
        ShaderTransparentWater => &[&[("ripples.scale", &[1.0]), ("ripples.mipmap_levels", &[1.0]), ("ripples.ripples.map_repeats", &[1.0])]],
        Sky => &[&[("outdoor_fog.maximum_density", &[1.0]), ("indoor_fog.maximum_density", &[1.0])]],
        SoundLooping => &[&[("tracks.gain", &[1.0]), ("detail_sounds.gain", &[1.0]), ("detail_sounds.yaw_bounds", &[-180.0, 180.0]), ("detail_sounds.pitch_bounds", &[-90.0, 90.0])]],
        _ => &[]
    }
}
/// Every number: its value, and what it is part of.
fn numbers(d: &mut dyn DynamicTagData) -> Vec<(String, bool, f64)> {
    let mut v = Vec::new();
    visit(d, &mut String::new(), &mut |p, l| v.push((p.to_owned(), matches!(l, Leaf::Angle(_)), l.get())));
    v
}
/// What the numbers should become.
fn expected(group: TagGroup, t: &[(String, bool, f64)], undo: bool) -> Vec<f64> {
    let mut out: Vec<f64> = t.iter().map(|t| t.2).collect();
    let mut together = |at: &[usize], to: &[f64]| {
        let all = if undo { at.iter().zip(to).all(|(i, d)| t[*i].2 == *d) } else { at.iter().all(|i| t[*i].2 == 0.0) };
        if all { for (i, d) in at.iter().zip(to) { out[*i] = if undo { 0.0 } else { *d } } }
    };
    let at = |name: &str| t.iter().position(|t| t.0 == name).unwrap();
    let mut i = 0;
    while i < t.len() {
        let entry = table(group).iter().flat_map(|t| t.iter()).find(|(n, d)| { let p = &t[i].0; let p = if d.len() > 1 { p.strip_suffix(".lower").unwrap_or(p) } else { p }; p.strip_suffix(n).is_some_and(|r| r.ends_with('.') || ["primary_", "secondary_", "scrolling_"].iter().any(|x| r.ends_with(x))) });
        match entry {
            Some((_, d)) => {
                let d: Vec<f64> = d.iter().map(|d| if t[i].1 { Angle::from_degrees(*d as f32).angle as f64 } else { *d }).collect();
                let n = d.len();
                together(&(i..i + n).collect::<Vec<_>>(), &d);
                i += n
            }
            None => {
                if t[i].0.ends_with(".prev_filthy_part_index") { together(&[i, i + 1], &[255.0, 255.0]) }
                i += 1
            }
        }
    }
    match group {
        TagGroup::Light => { let (l, u) = (at(".color.color.lower"), at(".color.color.upper")); together(&[l + 1, l + 2, l + 3, u + 1, u + 2, u + 3], &[1.0; 6]) }
        TagGroup::LightVolume => together(&[at(".perpendicular_brightness_scale"), at(".parallel_brightness_scale")], &[1.0; 2]),
        TagGroup::SoundLooping => together(&[at(".zero_detail_sound_period"), at(".one_detail_sound_period")], &[1.0; 2]),
        TagGroup::Particle => {
            // Both are replaced if one is missing
            let (s, e) = (at(".fade_start_size"), at(".fade_end_size"));
            let (x, y) = (t[s].2, t[e].2);
            if undo { if (x == 0.0 || x == 5.0) && (y == 0.0 || y == 4.0) { out[s] = 0.0; out[e] = 0.0 } }
            else if x == 0.0 || y == 0.0 { out[s] = 5.0; out[e] = 4.0 }
        }
        TagGroup::ShaderModel | TagGroup::ShaderTransparentChicago | TagGroup::ShaderTransparentChicagoExtended | TagGroup::ShaderTransparentGeneric => for u in 0..t.len() - 1 {
            if !t[u].0.ends_with(if group == TagGroup::ShaderModel { "maps.map_u_scale" } else { "maps.parameters.map_u_scale" }) { continue }
            // A missing one is the other one
            let (x, y) = (t[u].2, t[u + 1].2);
            if undo { if (x == 0.0 || x == 1.0) && (y == 0.0 || y == 1.0) { out[u] = 0.0; out[u + 1] = 0.0 } }
            else if x == 0.0 && y == 0.0 { out[u] = 1.0; out[u + 1] = 1.0 }
            else if x == 0.0 { out[u] = y }
            else if y == 0.0 { out[u + 1] = x }
        },
        _ => ()
    }
    // Objects are drawn within their own radius unless told otherwise
    if table(group).first().is_some_and(|t| t[0].0 == "functions.period") {
        let r = t.iter().position(|t| t.0.ends_with(".render_bounding_radius")).unwrap();
        let b = t.iter().position(|t| t.0.ends_with(".bounding_radius")).unwrap();
        if undo { if t[r].2 == t[b].2 { out[r] = 0.0 } } else if t[r].2 == 0.0 { out[r] = t[b].2 }
    }
    out
}
/// `places`: how many numbers are arbitrary.
fn go<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(places: usize) {
    let mut t = T::default();
    fill(t.as_mut_dynamic(), 4);
    if len(1) == 1 { set_all_defaults_for_tag(&mut t) }
    let all = numbers(t.as_mut_dynamic());
    let n = all.len();
    for place in 0..places {
        if n == 0 { break }
        let at = len(n - 1);
        // The angle of lens flares is rounded
        if all[at..].iter().take(2).any(|a| a.0.ends_with("rotation_function_scale")) { return }
        // What belongs together is next to each other
        if place == 0 { let mut k = 0; visit(t.as_mut_dynamic(), &mut String::new(), &mut |_, mut l| { if k == at || (places == 2 && k == at + 1) { l.change() } k += 1 }); if places == 2 { break } }
        else { let mut k = 0; visit(t.as_mut_dynamic(), &mut String::new(), &mut |_, mut l| { if k == at { l.change() } k += 1 }) }
    }
    laws(t)
}
fn laws<T: PrimaryTagStructDyn + Clone + PartialEq + Default>(mut t: T) {
    let before = numbers(t.as_mut_dynamic());
    let (mut s, mut u) = (t.clone(), t.clone());
    set_all_defaults_for_tag(&mut s);
    unset_all_defaults_for_tag(&mut u);
    for (x, undo) in [(&mut s, false), (&mut u, true)] {
        let want = expected(t.group(), &before, undo);
        let got = numbers(x.as_mut_dynamic());
        check!(got.len() == want.len());
        let mut same = true;
        for (g, w) in got.iter().zip(&want) { same = same & (g.2 == *w) }
        check!(same);
    }
    consistent(s, u);
    if !group_has_defaults(t.group()) { let mut s = t.clone(); set_all_defaults_for_tag(&mut s); check!(s == t); unset_all_defaults_for_tag(&mut s); check!(s == t) }
}
/// Doing it again or after the other changes nothing.
fn consistent<T: PrimaryTagStructDyn + Clone + PartialEq>(s: T, u: T) {
    let (mut ss, mut uu, mut su, mut us) = (s.clone(), u.clone(), u.clone(), s.clone());
    set_all_defaults_for_tag(&mut ss);
    unset_all_defaults_for_tag(&mut uu);
    set_all_defaults_for_tag(&mut su);
    unset_all_defaults_for_tag(&mut us);
    check!(ss == s);
    check!(uu == u);
    check!(su == s);
    set_all_defaults_for_tag(&mut us);
    check!(us == s);
}
macro_rules! tags { ($n:expr; $($t:ident),*) => {{ let all: &[fn(usize)] = &[$(go::<$t>),*]; all[len(all.len() - 1)]($n) }} }
harnesses! {
    fn s_objects() { tags!(1; Object, Unit, Biped, Vehicle, Item, Weapon, Garbage, Equipment, Device, DeviceMachine, DeviceControl, DeviceLightFixture, Projectile, Scenery, Placeholder, SoundScenery) }
    fn s_hud() { tags!(1; GrenadeHUDInterface, HUDGlobals, WeaponHUDInterface, UnitHUDInterface) }
    fn s_shaders() { tags!(2; ShaderModel, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentGlass, ShaderTransparentPlasma, ShaderTransparentWater, ShaderEnvironment) }
    fn s_others() { tags!(2; ContinuousDamageEffect, DamageEffect, Decal, Fog, Model, GBXModel, LensFlare, Light, LightVolume, Lightning, ParticleSystem, Particle, Sky, SoundLooping) }
    /// Tags without defaults stay as they are.
    fn s_none() { tags!(1; Actor, ActorVariant, Antenna, CameraTrack, ColorTable, Contrail, DetailObjectCollection, Dialogue, Effect, Flag, Font, Globals, Glow, HUDMessageText, HUDNumber, ItemCollection, MaterialEffects, Meter, Physics, PointPhysics, ShaderTransparentMeter, SoundEnvironment, UIWidgetDefinition, WeatherParticleSystem, Wind) }
    /// The six parts of the colours of a light.
    fn s_light() {
        let mut t = Light::default();
        if len(1) == 1 { set_all_defaults_for_tag(&mut t) }
        let pick = |x: &mut f64| { let v: f64 = any(); assume(!v.is_nan()); *x = v };
        let c = &mut t.color.color;
        for x in [&mut c.lower.red, &mut c.lower.green, &mut c.lower.blue, &mut c.upper.red, &mut c.upper.green, &mut c.upper.blue] { pick(x) }
        laws(t);
    }
    fn s_lens_flare() {
        let mut t = LensFlare::default();
        t.rotation_function_scale = [Angle::from_degrees(360.0), Angle::from_radians(360.0), Angle::default(), Angle::from_degrees(180.0), Angle::from_degrees(-360.0), Angle::from_degrees(359.9)][len(5)];
        let x = t.rotation_function_scale;
        let (mut s, mut u) = (t.clone(), t.clone());
        set_all_defaults_for_tag(&mut s);
        unset_all_defaults_for_tag(&mut u);
        let is = x == Angle::default() || x == Angle::from_degrees(360.0) || x == Angle::from_radians(360.0);
        check!(s.rotation_function_scale == if is { Angle::from_degrees(360.0) } else { x });
        check!(u.rotation_function_scale == if is { Angle::default() } else { x });
        consistent(s, u);
    }
    /// Defaults of sounds depend on their class.
    fn s_sound() {
        use SoundClass::*;
        let classes: &[(SoundClass, f64, f64, f64)] = &[
            (DeviceMachinery, 0.9, 5.0, 1.0), (DeviceForceField, 0.9, 5.0, 1.0), (AmbientMachinery, 0.9, 5.0, 0.0), (AmbientNature, 0.9, 5.0, 0.0), (DeviceDoor, 0.9, 5.0, 1.0), (Music, 0.9, 5.0, 0.0), (DeviceNature, 0.9, 5.0, 1.0),
            (WeaponEmpty, 1.0, 9.0, 1.0), (WeaponIdle, 1.0, 9.0, 1.0), (WeaponReady, 1.0, 9.0, 1.0), (WeaponReload, 1.0, 9.0, 1.0), (WeaponCharge, 1.0, 9.0, 1.0), (WeaponOverheat, 1.0, 9.0, 1.0),
            (ScriptedDialogOther, 3.0, 20.0, 0.0), (ScriptedDialogPlayer, 3.0, 20.0, 0.0), (GameEvent, 3.0, 20.0, 1.0), (UnitDialog, 3.0, 20.0, 0.0), (ScriptedDialogForceUnspatialized, 3.0, 20.0, 0.0),
            (FirstPersonDamage, 0.5, 3.0, 1.0), (ObjectImpacts, 0.5, 3.0, 0.0), (AmbientComputers, 0.5, 3.0, 0.0), (ParticleImpacts, 0.5, 3.0, 0.0), (DeviceComputers, 0.5, 3.0, 1.0), (SlowParticleImpacts, 0.5, 3.0, 0.0),
            (VehicleEngine, 1.4, 8.0, 1.0), (ProjectileImpact, 1.4, 8.0, 1.0), (VehicleCollision, 1.4, 8.0, 1.0),
            (WeaponFire, 4.0, 70.0, 1.0), (ScriptedEffect, 2.0, 5.0, 0.0), (ProjectileDetonation, 8.0, 120.0, 1.0), (UnitFootsteps, 0.9, 10.0, 1.0)];
        let (class, near, far, gain) = classes[len(classes.len() - 1)];
        let mut t = Sound { sound_class: class, ..Default::default() };
        let f = || { let v: f64 = any(); assume(!v.is_nan()); v };
        (t.distance_bounds.lower, t.distance_bounds.upper) = (f(), f());
        (t.random_pitch_bounds.lower, t.random_pitch_bounds.upper) = (f(), f());
        let pairs = |t: &mut Sound| { [(&mut t.zero_skip_fraction_modifier, &mut t.one_skip_fraction_modifier, 1.0, 1.0), (&mut t.zero_pitch_modifier, &mut t.one_pitch_modifier, 1.0, 1.0), (&mut t.zero_gain_modifier, &mut t.one_gain_modifier, gain, 1.0)].map(|p| ((*p.0, *p.1), (p.2, p.3))) };
        match len(2) { 0 => (t.zero_skip_fraction_modifier, t.one_skip_fraction_modifier) = (f(), f()), 1 => (t.zero_pitch_modifier, t.one_pitch_modifier) = (f(), f()), _ => (t.zero_gain_modifier, t.one_gain_modifier) = (f(), f()) }
        let (mut s, mut u) = (t.clone(), t.clone());
        set_all_defaults_for_tag(&mut s);
        unset_all_defaults_for_tag(&mut u);
        let set = |x: f64, d: f64| if x == 0.0 { d } else { x };
        let unset = |x: f64, d: f64| if x == d { 0.0 } else { x };
        check!(s.distance_bounds.lower == set(t.distance_bounds.lower, near) && s.distance_bounds.upper == set(t.distance_bounds.upper, far));
        check!(u.distance_bounds.lower == unset(t.distance_bounds.lower, near) && u.distance_bounds.upper == unset(t.distance_bounds.upper, far));
        check!(s.random_pitch_bounds.lower == set(t.random_pitch_bounds.lower, 1.0) && s.random_pitch_bounds.upper == set(t.random_pitch_bounds.upper, 1.0));
        check!(u.random_pitch_bounds.lower == unset(t.random_pitch_bounds.lower, 1.0) && u.random_pitch_bounds.upper == unset(t.random_pitch_bounds.upper, 1.0));
        for ((b, s), u) in pairs(&mut t).into_iter().zip(pairs(&mut s)).zip(pairs(&mut u)) {
            check!(s.0 == if b.0 == (0.0, 0.0) { b.1 } else { b.0 });
            check!(u.0 == if b.0 == b.1 { (0.0, 0.0) } else { b.0 });
        }
        check!(s.inner_cone_angle == Angle::from_degrees(360.0) && s.outer_cone_angle == Angle::from_degrees(360.0) && s.outer_cone_gain == 1.0 && s.random_gain_modifier == 1.0);
        consistent(s, u);
    }
    /// Pitch ranges: of 3 permutations, the ones continued in others.
    fn s_pitch_ranges() {
        let mut t = Sound::default();
        let f = || { let v: f64 = any(); assume(!v.is_nan()); v };
        let split = len(1) == 1;
        t.flags.split_long_sound_into_permutations = split;
        let mut r = SoundPitchRange { natural_pitch: f(), bend_bounds: Bounds { lower: f(), upper: f() }, ..Default::default() };
        r.permutations.items = (0..3).map(|_| SoundPermutation { gain: f(), ..Default::default() }).collect();
        // 0: no continuation; 1: the first continues in the last, 2: the first in the second, that in the last
        let shape = len(2);
        r.actual_permutation_count = if !split { 3 } else { [3, 2, 1][shape] };
        let parent: [usize; 3] = if !split { [0, 1, 2] } else { [[0, 1, 2], [0, 1, 0], [0, 0, 0]][shape] };
        match shape { 1 => r.permutations.items[0].next_permutation_index = Some(2), 2 => { r.permutations.items[0].next_permutation_index = Some(1); r.permutations.items[1].next_permutation_index = Some(2) }, _ => () }
        t.pitch_ranges.items.push(r.clone());
        let (mut s, mut u) = (t.clone(), t.clone());
        set_all_defaults_for_tag(&mut s);
        unset_all_defaults_for_tag(&mut u);
        for i in 0..3 {
            let g = r.permutations.items[parent[i]].gain;
            check!(s.pitch_ranges.items[0].permutations.items[i].gain == if g == 0.0 { 1.0 } else { g });
            check!(u.pitch_ranges.items[0].permutations.items[i].gain == if g == 1.0 || parent[i] != i { 0.0 } else { g });
        }
        // The pitch is within its bounds
        let p = &s.pitch_ranges.items[0];
        let natural = if r.natural_pitch <= 0.0 { 1.0 } else { r.natural_pitch };
        check!(p.natural_pitch == if r.natural_pitch == 0.0 { 1.0 } else { r.natural_pitch });
        check!(p.bend_bounds.upper == if r.bend_bounds.upper < natural { natural } else { r.bend_bounds.upper });
        check!(p.bend_bounds.lower == if r.bend_bounds.lower > natural { natural } else { r.bend_bounds.lower });
        // and an upper bound that only says so is removed, unless the lower one would then be above it
        let q = &u.pitch_ranges.items[0];
        check!(q.bend_bounds.lower == p.bend_bounds.lower);
        check!(q.bend_bounds.upper == if p.bend_bounds.upper == natural && p.bend_bounds.lower == 0.0 { 0.0 } else { p.bend_bounds.upper });
        consistent(s, u);
    }
}
kani_harnesses! {}
