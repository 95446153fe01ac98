// P03: tag groups: names, four-character codes, inheritance.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::TagGroup;
use ringhopper_primitives::parse::SimpleTagData;
use byteorder::{BigEndian, LittleEndian};

/// The codes stored in tag and map files (written as characters) and the file extensions: part of the file format.
const SPEC: &[(&str, TagGroup, &[u8; 4])] = &[
    ("actor", TagGroup::Actor, b"actr"),
    ("actor_variant", TagGroup::ActorVariant, b"actv"),
    ("antenna", TagGroup::Antenna, b"ant!"),
    ("biped", TagGroup::Biped, b"bipd"),
    ("bitmap", TagGroup::Bitmap, b"bitm"),
    ("camera_track", TagGroup::CameraTrack, b"trak"),
    ("color_table", TagGroup::ColorTable, b"colo"),
    ("continuous_damage_effect", TagGroup::ContinuousDamageEffect, b"cdmg"),
    ("contrail", TagGroup::Contrail, b"cont"),
    ("damage_effect", TagGroup::DamageEffect, b"jpt!"),
    ("decal", TagGroup::Decal, b"deca"),
    ("detail_object_collection", TagGroup::DetailObjectCollection, b"dobc"),
    ("device", TagGroup::Device, b"devi"),
    ("device_control", TagGroup::DeviceControl, b"ctrl"),
    ("device_light_fixture", TagGroup::DeviceLightFixture, b"lifi"),
    ("device_machine", TagGroup::DeviceMachine, b"mach"),
    ("dialogue", TagGroup::Dialogue, b"udlg"),
    ("effect", TagGroup::Effect, b"effe"),
    ("equipment", TagGroup::Equipment, b"eqip"),
    ("flag", TagGroup::Flag, b"flag"),
    ("fog", TagGroup::Fog, b"fog "),
    ("font", TagGroup::Font, b"font"),
    ("garbage", TagGroup::Garbage, b"garb"),
    ("gbxmodel", TagGroup::GBXModel, b"mod2"),
    ("globals", TagGroup::Globals, b"matg"),
    ("glow", TagGroup::Glow, b"glw!"),
    ("grenade_hud_interface", TagGroup::GrenadeHUDInterface, b"grhi"),
    ("hud_globals", TagGroup::HUDGlobals, b"hudg"),
    ("hud_message_text", TagGroup::HUDMessageText, b"hmt "),
    ("hud_number", TagGroup::HUDNumber, b"hud#"),
    ("input_device_defaults", TagGroup::InputDeviceDefaults, b"devc"),
    ("item", TagGroup::Item, b"item"),
    ("item_collection", TagGroup::ItemCollection, b"itmc"),
    ("lens_flare", TagGroup::LensFlare, b"lens"),
    ("light", TagGroup::Light, b"ligh"),
    ("light_volume", TagGroup::LightVolume, b"mgs2"),
    ("lightning", TagGroup::Lightning, b"elec"),
    ("material_effects", TagGroup::MaterialEffects, b"foot"),
    ("meter", TagGroup::Meter, b"metr"),
    ("model", TagGroup::Model, b"mode"),
    ("model_animations", TagGroup::ModelAnimations, b"antr"),
    ("model_collision_geometry", TagGroup::ModelCollisionGeometry, b"coll"),
    ("multiplayer_scenario_description", TagGroup::MultiplayerScenarioDescription, b"mply"),
    ("object", TagGroup::Object, b"obje"),
    ("particle", TagGroup::Particle, b"part"),
    ("particle_system", TagGroup::ParticleSystem, b"pctl"),
    ("physics", TagGroup::Physics, b"phys"),
    ("placeholder", TagGroup::Placeholder, b"plac"),
    ("point_physics", TagGroup::PointPhysics, b"pphy"),
    ("preferences_network_game", TagGroup::PreferencesNetworkGame, b"ngpr"),
    ("projectile", TagGroup::Projectile, b"proj"),
    ("scenario", TagGroup::Scenario, b"scnr"),
    ("scenario_structure_bsp", TagGroup::ScenarioStructureBSP, b"sbsp"),
    ("scenery", TagGroup::Scenery, b"scen"),
    ("shader", TagGroup::Shader, b"shdr"),
    ("shader_environment", TagGroup::ShaderEnvironment, b"senv"),
    ("shader_model", TagGroup::ShaderModel, b"soso"),
    ("shader_transparent_chicago", TagGroup::ShaderTransparentChicago, b"schi"),
    ("shader_transparent_chicago_extended", TagGroup::ShaderTransparentChicagoExtended, b"scex"),
    ("shader_transparent_generic", TagGroup::ShaderTransparentGeneric, b"sotr"),
    ("shader_transparent_glass", TagGroup::ShaderTransparentGlass, b"sgla"),
    ("shader_transparent_meter", TagGroup::ShaderTransparentMeter, b"smet"),
    ("shader_transparent_plasma", TagGroup::ShaderTransparentPlasma, b"spla"),
    ("shader_transparent_water", TagGroup::ShaderTransparentWater, b"swat"),
    ("sky", TagGroup::Sky, b"sky "),
    ("sound", TagGroup::Sound, b"snd!"),
    ("sound_environment", TagGroup::SoundEnvironment, b"snde"),
    ("sound_looping", TagGroup::SoundLooping, b"lsnd"),
    ("sound_scenery", TagGroup::SoundScenery, b"ssce"),
    ("spheroid", TagGroup::Spheroid, b"boom"),
    ("string_list", TagGroup::StringList, b"str#"),
    ("tag_collection", TagGroup::TagCollection, b"tagc"),
    ("ui_widget_collection", TagGroup::UIWidgetCollection, b"Soul"),
    ("ui_widget_definition", TagGroup::UIWidgetDefinition, b"DeLa"),
    ("unicode_string_list", TagGroup::UnicodeStringList, b"ustr"),
    ("unit", TagGroup::Unit, b"unit"),
    ("unit_hud_interface", TagGroup::UnitHUDInterface, b"unhi"),
    ("vehicle", TagGroup::Vehicle, b"vehi"),
    ("virtual_keyboard", TagGroup::VirtualKeyboard, b"vcky"),
    ("weapon", TagGroup::Weapon, b"weap"),
    ("weapon_hud_interface", TagGroup::WeaponHUDInterface, b"wphi"),
    ("weather_particle_system", TagGroup::WeatherParticleSystem, b"rain"),
    ("wind", TagGroup::Wind, b"wind"),
    ("<unset>", TagGroup::_Unset, b"\0\0\0\0")
];
fn code(c: &[u8; 4]) -> u32 { u32::from_be_bytes(*c) }
harnesses! {
    /// Every 32-bit code: known exactly when the format lists it, and then it belongs to the group with that name.
    fn s_fourcc() {
        let f: u32 = any();
        let g = TagGroup::from_fourcc(f);
        let mut e = None; let mut name = "";
        for (n, g, c) in SPEC { if code(c) == f { e = Some(*g); name = n; break } }
        if f == u32::MAX { e = Some(TagGroup::_Unset); name = "<unset>" }
        check!(g == e);
        check!(TagGroup::try_from(f).ok() == g);
        let Some(g) = g else { return };
        check!(g.as_str() == name);
        check!(g.as_fourcc() == if f == u32::MAX { 0 } else { f });
        if g != TagGroup::_Unset {
            let b = ok(TagGroup::from_str(g.as_str()));
            check!(b == Some(g));
        }
        cover!(0, g == TagGroup::Wind);
    }
    /// Arbitrary names.
    fn s_name() {
        let s = ascii(len(bound(4, 5)));
        if let Some(g) = ok(TagGroup::from_str(&s)) { check!(g.as_str() == s); cover!(0, true) }
        else { for (n, g, _) in SPEC { if *g != TagGroup::_Unset { check!(*n != s) } } }
    }
    /// Any one character of a real name changed.
    fn s_name_changed() {
        let k = split({ let k: u8 = any(); assume((k as usize) < SPEC.len() - 1); k as usize });
        let mut b = SPEC[k].0.as_bytes().to_vec();
        let i = split({ let i: u8 = any(); assume((i as usize) < b.len()); i as usize });
        b[i] = any(); assume(b[i] < 128);
        let s = unsafe { String::from_utf8_unchecked(b) };
        match ok(TagGroup::from_str(&s)) { Some(g) => check!(g.as_str() == s), None => check!(s != SPEC[k].0) }
        cover!(0, s == "fog");
    }
    /// The inheritance chain ends after at most three groups and the tree lists exactly it.
    fn s_tree() {
        let Some(g) = TagGroup::from_fourcc(any()) else { return };
        let t = g.full_subgroup_tree();
        let mut at = Some(g);
        for x in t { check!(x == at.unwrap_or(TagGroup::_Unset)); at = at.and_then(|a| a.subgroup()) }
        check!(at.is_none());
        if let Some(p) = g.subgroup() { check!(p != g && p != TagGroup::_Unset) }
        cover!(0, t[2] == TagGroup::Object);
    }
    /// Order of groups is a total order consistent with equality.
    fn s_order() {
        let (Some(g), Some(h)) = (TagGroup::from_fourcc(any()), TagGroup::from_fourcc(any())) else { return };
        let c = g.cmp(&h);
        check!(c == h.cmp(&g).reverse());
        check!((c == std::cmp::Ordering::Equal) == (g == h));
        check!(g.partial_cmp(&h) == Some(c));
        cover!(0, g < h);
    }
    /// Binary form in both byte orders.
    fn s_binary() {
        let b: [u8; 4] = any();
        for le in [false, true] {
            let g = ok(if le { TagGroup::read::<LittleEndian>(&b, 0, 4) } else { TagGroup::read::<BigEndian>(&b, 0, 4) });
            let f = if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) };
            check!(g == TagGroup::from_fourcc(f));
            if let Some(g) = g {
                let mut o = [0u8; 4];
                check!(ok(if le { g.write::<LittleEndian>(&mut o, 0, 4) } else { g.write::<BigEndian>(&mut o, 0, 4) }).is_some());
                check!(o == b || f == u32::MAX);
                cover!(0, g == TagGroup::Model);
            }
        }
    }
}
kani_harnesses! {}
