// P38: verification finds the mistakes of a tag and the tags it uses, wherever they are, and complains about nothing else.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/tree.rs"] pub mod tree;
use nd::*;
use tree::*;
use ringhopper::{definitions::*, primitives::{primitive::*, tag::*}};

fn bit() -> bool { len(1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
fn set(p: &TagPath) -> TagReference { TagReference::Set(p.clone()) }
/// Errors, warnings and remarks for a tag among others.
fn judge<T: PrimaryTagStructDyn>(mut m: Mem, t: T, s: Scenario, h: HUDGlobals) -> (usize, usize, usize) {
    let p = m.add("t", t);
    let r = verify(m, s, h, &p);
    let r = r.get(&p).unwrap();
    (r.errors.len(), r.warnings.len(), r.pedantic_warnings.len())
}
fn errors<T: PrimaryTagStructDyn>(m: Mem, t: T) -> usize { judge(m, t, Scenario::default(), HUDGlobals::default()).0 }
/// A bitmap with `n` sequences of arbitrarily many bitmaps or so many sprites.
fn sequences(n: usize, kind: BitmapType) -> (Bitmap, Vec<(u16, usize)>) {
    let mut b = Bitmap { _type: kind, ..Default::default() };
    let mut v = Vec::new();
    for _ in 0..n {
        let (count, sprites) = (any::<u16>(), len(2));
        v.push((count, sprites));
        b.bitmap_group_sequence.items.push(BitmapGroupSequence { bitmap_count: count, sprites: refl(vec![Default::default(); sprites]), ..Default::default() });
    }
    (b, v)
}
/// Whether an element that may show anything can show this.
fn shows(v: &[(u16, usize)], i: Option<u16>) -> bool { match i { None => true, Some(i) => { let mut good = false; for k in 0..v.len() { if k == i as usize { good = v[k].1 > 0 || v[k].0 > 0 } } good } } }
fn index() -> Option<u16> { if bit() { Some(any()) } else { None } }
const KINDS: [BitmapType; 5] = [BitmapType::_2dTextures, BitmapType::_3dTextures, BitmapType::CubeMaps, BitmapType::Sprites, BitmapType::InterfaceBitmaps];
fn still(b: &TagPath, i: Option<u16>) -> HUDInterfaceStaticElement { HUDInterfaceStaticElement { interface_bitmap: set(b), sequence_index: i, ..Default::default() } }
fn meter(b: &TagPath, i: Option<u16>) -> HUDInterfaceMeterElement { HUDInterfaceMeterElement { meter_bitmap: set(b), sequence_index: i, ..Default::default() } }
const FORMATS: [BitmapDataFormat; 17] = { use BitmapDataFormat::*; [A8, Y8, AY8, A8Y8, R5G6B5, A1R5G5B5, A4R4G4B4, X8R8G8B8, A8R8G8B8, DXT1, DXT3, DXT5, P8, BC7, A8, Y8, AY8] };
harnesses! {
    /// The formats of bitmaps go with what the tag says.
    fn s_formats() {
        use {BitmapDataFormat as D, BitmapFormat as B};
        let encoding = [B::DXT1, B::DXT3, B::DXT5, B::_16Bit, B::_32Bit, B::Monochrome, B::BC7][len(6)];
        let usage = [BitmapUsage::AlphaBlend, BitmapUsage::Default, BitmapUsage::HeightMap, BitmapUsage::DetailMap, BitmapUsage::LightMap, BitmapUsage::VectorMap][len(5)];
        let kept = bit();
        let n = len(1) + 1;
        let mut b = Bitmap { encoding_format: encoding, usage, ..Default::default() };
        b.flags.disable_height_map_compression = kept;
        b.processed_pixel_data.bytes = vec![0; 16];
        if bit() { b.color_plate.compressed_data.bytes = vec![0] }
        let mut bad = 0;
        for i in 0..n {
            let f = if i == 0 { FORMATS[len(13)] } else { [D::P8, D::DXT1, D::A8R8G8B8][len(2)] };
            b.bitmap_data.items.push(BitmapData { width: 1, height: 1, depth: 1, format: f, ..Default::default() });
            let good = match f {
                D::P8 => !kept,
                _ if !kept && (usage == BitmapUsage::HeightMap || usage == BitmapUsage::VectorMap) => false,
                D::DXT1 => matches!(encoding, B::DXT1 | B::DXT3 | B::DXT5), D::DXT3 => encoding == B::DXT3, D::DXT5 => encoding == B::DXT5, D::BC7 => encoding == B::BC7,
                D::R5G6B5 | D::A1R5G5B5 | D::A4R4G4B4 => encoding == B::_16Bit, D::X8R8G8B8 | D::A8R8G8B8 => encoding == B::_32Bit,
                D::A8 | D::Y8 | D::AY8 | D::A8Y8 => encoding == B::Monochrome,
                _ => false
            };
            if !good { bad += 1 }
        }
        // and one remark on what to do
        check!(errors(Mem::default(), b) == if bad > 0 { bad + 1 } else { 0 });
    }
    /// Pixels are where the tag says.
    fn s_pixels() {
        let (w, h, m) = (len(6), len(3), len(4));
        let (f, side, size, e) = [(BitmapDataFormat::A8R8G8B8, 1, 4, BitmapFormat::_32Bit), (BitmapDataFormat::R5G6B5, 1, 2, BitmapFormat::_16Bit), (BitmapDataFormat::DXT1, 4, 8, BitmapFormat::DXT1), (BitmapDataFormat::Y8, 1, 1, BitmapFormat::Monochrome)][len(3)];
        let cube = bit();
        let offset: u32 = any();
        let mut b = Bitmap { encoding_format: e, ..Default::default() };
        let have = 40;
        b.processed_pixel_data.bytes = vec![0; have];
        b.bitmap_data.items.push(BitmapData { width: w as u16, height: h as u16, depth: 1, mipmap_count: m as u16, format: f, _type: if cube { BitmapDataType::CubeMap } else { BitmapDataType::_2dTexture }, pixel_data_offset: offset, ..Default::default() });
        let good = if w == 0 || h == 0 { false } else {
            let (mut x, mut y, mut total) = (w, h, 0u64);
            for i in 0..=m { total += (((x + side - 1) / side) * ((y + side - 1) / side) * size * if cube { 6 } else { 1 }) as u64; if x == 1 && y == 1 { break } let _ = i; x = (x / 2).max(1); y = (y / 2).max(1) }
            offset as u64 + total <= have as u64
        };
        check!(errors(Mem::default(), b) == !good as usize);
    }
    /// Elements of HUDs show what is there.
    fn s_hud() {
        let n = len(2);
        let (b, v) = sequences(n, KINDS[len(4)]);
        let mut m = Mem::default();
        let b = m.add("b", b);
        let i = index();
        let bad = !shows(&v, i) as usize;
        let got = match len(21) {
            0 => errors(m, GrenadeHUDInterface { background: still(&b, i), ..Default::default() }),
            1 => errors(m, GrenadeHUDInterface { total_grenades_background: still(&b, i), ..Default::default() }),
            2 => { let mut t = GrenadeHUDInterface::default(); t.total_grenades_overlays.bitmap = set(&b); t.total_grenades_overlays.overlays = refl(vec![Default::default(), GrenadeHUDInterfaceOverlay { sequence_index: i, ..Default::default() }]); errors(m, t) }
            k if k < 13 => {
                let mut t = UnitHUDInterface::default();
                match k {
                    3 => t.hud_background = still(&b, i), 4 => t.shield_panel_background = still(&b, i), 5 => t.health_panel_background = still(&b, i),
                    6 => t.shield_panel_meter.hudinterface_meter_element = meter(&b, i), 7 => t.health_panel_meter.hudinterface_meter_element = meter(&b, i),
                    8 => t.motion_sensor_background = still(&b, i), 9 => t.motion_sensor_foreground = still(&b, i),
                    10 => t.auxiliary_elements.overlays = refl(vec![Default::default(), UnitHUDInterfaceAuxiliaryOverlay { properties: still(&b, i), ..Default::default() }]),
                    11 => t.auxiliary_elements.meters = refl(vec![UnitHUDInterfaceAuxiliaryPanel { background: still(&b, i), ..Default::default() }]),
                    _ => t.auxiliary_elements.meters = refl(vec![UnitHUDInterfaceAuxiliaryPanel { meter: meter(&b, i), ..Default::default() }])
                }
                errors(m, t)
            }
            k => {
                let mut t = WeaponHUDInterface::default();
                match k {
                    13 => t.static_elements = refl(vec![Default::default(), WeaponHUDInterfaceStaticElement { properties: still(&b, i), ..Default::default() }]),
                    14 => t.meter_elements = refl(vec![Default::default(), WeaponHUDInterfaceMeter { properties: meter(&b, i), ..Default::default() }]),
                    15 | 16 => t.crosshairs = refl(vec![WeaponHUDInterfaceCrosshair { crosshair_bitmap: set(&b), crosshair_overlays: refl(if k == 15 { vec![WeaponHUDInterfaceCrosshairOverlay { sequence_index: i, ..Default::default() }] } else { vec![WeaponHUDInterfaceCrosshairOverlay { sequence_index: None, ..Default::default() }, WeaponHUDInterfaceCrosshairOverlay { sequence_index: i, ..Default::default() }] }), ..Default::default() }]),
                    17 | 18 => t.overlay_elements = refl(vec![WeaponHUDInterfaceOverlayElement { overlay_bitmap: set(&b), overlays: refl(if k == 17 { vec![WeaponHUDInterfaceOverlay { sequence_index: i, ..Default::default() }] } else { vec![WeaponHUDInterfaceOverlay { sequence_index: None, ..Default::default() }, WeaponHUDInterfaceOverlay { sequence_index: i, ..Default::default() }] }), ..Default::default() }]),
                    // Nothing to show it in
                    19 => { t.static_elements = refl(vec![WeaponHUDInterfaceStaticElement { properties: HUDInterfaceStaticElement { sequence_index: i, ..Default::default() }, ..Default::default() }]); check!(errors(m, t) == 0); return }
                    20 => { t.crosshairs = refl(vec![WeaponHUDInterfaceCrosshair { crosshair_overlays: refl(vec![WeaponHUDInterfaceCrosshairOverlay { sequence_index: i, ..Default::default() }]), ..Default::default() }]); check!(errors(m, t) == 0); return }
                    // A bitmap that is not there
                    _ => { t.meter_elements = refl(vec![WeaponHUDInterfaceMeter { properties: meter(&ok(TagPath::new("c", TagGroup::Bitmap)).unwrap(), i), ..Default::default() }]); check!(errors(m, t) > 0); return }
                }
                errors(m, t)
            }
        };
        check!(got == bad);
    }
    /// HUDs of weapons with others below them, which may not come back.
    fn s_hud_chain() {
        let mut m = Mem::default();
        let hud = |c: Option<&str>| WeaponHUDInterface { child_hud: match c { Some(c) => TagReference::Set(ok(TagPath::new(c, TagGroup::WeaponHUDInterface)).unwrap()), None => TagReference::Null(TagGroup::WeaponHUDInterface) }, ..Default::default() };
        let n = len(2);
        let (end, missing) = (bit(), bit());
        let names = ["t", "u", "v", "w"];
        for i in 1..=n { m.add(names[i], hud(if i < n { Some(names[i + 1]) } else if missing { Some("x") } else { None })); }
        let got = errors(m, hud(if n > 0 { Some("u") } else if end { Some("t") } else { None }));
        check!((got > 0) == if n > 0 { missing } else { end });
    }
    /// Zooming weapons need as many pictures as they have levels.
    fn s_zoom() {
        let n = len(2);
        let (b, v) = sequences(n, KINDS[len(4)]);
        let kind = b._type;
        let mut m = Mem::default();
        let b = m.add("b", b);
        let (i, levels, flat, zoom) = (index(), any::<u16>(), bit(), bit());
        let mut o = WeaponHUDInterfaceCrosshairOverlay { sequence_index: i, ..Default::default() };
        o.flags.not_a_sprite = flat;
        let mut all = Vec::new();
        // other crosshairs do not matter
        match len(2) { 0 => (), 1 => all.push(WeaponHUDInterfaceCrosshair { crosshair_type: WeaponHUDInterfaceCrosshairType::ZoomOverlay, ..Default::default() }), _ => all.push(WeaponHUDInterfaceCrosshair { crosshair_type: WeaponHUDInterfaceCrosshairType::Charge, ..Default::default() }) }
        all.push(WeaponHUDInterfaceCrosshair { crosshair_type: if zoom { WeaponHUDInterfaceCrosshairType::ZoomOverlay } else { WeaponHUDInterfaceCrosshairType::Charge }, crosshair_bitmap: set(&b), crosshair_overlays: refl(vec![o]), ..Default::default() });
        let hud = WeaponHUDInterface { crosshairs: refl(all), ..Default::default() };
        let hud = m.add("h", hud);
        let w = Weapon { zoom_levels: levels, hud_interface: set(&hud), ..Default::default() };
        // otherwise the HUD itself is wrong, which is another error
        let whole = shows(&v, i);
        let mut good = kind == if flat { BitmapType::_2dTextures } else { BitmapType::Sprites };
        if let Some(i) = i { let mut enough = false; for k in 0..n { if k == i as usize { enough = if flat { v[k].0 >= levels } else { v[k].1 >= levels as usize } } } good = good & enough }
        check!((errors(m, w) > 0) == (levels > 0 && if whole { zoom && !good } else { true }));
    }
    fn s_particle_system() {
        let n = len(3);
        let (b, v) = sequences(n, KINDS[len(4)]);
        let kind = b._type;
        let mut m = Mem::default();
        let b = m.add("b", b);
        let i = index();
        assume(i != Some(0xFFFF));
        let turning = bit();
        let there = bit();
        let mut p = ParticleSystemType { complex_sprite_render_modes: if turning { ParticleSystemComplexSpriteRenderMode::Rotational } else { ParticleSystemComplexSpriteRenderMode::Simple }, ..Default::default() };
        p.particle_states = refl(vec![ParticleSystemTypeParticleState { sequence_index: i, bitmaps: if there { set(&b) } else { TagReference::Null(TagGroup::Bitmap) }, ..Default::default() }]);
        let mut t = ParticleSystem::default();
        if bit() { t.particle_types.items.push(Default::default()) }
        t.particle_types.items.push(p);
        let good = |i: usize| { let mut g = false; for k in 0..n { if k == i { g = v[k].1 > 0 } } g && kind == BitmapType::Sprites };
        let want = match i { Some(i) if there => good(i as usize) && (!turning || good(i as usize + 1)), _ => true };
        check!((errors(m, t) == 0) == want);
    }
    fn s_effect() {
        let part = |k: usize| EffectPart { _type: match k { 0 => TagReference::Null(TagGroup::DamageEffect), 1 => TagReference::Null(TagGroup::Decal), 2 => TagReference::Set(ok(TagPath::new("x", TagGroup::DamageEffect)).unwrap()), _ => TagReference::Set(ok(TagPath::new("x", TagGroup::Light)).unwrap()) }, ..Default::default() };
        let particle = |k: usize| EffectParticle { particle_type: if k == 0 { TagReference::Null(TagGroup::Particle) } else { TagReference::Set(ok(TagPath::new("x", TagGroup::Particle)).unwrap()) }, ..Default::default() };
        let (mut error, mut remark) = (0, 0);
        let mut t = Effect::default();
        for _ in 0..len(2) {
            let mut e = EffectEvent::default();
            for _ in 0..len(2) { let k = len(3); if k == 0 { error += 1 } if k == 1 { remark += 1 } e.parts.items.push(part(k)) }
            for _ in 0..len(1) { let k = len(1); if k == 0 { remark += 1 } e.particles.items.push(particle(k)) }
            t.events.items.push(e);
        }
        let (e, _, p) = judge(Mem::default(), t, Scenario::default(), HUDGlobals::default());
        check!(e == error && p == remark);
    }
    fn s_globals() {
        let kinds = [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface];
        let k = len(2);
        let mut s = Scenario { _type: kinds[k], ..Default::default() };
        s.source_files.items.clear();
        let (weapons, materials) = (13 + len(5), 30 + len(3));
        let (info, falling, sounds, nades) = (bit(), bit(), 42 + len(1), len(3));
        let mut t = Globals::default();
        t.weapon_list = refl(vec![Default::default(); weapons]);
        t.materials = refl(vec![Default::default(); materials]);
        if falling { t.falling_damage.items.push(Default::default()) }
        if info { t.multiplayer_information.items.push(GlobalsMultiplayerInformation { sounds: refl(vec![Default::default(); sounds]), ..Default::default() }) }
        let (mut most, mut spawn) = (0u16, 0u16);
        for i in 0..nades { let mut g = GlobalsGrenade::default(); if i == nades - 1 { most = any(); spawn = any(); g.maximum_count = most; g.mp_spawn_default = spawn } t.grenades.items.push(g) }
        let (e, w, _) = judge(Mem::default(), t, s, HUDGlobals::default());
        let mut want = 0;
        if k == 1 { want += !info as usize + (weapons < 16) as usize + (most > 7) as usize + (spawn > 7) as usize + (nades > 2) as usize }
        if k != 2 { want += !falling as usize + (materials < 32) as usize }
        check!(e == want);
        check!(w == (k == 1 && info && sounds < 43) as usize);
    }
    /// Texts of objects, and the animations that go with their models.
    fn s_objects() {
        let mut m = Mem::default();
        let n = len(2);
        let texts = m.add("i", UnicodeStringList { strings: refl(vec![UnicodeStringListString { string: UTF16String::from_str("a"), ..Default::default() }; n]), ..Default::default() });
        let mut h = HUDGlobals::default();
        let listed = bit();
        if listed { h.messaging_parameters.item_message_text = set(&texts) }
        let mut o = Object::default();
        let i: u16 = any();
        o.hud_text_message_index = i;
        let mut want = (listed && i as usize >= n) as usize;
        let (x, y): (i32, i32) = (any(), any());
        let (has, what) = (len(2), len(2));
        if has == 1 { o.model = set(&m.add("m", Model { node_list_checksum: x, ..Default::default() })) }
        if has == 2 { o.model = set(&m.add("m", GBXModel { node_list_checksum: x, ..Default::default() })) }
        if what > 0 {
            let a = |s| ModelAnimationsAnimation { node_list_checksum: s, ..Default::default() };
            o.animation_graph = set(&m.add("a", ModelAnimations { animations: refl(if what == 1 { vec![a(y)] } else { vec![a(0), a(x), a(y)] }), ..Default::default() }));
            if has == 0 { want += 1 } else { want += (x != 0 && y != 0 && x != y) as usize }
        }
        let collides = bit();
        if collides { o.collision_model = TagReference::Set(ok(TagPath::new("c", TagGroup::ModelCollisionGeometry)).unwrap()); want += (has == 0) as usize }
        let s = Scenario::default();
        let got = match len(7) {
            0 => judge(m, Object { ..o }, s, h),
            1 => judge(m, Biped { unit: Unit { object: o, ..Default::default() }, ..Default::default() }, s, h),
            2 => judge(m, Vehicle { unit: Unit { object: o, ..Default::default() }, ..Default::default() }, s, h),
            3 => judge(m, Equipment { item: Item { object: o, ..Default::default() }, ..Default::default() }, s, h),
            4 => judge(m, Weapon { item: Item { object: o, ..Default::default() }, ..Default::default() }, s, h),
            5 => judge(m, Projectile { object: o, ..Default::default() }, s, h),
            6 => judge(m, DeviceMachine { device: Device { object: o, ..Default::default() }, ..Default::default() }, s, h),
            _ => judge(m, Scenery { basic_object: BasicObject { object: o, ..Default::default() }, ..Default::default() }, s, h)
        };
        check!(got.0 == want);
    }
    fn s_hud_globals() {
        let mut m = Mem::default();
        let n = len(2);
        let texts = m.add("i", UnicodeStringList { strings: refl(vec![UnicodeStringListString { string: UTF16String::from_str("a"), ..Default::default() }; n]), ..Default::default() });
        let mut t = HUDGlobals::default();
        let listed = bit();
        if listed { t.messaging_parameters.item_message_text = set(&texts) }
        let i = [index(), index(), index(), index()];
        let c = &mut t.more_hud_crap;
        (c.checkpoint_begin_text, c.checkpoint_end_text, c.loading_begin_text, c.loading_end_text) = (i[0], i[1], i[2], i[3]);
        let mut want = 0;
        for i in i { want += (listed && i.is_some_and(|i| i as usize >= n)) as usize }
        check!(errors(m, t) == want);
    }
    fn s_others() {
        // Sizes of particles at which they fade: one is replaced when the other is missing
        let mut p = Particle::default();
        let (x, y): (f64, f64) = (any(), any());
        assume(!x.is_nan() && !y.is_nan());
        (p.fade_start_size, p.fade_end_size) = (x, y);
        let (e, w, _) = judge(Mem::default(), p, Scenario::default(), HUDGlobals::default());
        check!(e == 0);
        check!(w == ((x == 0.0 && y != 0.0 && y != 4.0) || (y == 0.0 && x != 0.0 && x != 5.0)) as usize);
        // Scripts need their sources
        let mut s = Scenario::default();
        let (a, b, c) = (bit(), bit(), bit());
        if a { s.source_files.items.push(Default::default()) }
        if b { s.scripts.items.push(Default::default()) }
        if c { s.globals.items.push(Default::default()) }
        check!(errors(Mem::default(), s) == (!a && (b || c)) as usize);
    }
    /// Texts are UTF-16 and end with null.
    fn s_texts() {
        use ringhopper::primitives::parse::TagData;
        let w: u16 = any();
        let mut b = w.to_le_bytes().to_vec();
        let end = len(2);
        b.extend_from_slice(&[0, 0][..end]);
        let good = (end == 2 && w != 0x7F && (w >= 0x20 || w == 9) && !(w >= 0xD800 && w < 0xE000)) || (end == 0 && w == 0);
        let mut d = vec![0u8; 20];
        d[3] = b.len() as u8;
        d.extend_from_slice(&b);
        let s = ok(UTF16String::read_from_tag_file(&d, 0, 20, &mut 20)).unwrap();
        let t = UnicodeStringList { strings: refl(vec![UnicodeStringListString { string: UTF16String::from_str("a"), ..Default::default() }, UnicodeStringListString { string: s, ..Default::default() }]), ..Default::default() };
        check!((errors(Mem::default(), t) == 0) == good);
    }
}
kani_harnesses! {}
