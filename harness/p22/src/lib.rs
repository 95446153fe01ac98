// P22: nudging rounds to six significant digits and changes nothing else.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, tag::nudge::{*, verif::*}, primitives::{tag::PrimaryTagStructDyn, primitive::{Reflexive, TagGroup}}};

/// A decimal number, `n` digits of it arbitrary, the dot after `dot` digits (no dot if that is all of them).
fn number(n: usize, dot: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..n {
        if i == dot { v.push(b'.') }
        let c: u8 = any();
        assume(c >= b'0' && c <= b'9');
        v.push(c);
    }
    if dot > 1 { assume(v[0] != b'0') }
    v
}
/// The digits as one number (the dot left out) and how many digits are after the dot.
fn value(v: &[u8]) -> (u64, usize) {
    let (mut x, mut places, mut dot) = (0u64, 0, false);
    for c in v { if *c == b'.' { dot = true } else { x = x * 10 + (*c - b'0') as u64; places += dot as usize } }
    (x, places)
}
/// Six significant digits, halves rounded up.
fn round(v: &[u8]) -> u64 {
    let d: Vec<u64> = v.iter().filter(|c| **c != b'.').map(|c| (*c - b'0') as u64).collect();
    let first = d.iter().position(|c| *c != 0).unwrap_or(d.len());
    let (mut x, mut rest) = (0u64, 1u64);
    for (i, c) in d.iter().enumerate() {
        if i < first + 6 { x = x * 10 + c } else { if i == first + 6 && *c >= 5 { x += 1 } rest *= 10 }
    }
    x * rest
}
fn go(n: usize, dot: usize) {
    let v = number(n, dot);
    let mut r = v.clone();
    round_to_significant_figures(&mut r);
    cover!(0, r == v);
    cover!(1, r != v);
    cover!(2, r.len() > v.len());
    for c in &r { check!(*c == b'.' || (*c >= b'0' && *c <= b'9')) }
    let ((_, p), (x, q)) = (value(&v), value(&r));
    check!(p == q && x == round(&v));
}
const SAMPLES: [(f64, f64); 8] = [(1.0000056, 1.00001), (9.9999996, 10.0), (0.0009999996, 0.001), (1.2345678, 1.23457), (99999996.0, 100000000.0), (123456.5, 123457.0), (1.75000035762786865234375, 1.75), (123.0, 123.0)];
/// A value, what becomes of it, and whether that differs.
fn pick(any_bad: &mut bool) -> (f64, f64) {
    let bad = split(any::<u8>() as usize & 1) == 1;
    *any_bad |= bad;
    if bad { (1.2345678, 1.23457) } else { (1.5, 1.5) }
}
fn nudged(tag: &mut dyn PrimaryTagStructDyn, bad: bool) {
    check!(is_nudgeable(tag.group()));
    check!(nudge_tag(tag) == bad);
    check!(!nudge_tag(tag));
}
const BAD: f64 = 1.2345678;
harnesses! {
    fn s_whole() { let n = 1 + len(bound(8, 12)); go(n, n) }
    fn s_fraction() { let n = 2 + len(bound(8, 9)); let dot = len(n - 1); assume(dot >= 1); go(n, dot) }
    fn s_small() { let n = bound(12, 15); let z = 1 + len(bound(4, 6)); let mut v = number(n, 1); for i in 0..z { let at = if i == 0 { 0 } else { i + 1 }; v[at] = b'0' } let mut r = v.clone(); round_to_significant_figures(&mut r); check!(value(&r).0 == round(&v) && value(&r).1 == n - 1) }
    /// Signs and numbers that need nothing.
    fn s_float() {
        real_fmt(true);
        let (a, b) = SAMPLES[len(7)];
        let s = if split(any::<u8>() as usize & 1) == 1 { -1.0 } else { 1.0 };
        check!(fix_decimal_rounding(a * s) == b * s);
        check!(fix_decimal_rounding(b * s) == b * s);
    }
    /// Only the values that extraction disturbs are rounded, and it is reported if any was.
    fn s_tags() {
        real_fmt(true);
        let mut bad = false;
        let b = &mut bad;
        match len(7) {
            0 => { let mut t = ActorVariant::default(); let (x, y) = pick(b); t.grenades.grenade_velocity = x; t.grenades.grenade_ranges.upper = BAD; nudged(&mut t, bad); check!(t.grenades.grenade_velocity == y && t.grenades.grenade_ranges.upper == BAD) }
            1 => { let mut t = ContinuousDamageEffect::default(); let (x, y) = pick(b); t.camera_shaking.wobble_period = x; t.camera_shaking.wobble_weight = BAD; nudged(&mut t, bad); check!(t.camera_shaking.wobble_period == y && t.camera_shaking.wobble_weight == BAD) }
            2 => { let mut t = DamageEffect::default(); let (x, y) = pick(b); t.camera_shaking.wobble_period = x; t.camera_shaking.wobble_weight = BAD; nudged(&mut t, bad); check!(t.camera_shaking.wobble_period == y && t.camera_shaking.wobble_weight == BAD) }
            3 => { let mut t = PointPhysics::default(); let ((x, y), (z, w)) = (pick(b), pick(b)); t.air_friction = x; t.water_friction = z; t.surface_friction = BAD; nudged(&mut t, bad); check!(t.air_friction == y && t.water_friction == w && t.surface_friction == BAD) }
            4 => {
                let mut t = Projectile::default();
                let p = [pick(b), pick(b), pick(b), pick(b), pick(b)];
                t.minimum_velocity = p[0].0; t.initial_velocity = p[1].0; t.final_velocity = p[2].0;
                t.material_response = Reflexive::new(vec![Default::default(), Default::default()]);
                t.material_response.items[1].potential_and.lower = p[3].0; t.material_response.items[1].potential_and.upper = p[4].0;
                nudged(&mut t, bad);
                check!(t.minimum_velocity == p[0].1 && t.initial_velocity == p[1].1 && t.final_velocity == p[2].1 && t.material_response.items[1].potential_and.lower == p[3].1 && t.material_response.items[1].potential_and.upper == p[4].1);
            }
            5 => {
                let mut t = Scenario::default();
                let p = [pick(b), pick(b), pick(b)];
                t.cutscene_titles = Reflexive::new(vec![Default::default(), Default::default()]);
                let c = &mut t.cutscene_titles.items[1];
                c.fade_in_time = p[0].0; c.fade_out_time = p[1].0; c.up_time = p[2].0;
                nudged(&mut t, bad);
                let c = &t.cutscene_titles.items[1];
                check!(c.fade_in_time == p[0].1 && c.fade_out_time == p[1].1 && c.up_time == p[2].1);
            }
            6 => { let mut t = Light::default(); let (x, y) = pick(b); t.effect_parameters.duration = x; t.shape.radius = BAD; nudged(&mut t, bad); check!(t.effect_parameters.duration == y && t.shape.radius == BAD) }
            _ => { let mut t = Sound::default(); let (x, y) = pick(b); t.maximum_bend_rate = x; t.distance_bounds.lower = BAD; nudged(&mut t, bad); check!(t.maximum_bend_rate == y && t.distance_bounds.lower == BAD) }
        }
    }
    /// Weights of colours are rounded; only even shares may become 1 each instead.
    fn s_weights() {
        real_fmt(true);
        let set = [(0.0, 0.0), (0.25, 0.25), (0.5, 0.5), (1.0, 1.0), (0.33333331, 0.333333), (0.3334, 0.3334), (1.2345678, 1.23457), (-0.5, -0.5)];
        let n = 1 + len(2);
        let w: Vec<(f64, f64)> = (0..n).map(|_| set[len(7)]).collect();
        let mut t = Scenery::default();
        let c = &mut t.basic_object.object.change_colors;
        c.items.push(Default::default());
        c.items.push(ObjectChangeColors { permutations: Reflexive::new(w.iter().map(|w| ObjectChangeColorsPermutation { weight: w.0, ..Default::default() }).collect()), ..Default::default() });
        let changed = nudge_tag(&mut t);
        let r = &t.basic_object.object.change_colors.items[1].permutations.items;
        check!(r.len() == n && t.basic_object.object.change_colors.items[0].permutations.items.is_empty());
        let even = w.iter().all(|w| (w.0 * n as f64 - 1.0).abs() <= 0.0011);
        let same = r.iter().zip(&w).all(|(r, w)| r.weight == w.1);
        check!(same || (even && r.iter().all(|r| r.weight == 1.0)));
        check!(changed || r.iter().zip(&w).all(|(r, w)| r.weight == w.0));
    }
    /// Other tags are left alone.
    fn s_other() {
        let mut t = Bitmap { ..Default::default() };
        t.more_processing.blur_filter_size = BAD;
        check!(!is_nudgeable(TagGroup::Bitmap) && !nudge_tag(&mut t) && t.more_processing.blur_filter_size == BAD);
    }
}
kani_harnesses! {}
