// P30: a sound is playable exactly when all of its parts agree, and repairing makes them agree.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/tree.rs"] pub mod tree;
use nd::*;
use tree::*;
use ringhopper::{definitions::*, tag::{bludgeon::*, sound::*, verify::sound_is_playable}, primitives::{primitive::*, tag::*}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
const FORMATS: [SoundFormat; 3] = [SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM];
fn channels(s: &Sound) -> usize { if s.channel_count == SoundChannelCount::Mono { 1 } else { 2 } }
fn permutations(s: &Sound) -> impl Iterator<Item = &SoundPermutation> { s.pitch_ranges.items.iter().flat_map(|r| r.permutations.items.iter()) }
/// The permutation that goes on where this one ends.
fn next(p: &SoundPermutation) -> Option<usize> { p.next_permutation_index.filter(|n| *n != 0).map(|n| n as usize) }
fn pieces(s: &Sound) -> bool { s.flags.split_long_sound_into_permutations || permutations(s).any(|p| next(p).is_some()) }
/// Every whole multiple of what one moment of all channels takes.
fn blocks(s: &Sound) -> bool {
    permutations(s).all(|p| { let n = p.samples.bytes.len(); match p.format { SoundFormat::PCM => n % (2 * channels(s)) == 0, SoundFormat::XboxADPCM => n % (36 * channels(s)) == 0, _ => true } })
}
fn buffer(p: &SoundPermutation) -> u32 { if p.format == SoundFormat::PCM { p.samples.bytes.len() as u32 } else { 0 } }
/// How many permutations are the start of something.
fn starts(s: &Sound, r: &SoundPitchRange) -> usize {
    let mut n = r.permutations.items.len();
    if pieces(s) { for p in &r.permutations.items { if let Some(k) = next(p) { if k < n { n = k } } } }
    n
}
/// If every chain of pieces comes to an end, and which pieces are part of one.
fn chains(s: &Sound, r: &SoundPitchRange) -> Option<Vec<bool>> {
    let n = r.permutations.items.len();
    let mut used = vec![false; n];
    let mut good = true;
    if pieces(s) {
        for a in 0..starts(s, r) {
            let (mut at, mut steps) = (a, 0);
            loop {
                if at >= n || steps == n { good = false; break }
                used[at] = true;
                steps += 1;
                match next(&r.permutations.items[at]) { Some(k) => at = k, None => break }
            }
        }
    } else { used.fill(true) }
    if good { Some(used) } else { None }
}
fn playable(s: &Sound) -> bool {
    s.flags.split_long_sound_into_permutations == pieces(s) && blocks(s)
        && permutations(s).all(|p| p.next_permutation_index != Some(0) && p.format == s.format && p.buffer_size == buffer(p))
        && s.pitch_ranges.items.iter().all(|r| r.actual_permutation_count as usize == starts(s, r) && !r.permutations.items.is_empty() && chains(s, r).is_some())
}
/// A sound; with format and sizes of its samples, or with pieces and counts.
fn sound(samples: bool, most: usize) -> Sound {
    let mut s = Sound::default();
    if samples {
        s.channel_count = if bit() { SoundChannelCount::Stereo } else { SoundChannelCount::Mono };
        s.sample_rate = if s.channel_count == SoundChannelCount::Mono { SoundSampleRate::_44100Hz } else { SoundSampleRate::_22050Hz };
        s.format = FORMATS[len(2)];
    }
    if !samples { s.flags.split_long_sound_into_permutations = bit() }
    let ranges = if samples { 1 + len(1) } else { len(if most == 3 { bound(1, 2) } else { 1 }) };
    for k in 0..ranges {
        let n = if k == 1 { 1 } else if samples { 1 + len(1) } else { len(most) };
        let mut r = SoundPitchRange { actual_permutation_count: if samples { n as u16 } else { [n as u16, 0, 1][len(2)] }, ..Default::default() };
        for _ in 0..n {
            let mut p = SoundPermutation::default();
            if samples {
                p.format = FORMATS[if k == 1 { 0 } else { len(2) }];
                p.samples.bytes = vec![0; [72, 36, 3, 0, 2][len(bound(2, 4))]];
                p.buffer_size = any();
            }
            else { p.next_permutation_index = match len(5) { 0 => None, 5 => Some(0xFFFE), k => Some(k as u16 - 1) } }
            r.permutations.items.push(p);
        }
        s.pitch_ranges.items.push(r);
    }
    s
}
fn judge(mut s: Sound) {
    let good = playable(&s);
    cover!(0, good); cover!(1, !good);
    check!(sound_is_playable(&s) == good);
    let mixed = { let mut f = permutations(&s).map(|p| p.format); let a = f.next(); f.any(|x| Some(x) != a) };
    let broken = mixed || !blocks(&s);
    let mut want = s.clone();
    let path = ok(TagPath::new("a", TagGroup::Sound)).unwrap();
    check!(matches!(bludgeon_tag(&mut s, &path), BludgeonResult::Done) == !broken);
    if broken { check!(s == want); return }
    want.flags.split_long_sound_into_permutations = pieces(&want);
    for k in 0..want.pitch_ranges.items.len() {
        let n = starts(&want, &want.pitch_ranges.items[k]);
        let r = &mut want.pitch_ranges.items[k];
        r.actual_permutation_count = n as u16;
        for p in &mut r.permutations.items { p.buffer_size = buffer(p); if p.next_permutation_index == Some(0) { p.next_permutation_index = None } want.format = p.format }
    }
    check!(s == want);
    let hopeless = s.pitch_ranges.items.iter().any(|r| r.permutations.items.is_empty() || chains(&s, r).is_none());
    check!(sound_is_playable(&s) == !hopeless);
}
harnesses! {
    /// Formats, sizes and buffers of samples.
    fn s_samples() { judge(sound(true, 0)) }
    /// Pieces of long sounds.
    fn s_pieces() { judge(sound(false, 3)) }
    /// Verification says the same, and warns of pieces that are never played and of pitches out of their bounds.
    fn s_verify() {
        let mut s = sound(false, 2);
        let mut warnings = 0;
        for r in &mut s.pitch_ranges.items {
            let v = [0.0f64, -1.0, 0.5, 1.0, 2.0];
            let n = bound(2, 4);
            (r.natural_pitch, r.bend_bounds.lower, r.bend_bounds.upper) = (v[len(1) * 2], v[2 + len(n.min(2))], v[len(n)]);
            let p = if r.natural_pitch > 0.0 { r.natural_pitch } else { 1.0 };
            if (r.bend_bounds.lower != 0.0 && r.bend_bounds.lower > p) || (r.bend_bounds.upper != 0.0 && r.bend_bounds.upper < p) { warnings += 1 }
        }
        let good = playable(&s);
        let loops = s.pitch_ranges.items.iter().any(|r| chains(&s, r).is_none());
        for r in &s.pitch_ranges.items { if let Some(u) = chains(&s, r) { if u.iter().any(|u| !u) { warnings += 1 } } }
        let mut m = Mem::default();
        let p = m.add("a", s);
        let r = verify(m, Scenario::default(), HUDGlobals::default(), &p);
        let Some((e, w)) = counts(&r, &p) else { check!(good && warnings == 0); return };
        check!((e == 0) == good);
        if !loops { check!(w == warnings) }
    }
    /// Numbers of channels and sample rates.
    fn s_numbers() {
        let n: u32 = any();
        let c = channel_count_from_u32(n);
        check!(c.is_some() == (n == 1 || n == 2));
        if let Some(c) = c { check!(channel_count_to_u32(c) == n) }
        let r = sample_rate_from_u32(n);
        check!(r.is_some() == (n == 22050 || n == 44100));
        if let Some(r) = r { check!(sample_rate_to_u32(r) == n) }
    }
}
kani_harnesses! {}
