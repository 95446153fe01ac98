// P25: animation data of a map becomes tag data: every number keeps its value, and data of the wrong size is refused.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, map::verif::fix_model_animations_tag, tag::model_animations::*, primitives::{primitive::*, parse::*}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
/// The sizes of the numbers that the flagged (or the other) nodes have, in order.
fn layout(nodes: usize, rotation: u64, transform: u64, scale: u64) -> Vec<usize> {
    let mut v = Vec::new();
    for n in 0..nodes {
        if rotation >> n & 1 == 1 { for _ in 0..4 { v.push(2) } }
        if transform >> n & 1 == 1 { for _ in 0..3 { v.push(4) } }
        if scale >> n & 1 == 1 { v.push(4) }
    }
    v
}
fn total(l: &[usize]) -> usize { l.iter().sum() }
fn twice(l: &[usize], n: usize) -> Vec<usize> { let mut v = Vec::new(); for _ in 0..n { v.extend_from_slice(l) } v }
/// Numbers for a layout, one byte arbitrary.
fn numbers(l: &[usize]) -> Vec<u8> {
    let mut v = Vec::new();
    for n in l { for i in 0..*n { v.push(if i + 1 == *n && *n == 4 { 0x40 } else { (v.len() * 7 + 1) as u8 }) } }
    v
}
/// One byte of the numbers arbitrary, but none not a number.
fn disturb(v: &mut [u8], l: &[usize]) {
    if v.is_empty() { return }
    let k = len(v.len() - 1);
    let b: u8 = any();
    let mut at = 0;
    for n in l { if k == at + *n - 1 && *n == 4 { assume(b & 0x7F != 0x7F) } at += n }
    v[k] = b;
}
fn swapped(v: &[u8], l: &[usize]) -> Vec<u8> {
    let mut o = v.to_vec();
    let mut at = 0;
    for n in l { for i in 0..*n { o[at + i] = v[at + *n - 1 - i] } at += n }
    o
}
fn animation(nodes: usize, frames: usize, r: u64, t: u64, s: u64) -> ModelAnimationsAnimation {
    let f = |x: u64| [x as u32, (x >> 32) as u32];
    ModelAnimationsAnimation { node_count: nodes as u16, frame_count: frames as u16, node_rotation_flag_data: f(r), node_transform_flag_data: f(t), node_scale_flag_data: f(s), ..Default::default() }
}
fn data(v: &[u8]) -> Data { Data { bytes: v.to_vec() } }
fn fix(a: ModelAnimationsAnimation) -> Option<ModelAnimationsAnimation> {
    let mut m = ModelAnimations { animations: Reflexive { items: vec![a] }, ..Default::default() };
    ok(fix_model_animations_tag(&mut m))?;
    m.animations.items.pop()
}
fn sizes(frames: u16, which: usize) {
    let (nodes, e) = [(1usize, 0), (2, 0), (64, 0), (65, 1), (65535, 1)][which];
    let (r, t, s) = (split(any::<u8>() as usize & 1) as u64, split(any::<u8>() as usize & 1) as u64, split(any::<u8>() as usize & 1) as u64);
    let kind = len(3);
    let n = if tier() == 0 { [0, 4, 8, 12, 20, 24, 25][len(6)] } else { len(60) };
    let m = total(&layout(nodes.min(64), !r, !t, !s)).saturating_sub([0, 1, 4][len(2)]);
    let o = [0, 8, 12, 16, 24][len(4)];
    let mut a = animation(nodes, 0, r, t, s);
    a.frame_count = frames;
    a.frame_info_type = [AnimationFrameInfoType::None, AnimationFrameInfoType::DxDy, AnimationFrameInfoType::DxDyDyaw, AnimationFrameInfoType::DxDyDzDyaw][kind];
    a.frame_data = data(&vec![0; n]); a.default_data = data(&vec![0; m]); a.frame_info = data(&vec![0; o]);
    let f = frames as usize;
    let good = e == 0 && n == f * (8 * r + 12 * t + 4 * s) as usize && m == total(&layout(nodes.min(64), !r, !t, !s)) && o == f * [0, 8, 12, 16][kind];
    cover!(0, good); cover!(1, !good);
    check!(fix(a).is_some() == good);
}
harnesses! {
    /// Few nodes, any of their data animated.
    fn s_frames() {
        let nodes = len(bound(2, 2));
        let frames = len(2);
        let (r, t, s) = (split(any::<u8>() as usize & 3) as u64, split(any::<u8>() as usize & 3) as u64, split(any::<u8>() as usize & 3) as u64);
        let (l, d) = (twice(&layout(nodes, r, t, s), frames), layout(nodes, !r, !t, !s));
        let (mut fd, mut dd) = (numbers(&l), numbers(&d));
        if bit() { disturb(&mut fd, &l) } else { disturb(&mut dd, &d) }
        let mut a = animation(nodes, frames, r, t, s);
        a.frame_data = data(&fd); a.default_data = data(&dd);
        check!(FrameDataIterator::for_animation(&a).to_size() * frames == total(&l) && FrameDataIterator::for_animation_inverted(&a).to_size() == total(&d));
        let Some(b) = fix(a) else { check!(false); return };
        check!(b.frame_data.bytes == swapped(&fd, &l) && b.default_data.bytes == swapped(&dd, &d) && b.frame_info.bytes.is_empty());
    }
    /// Any single node of up to 64 animated.
    fn s_many() {
        let nodes = [31, 32, 33, 63, 64][len(4)];
        let k = [0, 1, 31, 32, 33, 62, 63][len(6)];
        assume(k < nodes);
        let (r, t, s) = [(1u64 << k, 0, 0), (0, 1 << k, 0), (0, 0, 1 << k), (1 << k, 1, 1 << k)][len(3)];
        let (l, d) = (layout(nodes, r, t, s), layout(nodes, !r, !t, !s));
        let (mut fd, dd) = (numbers(&l), numbers(&d));
        disturb(&mut fd, &l);
        let mut a = animation(nodes, 1, r, t, s);
        a.frame_data = data(&fd); a.default_data = data(&dd);
        let Some(b) = fix(a) else { check!(false); return };
        check!(b.frame_data.bytes == swapped(&fd, &l) && b.default_data.bytes == swapped(&dd, &d));
    }
    /// How each frame moves.
    fn s_info() {
        let frames = len(bound(2, 4));
        let k = len(3);
        let l = vec![4; [0, 2, 3, 4][k] * frames];
        let mut v = numbers(&l);
        disturb(&mut v, &l);
        let mut a = animation(0, frames, 0, 0, 0);
        a.frame_info_type = [AnimationFrameInfoType::None, AnimationFrameInfoType::DxDy, AnimationFrameInfoType::DxDyDyaw, AnimationFrameInfoType::DxDyDzDyaw][k];
        a.frame_info = data(&v);
        let Some(b) = fix(a) else { check!(false); return };
        check!(b.frame_info.bytes == swapped(&v, &l));
    }
    /// Data that does not have the size the flags ask for is refused.
    fn s_sizes() {
        sizes([0, 1, 2, 3, 4, 6, 65535][len(6)], len(4))
    }
    /// Any number of frames.
    fn s_count() {
        let frames: u16 = any();
        let w = len(3);
        let mut a = animation(1, 0, 1, (w == 1) as u64, 1);
        a.frame_count = frames;
        let size = [12, 24, 12, 12][w];
        let n = size * len(3) + len(1);
        a.frame_data = data(&vec![0; n]); a.default_data = data(&vec![0; 24 - size]);
        let o = if w < 2 { 0 } else { 8 * len(3) };
        if w >= 2 { a.frame_info_type = [AnimationFrameInfoType::DxDy, AnimationFrameInfoType::DxDyDzDyaw][w - 2]; a.frame_info = data(&vec![0; o]) }
        let good = n == size * frames as usize && o == frames as usize * [0, 0, 8, 16][w];
        cover!(0, good); cover!(1, !good);
        check!(fix(a).is_some() == good);
    }
    /// Compressed data is kept after room for the uncompressed frames.
    fn s_compressed() {
        let nodes = 1 + len(1);
        let (r, t, s) = (split(any::<u8>() as usize & 3) as u64, split(any::<u8>() as usize & 3) as u64, split(any::<u8>() as usize & 3) as u64);
        let frames = len(2);
        let c = bytes(len(3));
        let mut a = animation(nodes, frames, r, t, s);
        a.flags.compressed_data = true;
        a.frame_data = data(&c);
        let at = total(&layout(nodes, r, t, s)) * frames;
        let Some(b) = fix(a) else { check!(false); return };
        check!(b.offset_to_compressed_data as usize == at && b.frame_data.bytes.len() == at + c.len() && b.frame_data.bytes[at..] == c[..]);
        check!(b.default_data.bytes == vec![0; total(&layout(nodes, !r, !t, !s))]);
    }
}
kani_harnesses! {}
