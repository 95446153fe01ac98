// P21: swizzling is a rearrangement that deswizzling undoes, in Morton order.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{tag::bitmap::*, primitives::primitive::ColorARGBInt};

/// The bits of x and y (and z) interleaved, x first; the larger side keeps its upper bits on top.
fn morton(x: usize, y: usize, z: usize, w: usize, h: usize, d: usize) -> usize {
    let (mut at, mut o) = (0, 0);
    for i in 0..16 {
        for (v, n) in [(x, w), (y, h), (z, d)] { if 1 << i < n { at |= (v >> i & 1) << o; o += 1 } }
    }
    at
}
fn go<S: Swizzlable + PartialEq>(w: usize, h: usize, d: usize, data: Vec<S>) {
    let mut a = vec![S::default(); data.len()];
    check!(ok(swizzle(&data, &mut a, w, h, d, false)).is_some());
    for z in 0..d { for y in 0..h { for x in 0..w { check!(a[morton(x, y, z, w, h, d)] == data[x + y * w + z * w * h]) } } }
    let mut b = vec![S::default(); data.len()];
    check!(ok(swizzle(&a, &mut b, w, h, d, true)).is_some());
    check!(b == data);
}
fn pixels(n: usize) -> Vec<u8> { (0..n).map(|_| any()).collect() }
harnesses! {
    fn s_2d() { let n = bound(3, 5); let (w, h) = (1 << len(n), 1 << len(n)); go(w, h, 1, pixels(w * h)) }
    fn s_3d() { let l = 1 << len(bound(2, 3)); go(l, l, l, pixels(l * l * l)) }
    fn s_16() { let (w, h) = (1 << len(2), 1 << len(2)); go::<u16>(w, h, 1, (0..w * h).map(|_| any()).collect()) }
    fn s_32() { let (w, h) = (1 << len(2), 1 << len(2)); go::<ColorARGBInt>(w, h, 1, (0..w * h).map(|_| ColorARGBInt { color: any() }).collect()) }
    /// Sizes that cannot be swizzled are an error.
    fn s_sizes() {
        let (w, h, d) = (len(9), len(9), len(9));
        let n = w * h * d;
        let data = vec![1u8; n];
        let mut out = vec![0u8; n];
        let r = ok(swizzle(&data, &mut out, w, h, d, split(any::<u8>() as usize & 1) == 1)).is_some();
        let p = |n: usize| n == 1 || n == 2 || n == 4 || n == 8;
        check!(r == (p(w) && p(h) && p(d) && (d == 1 || (w == h && h == d))));
        check!(out == vec![r as u8; n]);
    }
}
kani_harnesses! {}
