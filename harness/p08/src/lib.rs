// P08: the checksum is CRC-32 (polynomial 0x04C11DB7 reflected, initial value all ones, result not inverted), can be computed in pieces, and
// notices every change of a single byte.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::crc32::CRC32;

fn reference(mut c: u32, b: u8) -> u32 {
    c ^= b as u32;
    for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 } }
    c
}
fn from(c: u32, d: &[u8]) -> u32 { let mut x = CRC32::init(c); x.update(d); x.crc() }
harnesses! {
    /// One byte, from every state.
    fn s_step() { let (c, b): (u32, u8) = (any(), any()); check!(from(c, &[b]) == reference(c, b)) }
    /// Every way to cut the data gives the same result: with s_step this covers data of every length.
    fn s_pieces() {
        let c: u32 = any();
        let n = len(bound(6, 9));
        let d = bytes(n);
        let k = split({ let k: u8 = any(); assume(k as usize <= n); k as usize });
        let mut x = CRC32::init(c);
        x.update(&d[..k]);
        x.update(&d[k..]);
        let mut y = CRC32::init(c);
        for i in 0..n { y.update(&d[i..i + 1]) }
        check!(from(c, &d) == x.crc());
        check!(x.crc() == y.crc());
    }
    fn s_start() {
        check!(CRC32::new().crc() == u32::MAX);
        let d = bytes(len(bound(1, 2)));
        let mut x = CRC32::new();
        x.update(&d);
        let mut r = u32::MAX;
        for b in &d { r = reference(r, *b) }
        check!(x.crc() == r);
    }
    /// Known answers.
    fn s_known() { check!(from(u32::MAX, b"123456789") == !0xCBF4_3926); check!(from(u32::MAX, b"") == u32::MAX); check!(from(u32::MAX, &[0; 32]) == !0x190A_55AD) }
}
kani_harnesses! {
    /// A single byte error is noticed: different bytes give different states, and different states stay different.
    fn k_detects() {
        let (c, d, x, y): (u32, u32, u8, u8) = (any(), any(), any(), any());
        if x != y { check!(from(c, &[x]) != from(c, &[y])) }
        if c != d { check!(from(c, &[x]) != from(d, &[x])) }
    }
}
