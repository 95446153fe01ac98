// P12: colours.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;

fn ch() -> f64 { any::<u8>() as f64 / 255.0 }
fn other() -> f64 { [0.0, 0.25, 0.5, 0.75, 1.0, -3.0, 7.0][split({ let i: u8 = any(); assume(i < 7); i as usize })] }
harnesses! {
    fn s_packing() {
        let v: u32 = any();
        let b = ColorARGBIntBytes::from(v);
        check!(b.alpha == (v >> 24) as u8 && b.red == (v >> 16) as u8 && b.green == (v >> 8) as u8 && b.blue == v as u8);
        check!(u32::from(b) == v && u32::from(ColorARGBInt::from(b)) == v && u32::from(ColorARGBInt::from(v)) == v);
        check!(ColorARGBIntBytes::from(ColorARGBInt::from(v)) == b);
        let y: u8 = any();
        check!(ColorARGBInt::from_y8(y).color == 0xFF000000 | y as u32 * 0x10101);
        let a: u16 = any();
        check!(ColorARGBInt::from_a8y8(a).color == (a as u32 >> 8) << 24 | (a as u32 & 0xFF) * 0x10101);
    }
    fn s_luma() {
        let y: u8 = any();
        let c = ColorARGBInt::from_y8(y);
        check!(c.luma() == y as f64 / 255.0);
        // green counts most, blue least
        let (r, g, b) = (ColorARGBInt { color: (y as u32) << 16 }, ColorARGBInt { color: (y as u32) << 8 }, ColorARGBInt { color: y as u32 });
        check!(y == 0 || (g.luma() > r.luma() && r.luma() > b.luma() && b.luma() > 0.0));
        let f = y as f64 / 255.0;
        check!((r.luma() + g.luma() + b.luma() - f).abs() < 1e-9);
        check!((r.luma() - 0.2126 * f).abs() < 1e-9 && (g.luma() - 0.7152 * f).abs() < 1e-9);
    }
    fn s_gamma() {
        let v = ch();
        let c = ColorARGBFloat { alpha: 0.25, red: v, green: 0.0, blue: 1.0 };
        let z = c.gamma_compress();
        check!(z.alpha == 0.25 && z.green == 0.0 && z.blue == 1.0);
        check!(z.red >= v && z.red <= 1.0);
        check!((z.red * z.red - v).abs() < 1e-12);
        let d = z.gamma_decompress();
        check!(d.alpha == 0.25 && (d.red - v).abs() < 1e-12 && d.green == 0.0 && d.blue == 1.0);
    }
    /// Half transparency: alpha and colour are weighted by the source's alpha, in every channel alike.
    fn s_blend() {
        let (v, a, b) = (ch(), [0.0, 0.25, 1.0][split({ let i: u8 = any(); assume(i < 3); i as usize })], [0.0, 0.5, 1.0][split({ let i: u8 = any(); assume(i < 3); i as usize })]);
        let (x, y) = (ColorARGBFloat { alpha: a, red: v, green: 0.5, blue: 0.0 }, ColorARGBFloat { alpha: b, red: 0.25, green: v, blue: 1.0 });
        let r = x.alpha_blend(&y);
        let k = a * (1.0 - b);
        let near = |p: f64, q: f64| (p - q).abs() < 1e-12;
        check!(near(r.alpha, b + k) && near(r.red, 0.25 * b + v * k) && near(r.green, v * b + 0.5 * k) && near(r.blue, b));
        check!(r.alpha >= 0.0 && r.alpha <= 1.0);
    }
    /// Vector maps: the result lies on the sphere of radius 0.5 about the middle, in the direction of the colour.
    fn s_vector_normalize() {
        let (a, b, c) = (ch(), other(), other());
        let (r, g, bl) = match split({ let i: u8 = any(); assume(i < 3); i as usize }) { 0 => (a, b, c), 1 => (b, a, c), _ => (b, c, a) };
        let n = ColorARGBFloat { alpha: 0.75, red: r, green: g, blue: bl }.vector_normalize();
        check!(n.alpha == 0.75);
        let (x, y, z) = (n.red - 0.5, n.green - 0.5, n.blue - 0.5);
        check!((x * x + y * y + z * z - 0.25).abs() < 1e-9);
        let d = |v: f64| v.clamp(0.0, 1.0) - 0.5;
        let len = d(r) * d(r) + d(g) * d(g) + d(bl) * d(bl);
        let dot = x * d(r) + y * d(g) + z * d(bl);
        check!(dot >= 0.0 && (len == 0.0 || (dot * dot - len * 0.25).abs() < 1e-9));
        check!(len != 0.0 || z > 0.0);
    }
    fn s_vector_normalize_bytes() {
        let v: u8 = any();
        let c = [0u8, 64, 127, 128, 255][split({ let i: u8 = any(); assume(i < 5); i as usize })];
        let n = ColorARGBIntBytes { alpha: c, red: v, green: c, blue: 128 }.vector_normalize();
        check!(n.alpha == c);
        let d = |v: u8| v as f64 / 255.0 - 0.5;
        let m = d(n.red) * d(n.red) + d(n.green) * d(n.green) + d(n.blue) * d(n.blue);
        check!((m - 0.25).abs() < 0.01);
    }
}
kani_harnesses! {
    fn k_round_trip() {
        let v: u32 = any();
        let c = ColorARGBInt { color: v };
        let f = ColorARGBFloat { alpha: c.alpha_float(), red: c.rgb_float().red, green: c.rgb_float().green, blue: c.rgb_float().blue };
        check!(ColorARGBInt::from_argb_float(&f) == c);
        check!(f.alpha >= 0.0 && f.alpha <= 1.0 && f.red >= 0.0 && f.red <= 1.0);
        check!(c.clamp() == c);
    }
    fn kt_from_float() {
        let [a, r, g, b]: [f64; 4] = any();
        let c = ColorARGBIntBytes::from_argb_float(&ColorARGBFloat { alpha: a, red: r, green: g, blue: b });
        // each channel is 255 times the value, cut to 0..=255 and rounded down
        let ok = |v: f64, c: u8| if v >= 1.0 { c == 255 } else if v > 0.0 { (c as f64) <= v * 255.0 && v * 255.0 < c as f64 + 1.0 } else { c == 0 };
        check!(ok(a, c.alpha) && ok(r, c.red) && ok(g, c.green) && ok(b, c.blue));
    }
    fn k_from_float_channel() {
        let v: f64 = any();
        let c = ColorARGBIntBytes::from_argb_float(&ColorARGBFloat { alpha: 1.0, red: 0.0, green: v, blue: 0.5 });
        let ok = |v: f64, c: u8| if v >= 1.0 { c == 255 } else if v > 0.0 { (c as f64) <= v * 255.0 && v * 255.0 < c as f64 + 1.0 } else { c == 0 };
        check!(c.alpha == 255 && c.red == 0 && ok(v, c.green) && c.blue == 127);
    }
    fn k_clamp() {
        let [a, r, g, b]: [f64; 4] = any();
        let f = ColorARGBFloat { alpha: a, red: r, green: g, blue: b };
        let c = f.clamp();
        let ok = |v: f64, c: f64| if v.is_nan() { c.is_nan() } else { c >= 0.0 && c <= 1.0 && (c == v || (v < 0.0 && c == 0.0) || (v > 1.0 && c == 1.0)) };
        check!(ok(a, c.alpha) && ok(r, c.red) && ok(g, c.green) && ok(b, c.blue));
        let c = c.rgb_float();
        let d = f.rgb_float().clamp();
        check!(ok(c.red, d.red) && ok(c.green, d.green) && ok(c.blue, d.blue));
    }
    fn kt_luma() {
        let v: u32 = any();
        let c = ColorARGBInt { color: v };
        let l = c.luma();
        check!(l >= 0.0 && l <= 1.0);
        let b = ColorARGBIntBytes::from(c);
        if b.red == b.green && b.green == b.blue { check!(l == b.red as f64 / 255.0) }
    }
    fn k_luma_order() {
        let v: u32 = any();
        let b = ColorARGBIntBytes::from(v);
        let l = b.luma();
        let hi = b.red.max(b.green).max(b.blue) as f64 / 255.0;
        let lo = b.red.min(b.green).min(b.blue) as f64 / 255.0;
        check!(l <= hi + 1e-9 && l >= lo - 1e-9);
    }
    fn k_blend_opaque() {
        let (v, w): (u32, u32) = (any(), any());
        let (x, y) = (ColorARGBIntBytes::from(v), ColorARGBIntBytes::from(w | 0xFF00_0000));
        check!(x.alpha_blend(&y) == y);
    }
    fn k_blend_clear() {
        let (v, w): (u32, u32) = (any(), any());
        let (x, y) = (ColorARGBIntBytes::from(v | 0xFF00_0000), ColorARGBIntBytes::from(w & 0xFF_FFFF));
        check!(x.alpha_blend(&y) == x);
    }
}
