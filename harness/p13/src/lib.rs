// P13: compressed normals and floats.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;

fn back(v: f64) -> f64 { f64::from(CompressedFloat::from(v)) }
harnesses! {
    /// The parts of a compressed 2D vector are two compressed floats.
    fn s_parts2d() {
        let pick = || [0.0, 1.0, -1.0, 0.25, -0.3, 1e-9, -1e-9, 2.0, -7.0][split({ let i: u8 = any(); assume(i < 9); i as usize })];
        let (x, y) = (any::<i8>() as f64 / 100.0, pick());
        let (x, y) = if split(any::<u8>() as usize & 1) == 0 { (x, y) } else { (y, x) };
        check!(CompressedVector2D::from(Vector2D { x, y }).data == CompressedFloat::from(x).data as u32 | (CompressedFloat::from(y).data as u32) << 16);
    }
    /// Known answers.
    fn s_known() {
        let d = |c: u16| f64::from(CompressedFloat { data: c });
        check!(d(0) == 0.0 && d(0x7FFF) == 1.0 && d(0x8000) == -1.0 && d(0xFFFF) == -1.0 / 32768.0 && d(1) == 1.0 / 32767.0);
        let v = Vector3D::from(CompressedVector3D { data: 0x3FF | 0x400 << 11 | 0x1FF << 22 });
        check!(v.x == 1.0 && v.y == -1.0 && v.z == 1.0);
        check!(CompressedVector3D::from(Vector3D { x: -0.00001, y: 0.00001, z: -1.0 }).data == 0x200 << 22);
        check!(CompressedFloat::from(-1e-9).data == 0);
    }
}
kani_harnesses! {
    fn k_code16() {
        let c: u16 = any();
        let v = f64::from(CompressedFloat { data: c });
        check!(v >= -1.0 && v <= 1.0);
        check!((v < 0.0) == (c & 0x8000 != 0));
        check!(CompressedFloat::from(v).data == c);
    }
    fn k_parts2d() {
        let c: u32 = any();
        let v = Vector2D::from(CompressedVector2D { data: c });
        check!(v.x == f64::from(CompressedFloat { data: c as u16 }) && v.y == f64::from(CompressedFloat { data: (c >> 16) as u16 }));
    }
    fn k_order16() {
        let (c, d): (u16, u16) = (any(), any());
        let v = f64::from(CompressedFloat { data: c });
        let w = f64::from(CompressedFloat { data: d });
        check!(((c as i16) < (d as i16)) == (v < w));
    }
    fn k_near16() {
        let v: f64 = any();
        if v >= -1.0 && v <= 1.0 {
            let w = back(v);
            check!((w - v).abs() <= 0.6 / 32767.0);
        }
    }
    fn k_clamp16() {
        let v: f64 = any();
        if v >= 1.0 { check!(back(v) == 1.0) }
        if v <= -1.0 { check!(back(v) == -1.0) }
    }
    fn k_sign16() {
        let v: f64 = any();
        if v == v { let w = back(v); check!(if v >= 0.0 { w >= 0.0 } else { w <= 0.0 }) }
    }
    fn k_code3d() {
        let c: u32 = any();
        let v = Vector3D::from(CompressedVector3D { data: c });
        check!(CompressedVector3D::from(v).data == c);
    }
    fn k_near3d() {
        let v: [f64; 3] = any();
        if v[0] >= -1.0 && v[0] <= 1.0 && v[1] >= -1.0 && v[1] <= 1.0 && v[2] >= -1.0 && v[2] <= 1.0 {
            let w = Vector3D::from(CompressedVector3D::from(Vector3D { x: v[0], y: v[1], z: v[2] }));
            check!((w.x - v[0]).abs() <= 0.6 / 1023.0 && (w.y - v[1]).abs() <= 0.6 / 1023.0 && (w.z - v[2]).abs() <= 0.6 / 511.0);
        }
    }
}
