// P14: vector arithmetic, normalization and plane distance.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;

fn num() -> f64 { let v = f64::from_bits(any()); assume(v == v); v }
fn v2() -> Vector2D { Vector2D { x: num(), y: num() } }
fn v3() -> Vector3D { Vector3D { x: num(), y: num(), z: num() } }
fn q4() -> Quaternion { Quaternion { x: num(), y: num(), z: num(), w: num() } }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
macro_rules! ops {
    ($name:ident, $make:expr, [$($f:ident),*]) => {
        fn $name() {
            let (v, w, k) = ($make, $make, num());
            let r = v + w; $( check!(same(r.$f, v.$f + w.$f)); )*
            let r = v - w; $( check!(same(r.$f, v.$f - w.$f)); )*
            let r = v * w; $( check!(same(r.$f, v.$f * w.$f)); )*
            let r = v / w; $( check!(same(r.$f, v.$f / w.$f)); )*
            let r = v * k; $( check!(same(r.$f, v.$f * k)); )*
            let r = v.scale(k); $( check!(same(r.$f, v.$f * k)); )*
            let mut r = v; r += w; $( check!(same(r.$f, v.$f + w.$f)); )*
            let mut r = v; r -= w; $( check!(same(r.$f, v.$f - w.$f)); )*
            let mut r = v; r *= w; $( check!(same(r.$f, v.$f * w.$f)); )*
            let mut r = v; r /= w; $( check!(same(r.$f, v.$f / w.$f)); )*
            let mut r = v; r *= k; $( check!(same(r.$f, v.$f * k)); )*
            let r = -v; $( check!(same(r.$f, v.$f * -1.0)); )*
        }
    }
}
ops!(ops2, v2(), [x, y]);
ops!(ops3, v3(), [x, y, z]);
ops!(ops4, q4(), [x, y, z, w]);
/// One arbitrary component of 1/8 .. 32 either sign or 0, the others out of a list.
fn component() -> f64 { let b: u8 = any(); b as i8 as f64 / 8.0 }
fn other() -> f64 { [0.0, 1.0, -0.25, 3.0, 1e-30, -2e30][split({ let i: u8 = any(); assume(i < 6); i as usize })] }
fn unit() -> f64 { [1.0, 0.5, 8.0, 0.001][split({ let i: u8 = any(); assume(i < 4); i as usize })] }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * b.abs() }
harnesses! {
    fn s_ops2() { ops2() }
    fn s_ops3() { ops3() }
    fn s_ops4() { ops4() }
    fn s_dot() {
        let (v, w) = (v2(), v2());
        check!(same(v.dot(&w), v.x * w.x + v.y * w.y));
        let d = v.distance_squared(&w);
        let (a, b) = (v.x - w.x, v.y - w.y);
        check!(same(d, a * a + b * b));
        let (v, w) = (v3(), v3());
        check!(same(v.dot(&w), v.x * w.x + v.y * w.y + v.z * w.z));
        let (a, b, c) = (v.x - w.x, v.y - w.y, v.z - w.z);
        check!(same(v.distance_squared(&w), a * a + b * b + c * c));
        let (v, w) = (q4(), q4());
        check!(same(v.dot(&w), v.x * w.x + v.y * w.y + v.z * w.z + v.w * w.w));
        let (a, b, c, d) = (v.x - w.x, v.y - w.y, v.z - w.z, v.w - w.w);
        check!(same(v.distance_squared(&w), a * a + b * b + c * c + d * d));
    }
    fn s_magnitude() {
        let v = v3();
        check!(same(v.magnitude_squared(), v.distance_squared(&Vector3D::zero())));
        check!(v.is_unit_vector() == ((1.0 - v.magnitude_squared()).abs() < 0.00001));
        check!(Vector2D::one().is_unit_vector() && Vector3D::one().is_unit_vector() && Quaternion::one().is_unit_vector());
        check!(Vector2D::zero().magnitude_squared() == 0.0 && Vector3D::zero().magnitude_squared() == 0.0 && Quaternion::zero().magnitude_squared() == 0.0);
    }
    fn s_plane() {
        let (v, p) = (v2(), Plane2D { vector: v2(), d: num() });
        check!(same(v.distance_from_plane(&p), v.x * p.vector.x + v.y * p.vector.y - p.d));
        let (v, p) = (v3(), Plane3D { vector: v3(), d: num() });
        check!(same(v.distance_from_plane(&p), v.x * p.vector.x + v.y * p.vector.y + v.z * p.vector.z - p.d));
        check!(p.vector() == p.vector && same(p.d(), p.d));
    }
    /// The result has the requested length, points the same way, and a zero vector gives some vector of that length.
    fn s_normalize3() {
        let (a, b, c, u) = (component(), other(), other(), unit());
        let v = match split({ let i: u8 = any(); assume(i < 3); i as usize }) { 0 => Vector3D { x: a, y: b, z: c }, 1 => Vector3D { x: b, y: a, z: c }, _ => Vector3D { x: b, y: c, z: a } };
        let n = v.normalize_into(u);
        let m = n.magnitude_squared();
        check!(near(m, u * u));
        let d = v.dot(&n);
        check!(d >= 0.0);
        let len = v.magnitude_squared();
        check!(len == 0.0 || near(d * d, len * (u * u)));
        let n = v.normalize();
        check!(n.is_unit_vector());
        check!(v.dot(&n) >= 0.0);
        check!(n.normalize() == n);
    }
    fn s_normalize2() {
        let (a, b, u) = (component(), other(), unit());
        let v = if any() { Vector2D { x: a, y: b } } else { Vector2D { x: b, y: a } };
        let n = v.normalize_into(u);
        check!(near(n.magnitude_squared(), u * u));
        check!(v.dot(&n) >= 0.0);
        check!(v.normalize().is_unit_vector());
    }
    fn s_normalize4() {
        let (a, b, c, u) = (component(), other(), other(), unit());
        let q = match split({ let i: u8 = any(); assume(i < 4); i as usize }) { 0 => [a, b, c, 0.0], 1 => [b, a, 0.5, c], 2 => [c, b, a, 0.0], _ => [0.0, c, b, a] };
        let v = Quaternion { x: q[0], y: q[1], z: q[2], w: q[3] };
        let n = v.normalize_into(u);
        check!(near(n.magnitude_squared(), u * u));
        check!(v.dot(&n) >= 0.0);
        check!(v.normalize().is_unit_vector());
    }
}
kani_harnesses! {}
