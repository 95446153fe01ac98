// P09: IDs and indices keep what they were made of and are never confused with null.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::{primitive::*, parse::*};
use byteorder::{LittleEndian, BigEndian};

/// The one pair whose ID would be the null ID.
fn makeable(i: u16, salt: u16) -> bool { !(i == 0xFFFF && (salt ^ i) | 0x8000 == 0xFFFF) }
harnesses! {
    fn s_parts() {
        let (i, salt): (u16, u16) = (any(), any());
        assume(makeable(i, salt));
        let id = ID::new(Some(i), salt);
        check!(!id.is_null() && id.is_valid());
        check!(id.index() == Some(i));
        check!(id.salt() == Some(salt & 0x7FFF));
        check!(id.as_u32() & 0xFFFF == i as u32);
        check!(ID::from_u32(id.as_u32()) == id);
        cover!(0, i == 0xFFFF);
    }
    fn s_injective() {
        let (i, s, j, t): (u16, u16, u16, u16) = (any(), any(), any(), any());
        assume(makeable(i, s) && makeable(j, t));
        check!((ID::new(Some(i), s) == ID::new(Some(j), t)) == (i == j && s & 0x7FFF == t & 0x7FFF));
    }
    fn s_types() {
        let i: u16 = any();
        let (a, b) = (ID::new(Some(i), IDType::Tag.salt()), ID::new(Some(i), IDType::ScriptNode.salt()));
        check!(a != b && !a.is_null() && !b.is_null());
        check!(a.salt() == Some(IDType::Tag as u16) && b.salt() == Some(IDType::ScriptNode as u16));
        check!(a.index() == Some(i) && b.index() == Some(i));
    }
    fn s_null() {
        let salt: u16 = any();
        let n = ID::new(None, salt);
        check!(n == ID::null() && n == ID::default() && n.is_null() && n.index().is_none() && n.salt().is_none());
        check!(n.as_u32() == u32::MAX);
        let v: u32 = any();
        check!(ID::from_u32(v).is_null() == (v == u32::MAX));
        check!(ID::from_u32(v).index().is_none() == (v == u32::MAX));
        check!(ID::from_u32(v).salt().is_none() == (v == u32::MAX));
    }
    /// Any 32-bit value: IDs made of an index and a salt are exactly the valid ones.
    fn s_checked() {
        let v: u32 = any();
        let id = ID::from_u32(v);
        check!(id.as_u32() == v && u32::from(id) == v);
        check!(id.is_valid() == (v >> 31 == 1));
        match ok(ID::from_u32_checked(v)) { Some(x) => check!(x == id && id.is_valid()), None => check!(!id.is_valid()) }
        if id.is_valid() && !id.is_null() { check!(ID::new(id.index(), id.salt().unwrap()) == id) }
    }
    fn s_id_bytes() {
        let v: u32 = any();
        let mut d = [0u8; 4];
        check!(ok(ID::from_u32(v).write::<LittleEndian>(&mut d, 0, 4)).is_some());
        check!(d == v.to_le_bytes());
        check!(ok(ID::read::<LittleEndian>(&d, 0, 4)).unwrap().as_u32() == v);
        check!(ok(ID::read::<BigEndian>(&d, 0, 4)).unwrap().as_u32() == v.swap_bytes());
    }
    fn s_index_bytes() {
        let i: Index = if any() { Some(any()) } else { None };
        let mut d = [7u8; 2];
        let r = ok(i.write::<BigEndian>(&mut d, 0, 2));
        if i == Some(0xFFFF) { check!(r.is_none() && d == [7; 2]) }
        else { check!(r.is_some() && d == i.unwrap_or(0xFFFF).to_be_bytes()); check!(ok(Index::read::<BigEndian>(&d, 0, 2)).unwrap() == i) }
        let v: [u8; 2] = any();
        let b = u16::from_be_bytes(v);
        check!(ok(Index::read::<BigEndian>(&v, 0, 2)).unwrap() == if b == 0xFFFF { None } else { Some(b) });
    }
    /// A script value of each type reads back as the same value of that type.
    fn s_script_value() {
        let v: u32 = any();
        check!(u32::from(ID::from(ScenarioScriptNodeValue::from(ID::from_u32(v)))) == v);
        let b: bool = any();
        check!(bool::from(ScenarioScriptNodeValue::from(b)) == b);
        check!(i8::from(ScenarioScriptNodeValue::from(v as i8)) == v as i8);
        check!(i16::from(ScenarioScriptNodeValue::from(v as i16)) == v as i16);
        check!(i32::from(ScenarioScriptNodeValue::from(v as i32)) == v as i32);
        let f = ScenarioScriptNodeValue::from(f32::from_bits(v)).data;
        if !f32::from_bits(v).is_nan() { check!(f == v) }
        check!(bool::from(ScenarioScriptNodeValue { data: v }) == (v & 0xFF != 0));
    }
    /// The padding is the smallest number that completes the alignment.
    fn s_padding() {
        let s: u8 = any();
        let a = split({ let a: u8 = any(); assume(a != 0 && a <= 128); a as usize });
        let p = calculate_padding_for_alignment(s as usize, a);
        check!(p < a);
        check!((s as usize + p) % a == 0);
    }
    fn s_padding_power() {
        for k in 0..16 { let n: usize = any(); check!(calculate_padding_for_alignment(n, 1 << k) == n.wrapping_neg() & ((1 << k) - 1)) }
    }
}
kani_harnesses! {}
