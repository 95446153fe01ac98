// P02: text forms of tag paths and references parse back to the same path.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::{TagGroup, TagPath, TagReference};
use ringhopper_primitives::parse::TagData;

fn back(p: &TagPath, text: &str) {
    let q = ok(TagPath::from_path(text));
    check!(q.is_some());
    check!(q.unwrap() == *p);
}
harnesses! {
    /// All four text forms of an accepted path, for every path text up to the bound.
    fn s_paths() {
        real_fmt(true);
        let s = utf8(len(bound(3, 5)));
        let Some(p) = ok(TagPath::new(&s, TagGroup::ScenarioStructureBSP)) else { return };
        back(&p, &p.to_internal_path());
        back(&p, &p.to_native_path());
        back(&p, &p.to_zip_path());
        back(&p, &p.to_string());
        let r = TagReference::from(p.clone());
        check!(r.is_set() && !r.is_null() && r.group() == p.group() && r.path() == Some(&p));
        check!(r.to_string() == p.to_string());
        cover!(0, s.len() > 2);
    }
    /// The same for every group, on paths of up to one character per component.
    fn s_groups() {
        real_fmt(true);
        let Some(g) = TagGroup::from_fourcc(any()) else { return };
        if g == TagGroup::_Unset { return }
        let s = ascii(len(bound(1, 2)));
        let Some(p) = ok(TagPath::new(&s, g)) else { return };
        back(&p, &p.to_internal_path());
        back(&p, &p.to_native_path());
        back(&p, &p.to_string());
        let mut r = TagReference::from(p);
        r.set_group(TagGroup::Actor);
        check!(r.group() == TagGroup::Actor && r.path().unwrap().path().len() <= s.len());
        cover!(0, g == TagGroup::Wind);
    }
    /// Arbitrary text: accepted only when the part after the last dot names a group and the part before it is accepted.
    fn s_from_text() {
        let mut s = utf8(len(bound(3, 4)));
        s.push_str([".bsp", ".fog", "fog", "/fog", ".Fog", ".fog ", ".f.og"][split({ let i: u8 = any(); assume(i < 7); i as usize })]);
        let b = s.as_bytes();
        let mut dot = b.len();
        for i in (0..b.len()).rev() { if b[i] == b'.' { dot = i; break } }
        let e = if dot < b.len() && &b[dot + 1..] == b"fog" { ok(TagPath::new(&s[..dot], TagGroup::Fog)) } else { None };
        let r = ok(TagPath::from_path(&s));
        check!(r == e);
        cover!(0, r.is_some()); cover!(1, r.is_none());
    }
    /// Arbitrary extension text is accepted iff it is exactly the name of the group returned.
    fn s_extension() {
        let t = ascii(bound(4, 5));
        let mut s = String::from("a.");
        s.push_str(&t);
        if let Some(p) = ok(TagPath::from_path(&s)) {
            let n = p.group().as_str().as_bytes();
            let k = t.len() - n.len();
            check!(n == &t.as_bytes()[k..] && (k == 0 || t.as_bytes()[k - 1] == b'.'));
            cover!(0, true);
        }
    }
    /// A reference written to a tag file reads back equal and consumes exactly what was written.
    fn s_reference_file() {
        let s = utf8(len(bound(3, 4)));
        let pre = len(2);
        let g = if any() { TagGroup::Weapon } else { TagGroup::_Unset };
        let r = if any() {
            match ok(TagPath::new(&s, g)) { Some(p) if !p.path().is_empty() => TagReference::Set(p), _ => return }
        } else { TagReference::Null(g) };
        let mut data = vec![0u8; 16 + pre];
        check!(ok(r.write_to_tag_file(&mut data, pre, 16 + pre)).is_some());
        let mut cursor = 16 + pre;
        let b = ok(TagReference::read_from_tag_file(&data, pre, 16 + pre, &mut cursor));
        check!(b.is_some());
        check!(b.unwrap() == r);
        check!(cursor == data.len());
        cover!(0, r.is_null()); cover!(1, s.len() == 3 && r.is_set());
    }
    /// An arbitrary encoded reference either fails or yields a value that encodes to the same bytes.
    fn s_reference_decode() {
        let n = len(bound(4, 6));
        let mut d = bytes(16 + n);
        d[8] = 0; d[9] = 0;
        let mut cursor = 16;
        if let Some(r) = ok(TagReference::read_from_tag_file(&d, 0, 16, &mut cursor)) {
            check!(cursor <= d.len());
            let mut out = vec![0u8; 16];
            check!(ok(r.write_to_tag_file(&mut out, 0, 16)).is_some());
            check!(out[16..] == d[16..cursor]);
            check!(out[8..12] == d[8..12]);
            let known = TagGroup::from_fourcc(u32::from_be_bytes([d[0], d[1], d[2], d[3]]));
            check!(r.group() == known.unwrap_or(TagGroup::_Unset));
            cover!(0, r.is_set()); cover!(1, r.is_null());
        }
    }
}
kani_harnesses! {}
