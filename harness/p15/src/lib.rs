// P15: map addresses: data is found exactly when all of it lies inside the domain, and nothing else is ever returned.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
#[path = "../../common/fakemap.rs"] pub mod fakemap;
use nd::*;
use fakemap::*;
use ringhopper_primitives::{primitive::*, map::*};

fn within(d: &[u8], base: usize, at: usize, n: usize) -> Option<&[u8]> { let o = at.checked_sub(base)?; d.get(o..o.checked_add(n)?) }
fn domain() -> DomainType {
    match split({ let i: u8 = any(); assume(i < 8); i as usize }) {
        0 => DomainType::TagData, 1 => DomainType::MapData, 2 => DomainType::BSP(0), 3 => DomainType::BSPVertices(0),
        4 => DomainType::ResourceMapFile(ResourceMapType::Sounds), 5 => DomainType::BSP(1), 6 => DomainType::ModelVertexData, _ => DomainType::ResourceMapFile(ResourceMapType::Loc)
    }
}
fn map(n: usize, k: usize) -> FakeMap {
    let mut m = FakeMap::new(bytes(n), any());
    m.bsp = Some((bytes(k), any()));
    m
}
harnesses! {
    fn s_data() {
        let m = map(len(bound(2, 4)), len(bound(2, 4)));
        let d = domain();
        let (at, n): (usize, usize) = (any(), any());
        let r = m.get_data_at_address(at, &d, n);
        let tags = within(&m.data, m.base, at, n);
        let e = match &d {
            DomainType::TagData => tags,
            DomainType::MapData | DomainType::BSPVertices(0) => within(&m.data, 0, at, n),
            DomainType::ResourceMapFile(ResourceMapType::Sounds) => within(&m.data, 3, at, n),
            // a BSP is looked at first, then the tag data, whichever side of the BSP the address is on
            DomainType::BSP(0) => { let b = m.bsp.as_ref().unwrap(); within(&b.0, b.1, at, n).or(tags) }
            _ => None
        };
        check!(r.is_some() == e.is_some());
        if let Some(x) = r { let e = e.unwrap(); check!(x.len() == n && x.as_ptr() == e.as_ptr()) }
        cover!(0, matches!(d, DomainType::BSP(0)) && at < m.bsp.as_ref().unwrap().1 && n == 2 && r.is_some());
    }
    fn s_text() {
        let m = map(len(bound(2, 3)), len(bound(2, 3)));
        let d = domain();
        let at: usize = any();
        let r = m.get_c_string_at_address(at, &d);
        let find = |b: &[u8], base: usize| -> Option<Option<Vec<u8>>> {
            let t = b.get(at.checked_sub(base)?..)?;
            for i in 0..t.len() { if t[i] == 0 { return Some(Some(t[..i].to_vec())) } }
            Some(None)
        };
        let e = match &d {
            DomainType::TagData => find(&m.data, m.base),
            DomainType::MapData | DomainType::BSPVertices(0) => find(&m.data, 0),
            DomainType::ResourceMapFile(ResourceMapType::Sounds) => find(&m.data, 3),
            DomainType::BSP(0) => { let b = m.bsp.as_ref().unwrap(); match find(&b.0, b.1) { None => find(&m.data, m.base), x => x } }
            _ => None
        }.flatten();
        match (r, e) {
            (Some(s), Some(e)) => check!(s.as_bytes() == e),
            (None, Some(e)) => check!(std::str::from_utf8(&e).is_err()),
            (Some(_), None) => check!(false),
            (None, None) => {}
        }
        cover!(0, r.is_some_and(|s| s.len() == 1));
    }
    /// Tags by index: exactly the tags of the array, whatever the index.
    fn s_index() {
        let n = len(3);
        let mut m = FakeMap::new(Vec::new(), 0);
        for i in 0..n { m.tags.push(Tag { tag_path: TagPath::new("a", TagGroup::Weapon).unwrap(), address: i * 7, domain: DomainType::TagData }) }
        let i: usize = any();
        match m.get_tag_by_index(i) { Some(t) => { check!(i < n); check!(t.address == i * 7) } None => check!(i >= n) }
        let id: u32 = any();
        match m.get_tag_by_id(ID::from_u32(id)) { Some(t) => check!(t.address == (id & 0xFFFF) as usize * 7 && id != u32::MAX), None => check!(id == u32::MAX || (id & 0xFFFF) as usize >= n) }
        check!(m.get_tag_by_tag_reference(&TagReference::Null(TagGroup::Weapon)).is_none());
    }
}
kani_harnesses! {}
