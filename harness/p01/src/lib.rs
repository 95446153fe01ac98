// P01: tag path acceptance, normalisation, containment, ordering.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::{TagGroup, TagPath};

fn reserved(c: &[u8]) -> bool {
    match c {
        b"con" | b"prn" | b"aux" | b"nul" => true,
        [b'c', b'o', b'm', d] | [b'l', b'p', b't', d] => d.is_ascii_digit(),
        _ => false,
    }
}
/// Reference: the normal form of a path, or None if it must be refused.
fn reference(b: &[u8]) -> Option<Vec<u8>> {
    let mut v: Vec<u8> = Vec::with_capacity(b.len());
    for &x in b {
        let x = match x {
            b'/' | b'\\' => b'\\',
            b':' | b'*' | b'?' | b'"' | b'<' | b'>' | b'|' | 0..=31 | 127 => return None,
            b'A'..=b'Z' => x + 32,
            _ => x,
        };
        if x == b'\\' && v.last() == Some(&b'\\') { continue }
        v.push(x);
    }
    if v.first() == Some(&b'\\') { return None }
    let mut start = 0;
    for i in 0..=v.len() {
        if i == v.len() || v[i] == b'\\' {
            let c = &v[start..i];
            if c.last() == Some(&b'.') || reserved(c) { return None }
            start = i + 1;
        }
    }
    Some(v)
}
/// Every component names an entry of its parent directory.
fn contained(native: &[u8]) -> bool {
    let mut start = 0;
    for i in 0..=native.len() {
        if i == native.len() || native[i] == b'/' {
            let c = &native[start..i];
            if c == b"" || c == b"." || c == b".." { return false }
            start = i + 1;
        } else if native[i] == 0 || native[i] == b'\\' { return false }
    }
    true
}
fn one(s: &str) {
    let e = reference(s.as_bytes());
    let r = ok(TagPath::new(s, TagGroup::Weapon));
    check!(r.is_some() == e.is_some());
    cover!(0, r.is_none());
    let (Some(p), Some(e)) = (r, e) else { return };
    check!(p.path().as_bytes() == &e[..]);
    check!(p.group() == TagGroup::Weapon);
    let base = p.base_name();
    let mut k = e.len();
    while k > 0 && e[k - 1] != b'\\' { k -= 1 }
    check!(base.as_bytes() == &e[k..]);
    cover!(1, k > 0);
    // idempotent
    let again = ok(TagPath::new(p.path(), TagGroup::Weapon));
    check!(again.is_some());
    check!(again.unwrap() == p);
}
fn order(x: &TagPath, y: &TagPath) {
    let (c, d) = (x.cmp(y), y.cmp(x));
    check!(c == d.reverse());
    check!((c == std::cmp::Ordering::Equal) == (x == y));
    check!((x == y) == (x.group() == y.group() && x.path() == y.path()));
    check!(x.partial_cmp(y) == Some(c));
}
harnesses! {
    /// All valid UTF-8 strings up to the bound.
    fn s_new() { let s = utf8(len(bound(4, 6))); one(&s); cover!(0, true); cover!(1, true) }
    /// Longer strings over the characters the rules talk about.
    fn s_new_alphabet() {
        const A: &[u8] = b"\\/.aN:";
        let n = bound(5, 6);
        let s: String = (0..n).map(|_| { let i: u8 = any(); assume((i as usize) < A.len()); A[i as usize] as char }).collect();
        one(&s);
    }
    /// A reserved device name anywhere, in any case, is refused.
    fn s_reserved() {
        let pre = ["", "a\\", "b/", "a\\b/"][split({ let i: u8 = any(); assume(i < 4); i as usize })];
        let post = ["", "\\c", "/"][split({ let i: u8 = any(); assume(i < 3); i as usize })];
        let mid = ascii(split({ let i: u8 = any(); assume(i >= 2 && i as usize <= bound(4, 5)); i as usize }));
        let mut s = String::from(pre); s.push_str(&mid); s.push_str(post);
        one(&s);
    }
    /// The file system paths of an accepted path stay below the root and only differ in the separator.
    fn s_contained() {
        real_fmt(true);
        let s = utf8(len(bound(3, 5)));
        let Some(p) = ok(TagPath::new(&s, TagGroup::Weapon)) else { return };
        let n = p.to_native_path();
        check!(contained(n.as_bytes()));
        check!(p.to_zip_path() == n);
        let i = p.to_internal_path();
        check!(i.len() == p.path().len() + 7 && i.as_bytes()[..p.path().len()] == *p.path().as_bytes() && &i.as_bytes()[p.path().len()..] == b".weapon");
        check!(i.len() == n.len());
        for k in 0..i.len() { let (a, b) = (i.as_bytes()[k], n.as_bytes()[k]); check!(if a == b'\\' { b == b'/' } else { a == b }) }
        cover!(0, s.len() > 2);
    }
    /// Comparison is consistent with equality.
    fn s_order() {
        let a = ascii(len(2)); let b = ascii(len(2));
        const G: [TagGroup; 2] = [TagGroup::Model, TagGroup::Weapon];
        let (Some(x), Some(y)) = (ok(TagPath::new(&a, G[any::<bool>() as usize])), ok(TagPath::new(&b, G[any::<bool>() as usize]))) else { return };
        order(&x, &y);
        cover!(0, x == y); cover!(1, x < y);
    }
    /// The same for every pair of groups.
    fn s_order_groups() {
        let (Some(g), Some(h)) = (TagGroup::from_fourcc(any()), TagGroup::from_fourcc(any())) else { return };
        let (Some(mut x), Some(mut y)) = (ok(TagPath::new("a", TagGroup::Weapon)), ok(TagPath::new("a", TagGroup::Weapon))) else { return };
        x.set_group(g); y.set_group(h);
        order(&x, &y);
        check!((x == y) == (g == h));
        cover!(0, x == y); cover!(1, x < y);
    }
}
kani_harnesses! {}
