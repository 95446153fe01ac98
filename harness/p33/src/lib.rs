// P33: a tag filter accepts exactly the tags its wildcards describe, and every tag of a tree is visited once.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{primitives::{primitive::*, error::*, tag::*}, tag::tree::*};
use std::{borrow::Cow, sync::{Arc, Mutex}};

/// Whether the wildcards match, decided for all prefixes of both.
fn matches(filter: &[u32], what: &[u32]) -> bool {
    let mut row = vec![true];
    for _ in what { row.push(false) }
    for &f in filter {
        let mut next = vec![row[0] & (f == '*' as u32)];
        for (j, &w) in what.iter().enumerate() {
            let star = row[j + 1] | next[j];
            let one = row[j] & ((f == '?' as u32) | (f == w));
            next.push(((f == '*' as u32) & star) | ((f != '*' as u32) & one));
        }
        row = next;
    }
    row[what.len()]
}
/// A string of `n` characters that are ASCII characters `letter` accepts or one that takes two or three bytes.
fn text(n: usize, letter: impl Fn(u8) -> bool, wide: bool) -> (String, Vec<u32>) {
    let (mut s, mut v) = (Vec::new(), Vec::new());
    for _ in 0..n {
        let kind = if wide { len(2) } else { 0 };
        if kind == 1 { s.extend_from_slice("é".as_bytes()); v.push('é' as u32) }
        else if kind == 2 { s.extend_from_slice("€".as_bytes()); v.push('€' as u32) }
        else { let c: u8 = any(); assume(letter(c)); s.push(c); v.push(c as u32) }
    }
    (unsafe { String::from_utf8_unchecked(s) }, v)
}
fn native(v: &mut Vec<u32>) { for c in v { *c = if *c == '/' as u32 { '\\' as u32 } else { *c } } }
fn ab(c: u8) -> bool { (c == b'a') | (c == b'b') }
fn wild(c: u8) -> bool { (c == b'a') | (c == b'?') | (c == b'*') | (c == b'/') | (c == b'\\') }
fn path(s: &str, g: TagGroup) -> TagPath { ok(TagPath::new(s, g)).unwrap() }
fn grouped(m: usize, k: usize, wide: bool) {
    let (f, mut fv) = text(len(m), wild, wide);
    let (w, wv) = text(len(k), |c| ab(c), wide);
    native(&mut fv);
    let t = TagFilter::new(&f, Some(TagGroup::Weapon));
    check!(t.passes(&path(&w, TagGroup::Weapon)) == matches(&fv, &wv));
    check!(!t.passes(&path(&w, TagGroup::Model)));
}
struct Tree { files: Vec<(&'static str, Option<TagGroup>, bool)> }
impl TagTree for Tree {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { Err(Error::TagNotFound(p.clone())) }
    fn open_tag_shared(&self, p: &TagPath) -> RinghopperResult<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> { Err(Error::TagNotFound(p.clone())) }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
        let mut v = Vec::new();
        for (p, g, there) in &self.files {
            if !there || (match p.rfind('\\') { Some(i) => &p[..i], None => "" }) != path { continue }
            let t = if g.is_some() { TagTreeItemType::Tag } else { TagTreeItemType::Directory };
            v.push(TagTreeItem::new(t, Cow::Borrowed(*p), *g, self));
        }
        Some(v)
    }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { Ok(false) }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, _: &TagPath) -> bool { false }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { iterate_through_all_tags(self, f).collect() }
}
harnesses! {
    /// With a group, the wildcards are matched against the path only.
    fn s_wildcards() { grouped(bound(6, 7), bound(6, 7), false) }
    /// Characters that take several bytes.
    fn s_wide() { grouped(bound(4, 4), bound(3, 4), true) }
    /// Any character may be written in a filter.
    fn s_letters() {
        let n = len(2);
        let (f, mut fv) = text(n, |c| c < 128, false);
        let (w, wv) = text(len(2), |c| (c >= b'c') & (c <= b'z') | (c == b' ') | (c == b'_') | (c == b'.') | (c == b'A'), false);
        native(&mut fv);
        let p = match ok(TagPath::new(&w, TagGroup::Weapon)) { Some(p) => p, None => return };
        let wv: Vec<u32> = wv.iter().map(|c| if *c == 'A' as u32 { 'a' as u32 } else { *c }).collect();
        check!(TagFilter::new(&f, Some(TagGroup::Weapon)).passes(&p) == matches(&fv, &wv));
        check!(TagFilter::is_filter(&f) == fv.iter().any(|c| *c == '*' as u32 || *c == '?' as u32));
    }
    /// Without a group, they are matched against the path with the extension.
    fn s_whole() {
        real_fmt(true);
        let tails = ["", ".fog", ".fo?", "*", "*g", ".*", "?*???", ".sky"];
        let (mut f, mut fv) = text(len(bound(4, 5)), wild, false);
        let tail = tails[len(7)];
        f.push_str(tail);
        for c in tail.bytes() { fv.push(c as u32) }
        native(&mut fv);
        let (w, mut wv) = text(len(bound(3, 4)), |c| ab(c), false);
        for c in ".fog".bytes() { wv.push(c as u32) }
        let t = TagFilter::new(&f, None);
        let p = path(&w, TagGroup::Fog);
        let want = matches(&fv, &wv);
        check!(t.passes(&p) == want);
        check!(t.reference_matches(&TagReference::Set(p)) == want);
        check!(t.group().is_none());
    }
    /// References that are not set match by group, and only filters that match nothing at all.
    fn s_null() {
        let (f, mut fv) = text(len(4), wild, false);
        native(&mut fv);
        let empty = matches(&fv, &[]);
        check!(TagFilter::new(&f, None).reference_matches(&TagReference::Null(TagGroup::Model)) == empty);
        let t = TagFilter::new(&f, Some(TagGroup::Model));
        check!(t.reference_matches(&TagReference::Null(TagGroup::Model)) == empty);
        check!(!t.reference_matches(&TagReference::Null(TagGroup::Weapon)));
        check!(t.group() == Some(TagGroup::Model));
    }
    /// The extension is taken off once, if it is there.
    fn s_extension() {
        let n = len(bound(7, 8));
        let s = utf8(n);
        let rest = TagFilter::cleanup_extension(&s, TagGroup::Fog);
        let b = s.as_bytes();
        let cut = n >= 4 && (b[n - 4] == b'.') & (b[n - 3] == b'f') & (b[n - 2] == b'o') & (b[n - 1] == b'g');
        check!(rest.len() == if cut { n - 4 } else { n });
        check!(std::ptr::eq(rest.as_ptr(), s.as_ptr()));
    }
    fn s_extension_filter() {
        let heads = ["a", "", "*", "é", "a.fog", "a?", "fog", "a."];
        let tails = [".fog", "fog", ".sky", ".fog.", "", ".fo?", ".Fog", "*.fog"];
        let mut s = String::from(heads[len(7)]);
        s.push_str(tails[len(7)]);
        let mut v: Vec<u32> = s.chars().map(|c| c as u32).collect();
        if s.ends_with(".fog") { v.truncate(v.len() - 4) }
        let names = ["a", "", "é", "a.fog", "fog", "ab", "b", "a.x"];
        let name = names[len(7)];
        let want = matches(&v, &name.chars().map(|c| c as u32).collect::<Vec<_>>());
        check!(TagFilter::new(&s, Some(TagGroup::Fog)).passes(&path(name, TagGroup::Fog)) == want);
    }
    /// Every tag of a tree that passes the filter is found, once, in whatever directory.
    fn s_tree() {
        real_fmt(true);
        let mut tree = Tree { files: Vec::new() };
        let all = [("a", Some(TagGroup::Fog)), ("d", None), ("b", Some(TagGroup::Sky)), ("d\\a", Some(TagGroup::Fog)), ("d\\e", None), ("d\\e\\a", Some(TagGroup::Fog)), ("d\\a", Some(TagGroup::Sky)), ("f", None), ("d\\e\\g", None)];
        for (p, g) in all { let there = p == "d" || p == "d\\e" || split(any::<bool>() as usize) == 1; tree.files.push((p, g, there)) }
        let k = len(5);
        let filters = [TagFilter::new("*", Some(TagGroup::Fog)), TagFilter::new("d\\*.fog", None), TagFilter::new("*a.???", None), TagFilter::new("?", Some(TagGroup::Sky)), TagFilter::new("d/e/*", None)];
        let f = filters.get(k);
        let found: Vec<TagPath> = iterate_through_all_tags(&tree, f).collect();
        let mut n = 0;
        for (p, g, there) in &tree.files { if let Some(g) = g { if *there {
            let t = path(p, *g);
            let want = match k { 0 => *g == TagGroup::Fog, 1 => p.starts_with("d\\") && *g == TagGroup::Fog, 2 => p.ends_with('a'), 3 => p.len() == 1 && *g == TagGroup::Sky, 4 => p.starts_with("d\\e\\"), _ => true };
            check!(found.iter().filter(|x| **x == t).count() == want as usize);
            n += want as usize;
        } } }
        check!(found.len() == n);
        check!(tree.get_all_tags_with_filter(f) == found);
    }
}
kani_harnesses! {}
