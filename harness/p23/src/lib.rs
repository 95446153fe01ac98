// P23: string lists survive being converted to text and back, and text that is not a string list is an error.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, tag::{unicode_string_list::*, bludgeon::*}, primitives::{primitive::{Reflexive, UTF16String, TagPath, TagGroup}, tag::*, parse::*}};

const END: &str = "###END-STRING###";
/// A character that may be in a string, not a line ending.
fn character() -> char {
    let c = match char::from_u32(any::<u16>() as u32) { Some(c) => c, None => { assume(false); unreachable!() } };
    assume(c == '\t' || (c >= ' ' && c != '\u{7F}' && c != '\u{FEFF}'));
    c
}
/// A string made of up to `n` pieces: line endings, letters, the end marker, or one arbitrary character.
fn string(n: usize) -> String {
    let mut s = String::new();
    let mut used = false;
    for _ in 0..len(n) {
        match len(3) { 0 => s.push_str("\r\n"), 1 => s.push('#'), 2 => s.push_str(END), _ => { assume(!used); used = true; s.push(character()) } }
    }
    s
}
fn list(strings: &[String]) -> UnicodeStringList {
    UnicodeStringList { strings: Reflexive::new(strings.iter().map(|s| UnicodeStringListString { string: UTF16String::from_str(s) }).collect()), ..Default::default() }
}
fn ends_early(s: &str) -> bool { s.split("\r\n").any(|l| l == END) }
fn same(l: &UnicodeStringList, strings: &[String]) {
    check!(l.string_count() == strings.len());
    for (i, s) in strings.iter().enumerate() { check!(match ok(l.read_string_data(i)) { Some(x) => *x == *s, None => false }) }
}
fn encode(text: &str, how: usize) -> Vec<u8> {
    match how {
        0 => text.as_bytes().to_vec(),
        1 => [0xFFu8, 0xFE].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_le_bytes())).collect(),
        _ => [0xFEu8, 0xFF].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_be_bytes())).collect()
    }
}
/// What a text says: the strings, or None if it is not a string list.
fn meaning(text: &str) -> Option<Vec<String>> {
    if text.contains('\0') { return None }
    let mut v = Vec::new();
    let mut now: Option<String> = None;
    let mut blank = true;
    for l in text.split_inclusive('\n') {
        let l = l.strip_suffix("\r\n").or(l.strip_suffix('\n')).unwrap_or(l);
        if l == END { v.push(now.take().unwrap_or_default()); blank = true; continue }
        blank &= l.is_empty();
        now = Some(match now { None => l.to_string(), Some(s) => s + "\r\n" + l });
    }
    if blank { Some(v) } else { None }
}
harnesses! {
    /// To text and back.
    fn s_round() {
        let strings: Vec<String> = if split(any::<u8>() as usize & 1) == 0 { (0..len(1)).map(|_| string(bound(4, 6))).collect() } else { (0..2).map(|_| string(bound(2, 3))).collect() };
        for s in &strings { assume(!ends_early(s)) }
        let l = list(&strings);
        same(&l, &strings);
        let t = ok(l.as_text_data()).unwrap();
        cover!(0, strings.iter().any(|s| s.ends_with("\n")));
        let Some(r) = ok(UnicodeStringList::from_text_data(&t)) else { check!(false); return };
        same(&r, &strings);
        check!(r == l);
    }
    /// Any text in any encoding.
    fn s_text() {
        let mut t = String::new();
        let mut used = false;
        for _ in 0..len(bound(3, 5)) {
            match len(5) { 0 => t.push('\n'), 1 => t.push_str("\r\n"), 2 => t.push('#'), 3 => t.push_str(END), 4 => t.push('\0'), _ => { assume(!used); used = true; t.push(character()) } }
        }
        let data = encode(&t, len(2));
        let r = ok(UnicodeStringList::from_text_data(&data));
        let m = meaning(&t);
        cover!(0, r.is_some()); cover!(1, r.is_none());
        check!(r.is_some() == m.is_some());
        if let (Some(r), Some(m)) = (r, m) { same(&r, &m) }
    }
    /// Any bytes: an error unless they are text.
    fn s_bytes() {
        let n = bound(3, 4);
        let mut d = bytes(len(n));
        let bom = split(any::<u8>() as usize & 1) == 1;
        let good = if bom {
            let u: Vec<u16> = d.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            let mut e = vec![0xFF, 0xFE]; e.extend_from_slice(&d);
            let odd = d.len() % 2 != 0;
            d = e;
            if odd { None } else { String::from_utf16(&u).ok() }
        } else {
            assume(d.len() < 2 || d.len() % 2 != 0 || !((d[0] == 0xFF && d[1] == 0xFE) || (d[0] == 0xFE && d[1] == 0xFF)));
            String::from_utf8(d.clone()).ok()
        };
        let r = ok(UnicodeStringList::from_text_data(&d));
        check!(r.is_some() == good.as_ref().is_some_and(|t| meaning(t).is_some()));
        if let Some(r) = r { check!(r.string_count() == 0) }
    }
    /// A damaged string is repaired, the others are left as they are.
    fn s_repair() {
        let b = bytes(len(bound(6, 8)));
        let mut file = vec![0u8; 20];
        file[0..4].copy_from_slice(&(b.len() as u32).to_be_bytes());
        file.extend_from_slice(&b);
        let mut cursor = 20;
        let u = ok(UTF16String::read_from_tag_file(&file, 0, 20, &mut cursor)).unwrap();
        let was = ok(u.get_string()).map(|s| s.to_string());
        let mut l = UnicodeStringList { strings: Reflexive::new(vec![UnicodeStringListString { string: UTF16String::from_str("a") }, UnicodeStringListString { string: u }]), ..Default::default() };
        let path = TagPath::new("a", TagGroup::UnicodeStringList);
        check!(matches!(bludgeon_tag(&mut l, &ok(path).unwrap()), BludgeonResult::Done));
        let now = ok(l.read_string_data(1)).map(|s| s.to_string());
        check!(now.is_some());
        cover!(0, was.is_some()); cover!(1, was.is_none());
        if was.is_some() { check!(was == now) }
        check!(ok(l.read_string_data(0)).unwrap().as_str() == "a" && l.string_count() == 2);
    }
}
kani_harnesses! {}
