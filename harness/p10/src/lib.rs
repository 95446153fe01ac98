// P10: strings stored in tags: 32-byte strings and UTF-16 strings are always valid text, terminated, and keep the text they were given.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::parse::{SimpleTagData, TagData};
use byteorder::{LittleEndian, BigEndian};

fn stored(s: &String32) -> [u8; 32] { let mut d = [0xAAu8; 32]; check!(ok(s.write::<LittleEndian>(&mut d, 0, 32)).is_some()); d }
/// Valid UTF-8, NUL-terminated within 32 bytes, nothing but NULs after it.
fn invariant(s: &String32) {
    let d = stored(s);
    let n = s.as_str().len();
    check!(n <= 31);
    check!(d[..n] == *s.as_str().as_bytes());
    for i in n..32 { check!(d[i] == 0) }
    check!(std::str::from_utf8(&d[..n]).is_ok());
}
fn no_nul(s: &str) { for b in s.as_bytes() { assume(*b != 0) } }
fn units(s: &str) -> Vec<u8> { let mut v = Vec::new(); for c in s.encode_utf16() { v.extend_from_slice(&c.to_le_bytes()) } v.extend_from_slice(&[0, 0]); v }
/// Text that is kept as it is: no NUL, no control characters except TAB, line ends CR LF.
fn clean(s: &str) -> bool {
    let b = s.as_bytes();
    for i in 0..b.len() {
        match b[i] {
            b'\t' => {}
            b'\r' => if i + 1 >= b.len() || b[i + 1] != b'\n' { return false },
            b'\n' => if i == 0 || b[i - 1] != b'\r' { return false },
            x => if x < 32 || x == 127 { return false }
        }
    }
    true
}
fn utf16(b: &[u8]) -> UTF16String {
    let mut file = [0u8; 20].to_vec();
    file[3] = b.len() as u8;
    file.extend_from_slice(b);
    let mut cursor = 20;
    ok(UTF16String::read_from_tag_file(&file, 0, 20, &mut cursor)).unwrap()
}
harnesses! {
    fn s_from_str() {
        let pre = [0, 1, 26, 27, 28, 29, 30, 31, 32][split({ let p: u8 = any(); assume(p < 9); p as usize })];
        let t = utf8(len(bound(5, 6)));
        no_nul(&t);
        let s = "abcdefghijklmnopqrstuvwxyzabcdefgh"[..pre].to_string() + &t;
        match ok(String32::from_str(&s)) {
            Some(x) => { check!(s.len() <= 31); invariant(&x); check!(x.as_str() == s); check!(x == s[..]); check!(String32::from_bytes_lossy(&stored(&x)) == x) }
            None => check!(s.len() > 31)
        }
        cover!(0, s.len() == 31);
        cover!(1, s.len() == 32);
    }
    /// 32 bytes of which a window is arbitrary.
    fn s_lossy() {
        let n = bound(4, 5);
        let at = [0, 1, 14, 26, 27, 28, 29][split({ let p: u8 = any(); assume(p < 7); p as usize })];
        assume(at + n <= 32);
        let mut d = *b"abcdefghijklmnopqrstuvwxyzABCDEF";
        for i in at..at + n { d[i] = any() }
        let s = String32::from_bytes_lossy(&d);
        invariant(&s);
        check!(String32::from_bytes_lossy(&stored(&s)) == s);
        let mut k = 0;
        while k < 31 && d[k] != 0 { k += 1 }
        match std::str::from_utf8(&d[..k]) {
            Ok(t) => check!(s.as_str() == t),
            Err(_) => { check!(s.as_str().contains('_')); check!(s.as_str().len() <= k) }
        }
        for i in 0..at.min(k) { check!(s.as_str().as_bytes()[i] == d[i]) }
        cover!(0, d[at] >= 0x80);
    }
    /// Through a file: same string, either byte order.
    fn s_file() {
        let mut d = [0u8; 34];
        for i in 1..3 { d[i] = any() }
        let a = ok(String32::read::<BigEndian>(&d, 1, 33)).unwrap();
        invariant(&a);
        check!(ok(String32::read::<LittleEndian>(&d, 1, 33)).unwrap() == a);
        let mut e = [9u8; 34];
        check!(ok(a.write::<BigEndian>(&mut e, 1, 33)).is_some());
        check!(e[0] == 9 && e[33] == 9);
        check!(ok(String32::read::<BigEndian>(&e, 1, 33)).unwrap() == a);
    }
    /// Any text gives a valid string; clean text is kept.
    fn s_utf16_from_text() {
        let t = utf8(len(bound(5, 6)));
        let u = UTF16String::from_str(&t);
        let r = ok(u.get_string());
        check!(r.is_some());
        let r = r.unwrap();
        check!(clean(&r));
        check!(u.get_utf16_bytes() == &units(&r)[..]);
        check!(ok(u.get_string_lossy()).unwrap() == r);
        if clean(&t) { check!(*r == t) }
        cover!(0, clean(&t) && t.len() == 5);
        cover!(1, r.len() > t.len());
    }
    fn s_utf16_line_ends() {
        let n = len(bound(5, 6));
        let mut t = String::new();
        for _ in 0..n { t.push(['\r', '\n', 'a', '\t', '\0', '\u{7f}', 'é'][split({ let i: u8 = any(); assume(i < 7); i as usize })]) }
        let r = ok(UTF16String::from_str(&t).get_string()).unwrap();
        check!(clean(&r));
        if clean(&t) { check!(*r == t) }
        // what is kept: everything up to the first NUL except lone CRs and DELs, with LF completed to CR LF
        let mut e = String::new();
        let b: Vec<char> = t.chars().collect();
        for i in 0..b.len() {
            match b[i] { '\0' => break, '\u{7f}' => {}, '\r' => if i + 1 < b.len() && b[i + 1] == '\n' { e.push('\r') }, '\n' => { if !e.ends_with('\r') { e.push('\r') } e.push('\n') } c => e.push(c) }
        }
        check!(*r == e);
    }
    /// Any bytes: never a panic; accepted text is exactly what those bytes say; the lossy text is valid text.
    fn s_utf16_bytes() {
        let b = bytes(len(bound(8, 10)));
        let u = utf16(&b);
        match ok(u.get_string()) {
            Some(s) => { check!(clean(&s)); check!(units(&s) == b); check!(UTF16String::from_str(&s) == u) }
            None => {
                check!(b.len() % 2 != 0 || b.len() < 2 || { let t = String::from_utf16(&b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<u16>>()); match t { Ok(t) => !t.ends_with('\0') || !clean(&t[..t.len() - 1]), Err(_) => true } });
            }
        }
        match u.get_string_lossy() {
            Ok(s) => check!(clean(&s)),
            Err(s) => { check!(clean(&s)); check!(*ok(UTF16String::from_str(&s).get_string()).unwrap() == *s) }
        }
        // asking twice gives the same answer, and so does a copy
        check!(ok(u.get_string()).is_some() == ok(u.clone().get_string()).is_some());
        cover!(0, b.len() == 8 && ok(u.get_string()).is_some());
    }
}
kani_harnesses! {}
