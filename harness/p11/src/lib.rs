// P11: index ranges in matchers select exactly the items they name.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper_primitives::{primitive::*, dynamic::*};

/// What a range list means: None if it is not one.
fn meaning(m: &[u8], n: usize) -> Option<Vec<bool>> {
    let mut sel: Vec<bool> = (0..n).map(|_| false).collect();
    let num = |s: &[u8]| -> Option<usize> {
        if s == b"e" { return if n == 0 { None } else { Some(n - 1) } }
        if s.is_empty() { return None }
        let mut v = 0usize;
        for c in s { if !c.is_ascii_digit() { return None } v = (v * 10 + (*c - b'0') as usize).min(1000) }
        Some(v)
    };
    for r in m.split(|c| *c == b',') {
        if r == b"*" { for x in &mut sel { *x = true } continue }
        let mut p = r.splitn(2, |c| *c == b'-');
        let a = num(p.next().unwrap())?;
        let b = match p.next() { Some(x) => num(x)?, None => a };
        if a > b || b >= n { return None }
        for x in &mut sel[a..=b] { *x = true }
    }
    Some(sel)
}
/// Look the matcher up in a list of n numbers 0, 1, 2...
fn run(matcher: &str, n: usize) -> Result<Vec<u32>, ()> {
    let mut r = Reflexive { items: (0..n as u32).collect::<Vec<u32>>() };
    let (mut got, mut bad, mut calls) = (Vec::new(), 0, 0);
    let d: &dyn DynamicTagData = &r;
    d.foreach(matcher, |x| { calls += 1; match x { Ok(v) => got.push(*v.as_any().downcast_ref::<u32>().unwrap()), Err(_) => bad += 1 } true });
    check!(d.validate_matcher(matcher).is_ok() == (bad == 0));
    // the mutable form visits the same items
    let mut k = 0;
    let d: &mut dyn DynamicTagData = &mut r;
    d.foreach_mut(matcher, |x| { if let Ok(v) = x { let v = v.as_any_mut().downcast_mut::<u32>().unwrap(); check!(got[k] == *v); *v += 100; k += 1 } true });
    check!(k == got.len());
    for (i, v) in r.items.iter().enumerate() { check!(*v == i as u32 + if got.contains(&(i as u32)) { 100 } else { 0 }) }
    // stopping stops
    if !got.is_empty() {
        let mut c = 0;
        let d: &dyn DynamicTagData = &r;
        d.foreach(matcher, |_| { c += 1; false });
        check!(c == 1);
    }
    check!(bad == 0 || (bad == 1 && got.is_empty()));
    if bad == 0 { Ok(got) } else { Err(()) }
}
fn compare(m: &str, n: usize) {
    let r = run(&(String::from("[") + m + "]"), n);
    match meaning(m.as_bytes(), n) {
        Some(sel) => {
            check!(r.is_ok());
            let got = r.unwrap();
            let mut k = 0;
            for i in 0..n { if sel[i] { check!(k < got.len() && got[k] == i as u32); k += 1 } }
            check!(k == got.len());
        }
        None => check!(r.is_err())
    }
}
fn pick(set: &[u8], n: usize) -> String { (0..n).map(|_| set[split({ let i: u8 = any(); assume((i as usize) < set.len()); i as usize })] as char).collect() }
harnesses! {
    /// Any ASCII text without a closing bracket.
    fn s_text() {
        let n = len(4);
        let m = ascii(len(bound(4, 5)));
        for c in m.as_bytes() { assume(*c != b']') }
        compare(&m, n);
        cover!(0, meaning(m.as_bytes(), n).is_some() && m.len() == 4);
    }
    fn s_multibyte() {
        let m = utf8(len(bound(4, 5)));
        for c in m.as_bytes() { assume(*c != b']') }
        let r = run(&(String::from("[") + &m + "]"), 3);
        if !m.is_ascii() { check!(r.is_err()) }
    }
    fn s_ranges() {
        let n = [0, 1, 3, 6][split({ let i: u8 = any(); assume(i < 4); i as usize })];
        let m = pick(b"0125,-*e", len(bound(5, 6)));
        compare(&m, n);
    }
    /// Two and three proper ranges in any order, overlapping, touching or not.
    fn s_unions() {
        let k = bound(3, 3);
        let mut m = String::new();
        for i in 0..k {
            let (a, b): (u8, u8) = (any(), any());
            assume(a < 6 && b < 6);
            let (a, b) = (split(a as usize), split(b as usize));
            if i > 0 { m.push(',') }
            m.push((b'0' + a as u8) as char);
            m.push('-');
            m.push((b'0' + b as u8) as char);
        }
        if any() { m += ",0" }
        compare(&m, 6);
    }
    fn s_large_numbers() {
        let m = ["18446744073709551615", "18446744073709551616", "99999999999999999999999", "0000000000000000000000000000001", "0-18446744073709551615", "10", "2-10", "02", "2-02"][split({ let i: u8 = any(); assume(i < 9); i as usize })];
        compare(m, len(3));
    }
}
kani_harnesses! {}
