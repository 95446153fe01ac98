include!("lib.rs");
fn main() { nd::replay(&[LIST_S, LIST_K]) }
