use sevenz_rust::*;
use std::io::Cursor;
fn f(a: &Archive, mut pw: Vec<u8>, s: &mut Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &pw, s);
    pw.clear(); // MISUSE
    let _ = d.entry_count();
}
