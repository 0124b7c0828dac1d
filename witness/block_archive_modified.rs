use sevenz_rust::*;
use std::io::Cursor;
fn f(a: &mut Archive, s: &mut Cursor<Vec<u8>>) {
    a.files.clear();
    let d = BlockDecoder::new(0, a, &[], s);
    a.files.clear(); // MISUSE
    let _ = d.entries().len();
    a.files.clear();
}
