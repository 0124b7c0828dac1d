use sevenz_rust::*;
use std::io::Cursor;
fn f(mut a: Archive, s: &mut Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, &a, &[], s);
    let es = d.entries();
    a.files.clear(); // MISUSE
    let _ = es.len();
}
