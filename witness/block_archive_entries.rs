use sevenz_rust::*;
use std::io::Cursor;
fn f(a: &mut Archive, s: &mut Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], s);
    d.entries()[0].size += 1; // MISUSE
    let _ = d.entries()[0].size;
}
