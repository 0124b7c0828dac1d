use sevenz_rust::*;
use std::io::Cursor;
fn f(a: &Archive, mut s: Cursor<Vec<u8>>, mut t: Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], &mut s);
    let e = BlockDecoder::new(1, a, &[], &mut t);
    let g = BlockDecoder::new(1, a, &[], &mut s); // MISUSE
    let _ = (d.entry_count(), e.entry_count());
}
