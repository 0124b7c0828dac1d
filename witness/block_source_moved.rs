use sevenz_rust::*;
use std::io::Cursor;
fn f(a: &Archive, mut s: Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], &mut s);
    drop(s); // MISUSE
    let _ = d.entry_count();
}
