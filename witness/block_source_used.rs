use sevenz_rust::*;
use std::io::{Read, Cursor};
fn f(a: &Archive, mut s: Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], &mut s);
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = d.entry_count();
    let _ = s.read(&mut [0u8; 1]);
}
