use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(mut s: Cursor<Vec<u8>>) {
    let mut d = lzma::LZMA2Reader::new(&mut s, 4096, None);
    let _ = d.read(&mut [0u8; 1]);
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = d.read(&mut [0u8; 1]);
    drop(d);
    let _ = s.read(&mut [0u8; 1]);
}
