use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(mut s: Cursor<Vec<u8>>) {
    let _ = s.read(&mut [0u8; 1]);
    let mut d = lzma::LZMAReader::new(s, 1, 3, 0, 2, 4096, None).unwrap();
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = d.read(&mut [0u8; 1]);
}
