use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(mut s: Cursor<Vec<u8>>) {
    let mut d = lzma::LZMAReader::new_mem_limit(&mut s, 100, None).unwrap();
    let _ = d.read(&mut [0u8; 1]);
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = d.read(&mut [0u8; 1]);
    drop(d);
    let _ = s.read(&mut [0u8; 1]);
}
