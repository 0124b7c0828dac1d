use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(s: Cursor<Vec<u8>>) {
    let mut d = lzma::LZMA2Reader::new(s, 4096, None);
    let inner = d.get_mut();
    let _ = d.read(&mut [0u8; 1]); // MISUSE
    let _ = inner.read(&mut [0u8; 1]);
    let _ = d.read(&mut [0u8; 1]);
}
