use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(mut s: Cursor<Vec<u8>>) {
    let _ = s.read(&mut [0u8; 1]);
    let mut d = Aes256Sha256Decoder::new(s, &[], &[]).unwrap();
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = d.read(&mut [0u8; 1]);
}
