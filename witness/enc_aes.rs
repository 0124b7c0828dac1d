use sevenz_rust::*;
use std::io::{Cursor, Write};
fn f(mut out: Cursor<Vec<u8>>) {
    let mut e = Aes256Sha256Encoder::new(lzma::CountingWriter::new(&mut out), &AesEncoderOptions::new("x".into())).unwrap();
    let _ = e.write(&[0u8; 1]);
    let _ = out.write(&[0u8; 1]); // MISUSE
    let _ = e.write(&[]);
    drop(e);
    let _ = out.write(&[0u8; 1]);
}
