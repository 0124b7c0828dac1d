use sevenz_rust::*;
use std::io::{Cursor, Write};
fn f(mut out: Cursor<Vec<u8>>) {
    let _ = out.write(&[0u8; 1]);
    let mut e = Aes256Sha256Encoder::new(lzma::CountingWriter::new(out), &AesEncoderOptions::new("x".into())).unwrap();
    let _ = out.write(&[0u8; 1]); // MISUSE
    let _ = e.write(&[]);
}
