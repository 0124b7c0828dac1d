use sevenz_rust::*;
use std::io::{Cursor, Write};
fn f(mut out: Cursor<Vec<u8>>) {
    let mut e = lzma::LZMAWriter::new_use_header(lzma::CountingWriter::new(&mut out), &lzma::LZMA2Options::with_preset(1), None).unwrap();
    let _ = e.write(&[0u8; 1]);
    let _ = out.write(&[0u8; 1]); // MISUSE
    let _ = e.write(&[]);
    drop(e);
    let _ = out.write(&[0u8; 1]);
}
