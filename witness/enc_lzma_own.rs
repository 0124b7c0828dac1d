use sevenz_rust::*;
use std::io::{Cursor, Write};
fn f(mut out: Cursor<Vec<u8>>) {
    let _ = out.write(&[0u8; 1]);
    let mut e = lzma::LZMAWriter::new_no_header(lzma::CountingWriter::new(out), &lzma::LZMA2Options::with_preset(1), false).unwrap();
    let _ = out.write(&[0u8; 1]); // MISUSE
    let _ = e.write(&[]);
}
