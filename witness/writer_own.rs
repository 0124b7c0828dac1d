use sevenz_rust::*;
use std::io::Write;
fn f(mut out: std::io::Cursor<Vec<u8>>) {
    let _ = out.write_all(b"before");
    let w = SevenZWriter::new(out).unwrap();
    let _ = out.write_all(b"between"); // MISUSE
    let _ = w.finish();
}
