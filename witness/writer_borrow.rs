use sevenz_rust::*;
use std::io::Write;
fn f(mut out: std::io::Cursor<Vec<u8>>) {
    let mut w = SevenZWriter::new(&mut out).unwrap();
    let _ = w.push_archive_entry(SevenZArchiveEntry::new(), Some(&b"x"[..]));
    let _ = out.write_all(b"between"); // MISUSE
    let _ = w.finish();
    let _ = out.write_all(b"after");
}
