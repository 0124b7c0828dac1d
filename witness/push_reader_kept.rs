use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(mut w: SevenZWriter<Cursor<Vec<u8>>>, mut src: Cursor<Vec<u8>>) {
    let _ = w.push_archive_entry(SevenZArchiveEntry::new(), Some(src));
    let _ = src.read(&mut [0u8; 1]); // MISUSE
    let _ = w.finish();
}
