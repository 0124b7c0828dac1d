use sevenz_rust::*;
fn f(mut w: SevenZWriter<std::io::Cursor<Vec<u8>>>) {
    let out = w.finish();
    let _ = w.push_archive_entry(SevenZArchiveEntry::new(), Some(&b"x"[..])); // MISUSE
    drop(out);
}
