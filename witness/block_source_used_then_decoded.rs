use sevenz_rust::*;
use std::io::{Seek, Cursor, SeekFrom};
fn f(a: &Archive, mut s: Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], &mut s);
    let _ = s.seek(SeekFrom::Start(0)); // MISUSE
    let _ = d.for_each_entries(&mut |_: &SevenZArchiveEntry, _: &mut dyn std::io::Read| Ok(true));
    let _ = s.seek(SeekFrom::Start(0));
}
