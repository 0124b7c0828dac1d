use sevenz_rust::*;
use std::io::Cursor;
fn f(a: Archive, s: &mut Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, &a, &[], s);
    let r = SevenZReader::from_archive(a, Cursor::new(Vec::<u8>::new()), Password::empty()); // MISUSE
    let _ = d.entries().len();
}
