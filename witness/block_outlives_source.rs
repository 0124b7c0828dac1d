use sevenz_rust::*;
use std::io::Cursor;
fn f<'a>(a: &'a Archive, s: &'a mut Cursor<Vec<u8>>) -> BlockDecoder<'a, Cursor<Vec<u8>>> {
    let mut local = Cursor::new(Vec::new());
    let _ = BlockDecoder::new(0, a, &[], &mut local);
    let s = &mut local; // MISUSE
    BlockDecoder::new(0, a, &[], s)
}
