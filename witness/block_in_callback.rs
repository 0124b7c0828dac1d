use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(a: &Archive, mut s: Cursor<Vec<u8>>) {
    let d = BlockDecoder::new(0, a, &[], &mut s);
    let _ = d.for_each_entries(&mut |_: &SevenZArchiveEntry, rd: &mut dyn Read| {
        let _ = rd.read(&mut [0u8; 1]);
        let _ = s.read(&mut [0u8; 1]); // MISUSE
        Ok(true)
    });
    let _ = s.read(&mut [0u8; 1]);
}
