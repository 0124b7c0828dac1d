use sevenz_rust::*;
use std::io::{Cursor, Read};
fn f(d: BlockDecoder<'_, Cursor<Vec<u8>>>) {
    let mut each = |_: &SevenZArchiveEntry, _: &mut dyn Read| Ok(true);
    let _ = d.for_each_entries(&mut each);
    let _ = d.for_each_entries(&mut each); // MISUSE
}
