use sevenz_rust::*;
use std::io::Read;
fn f(d: BlockDecoder<'_, std::fs::File>) {
    let mut keep: Vec<&mut dyn Read> = Vec::new();
    let _ = d.for_each_entries(&mut |_: &SevenZArchiveEntry, rd: &mut dyn Read| {
        let mut b = [0u8; 1];
        let _ = rd.read(&mut b);
        keep.push(rd); // MISUSE
        Ok(true)
    });
    drop(keep);
}
