use sevenz_rust::*;
use std::io::Read;
fn f() {
    let mut keep: Vec<&mut dyn Read> = Vec::new();
    let _ = decompress_file_with_extract_fn("s", "d", |_, rd, _| {
        let mut b = [0u8; 1];
        let _ = rd.read(&mut b);
        keep.push(rd); // MISUSE
        Ok(true)
    });
    drop(keep);
}
