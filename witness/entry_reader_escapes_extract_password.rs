use sevenz_rust::*;
use std::io::Read;
fn f(s: std::fs::File) {
    let mut keep: Vec<&mut dyn Read> = Vec::new();
    let _ = decompress_with_extract_fn_and_password(s, "d", Password::empty(), |_, rd, _| {
        let mut b = [0u8; 1];
        let _ = rd.read(&mut b);
        keep.push(rd); // MISUSE
        Ok(true)
    });
    drop(keep);
}
