use sevenz_rust::*;
use std::io::Read;
fn f(mut r: SevenZReader<std::fs::File>) {
    let mut keep: Vec<&mut dyn Read> = Vec::new();
    let _ = r.for_each_entries(|_, rd| {
        let mut b = [0u8; 1];
        let _ = rd.read(&mut b);
        keep.push(rd); // MISUSE
        Ok(true)
    });
    drop(keep);
}
