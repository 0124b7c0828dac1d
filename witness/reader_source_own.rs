use sevenz_rust::*;
use std::io::Read;
fn f(mut s: std::fs::File) {
    let _ = s.read(&mut [0u8; 1]);
    let mut r = SevenZReader::new(s, 100, Password::empty()).unwrap();
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = r.for_each_entries(|_, _| Ok(true));
}
