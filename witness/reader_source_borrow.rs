use sevenz_rust::*;
use std::io::{Read, Cursor};
fn f(mut s: Cursor<Vec<u8>>) {
    let mut r = SevenZReader::new(&mut s, 100, Password::empty()).unwrap();
    let _ = s.read(&mut [0u8; 1]); // MISUSE
    let _ = r.for_each_entries(|_, _| Ok(true));
    let _ = s.read(&mut [0u8; 1]);
}
