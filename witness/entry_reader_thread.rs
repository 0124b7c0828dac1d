use sevenz_rust::*;
use std::io::Read;
fn f(mut r: SevenZReader<std::fs::File>) {
    let _ = r.for_each_entries(|_, rd| {
        let mut b = [0u8; 1];
        let _ = rd.read(&mut b);
        std::thread::spawn(move || { let _ = rd.read(&mut [0u8; 1]); }); // MISUSE
        Ok(true)
    });
}
