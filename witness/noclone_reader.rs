use sevenz_rust::*;
use std::io::Cursor;
fn copied<T: Clone>(_: &T) {}
fn f(s: &Cursor<Vec<u8>>, x: &SevenZReader<Cursor<Vec<u8>>>) {
    copied(s);
    copied(x); // MISUSE
}
