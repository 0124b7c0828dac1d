use sevenz_rust::*;
fn f(w: SevenZWriter<std::io::Cursor<Vec<u8>>>) {
    let out = w.finish();
    let again = w.finish(); // MISUSE
    drop(out);
}
