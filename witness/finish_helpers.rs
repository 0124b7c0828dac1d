use sevenz_rust::*;
fn f(mut w: SevenZWriter<std::io::Cursor<Vec<u8>>>) {
    let _ = w.push_source_path("x", |_| true);
    let out = w.finish();
    let _ = w.push_source_path("y", |_| true); // MISUSE
    drop(out);
}
