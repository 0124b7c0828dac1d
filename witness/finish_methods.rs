use sevenz_rust::*;
fn f(mut w: SevenZWriter<std::io::Cursor<Vec<u8>>>) {
    w.set_encrypt_header(true);
    w.set_content_methods(Vec::new());
    let out = w.finish();
    w.set_content_methods(Vec::new()); // MISUSE
    drop(out);
}
