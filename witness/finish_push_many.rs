use sevenz_rust::*;
fn f(mut w: SevenZWriter<std::io::Cursor<Vec<u8>>>, r: SeqReader<SourceReader<&[u8]>>) {
    let _ = w.push_archive_entries(Vec::new(), r);
    let out = w.finish();
    let _ = w.push_archive_entries(Vec::new(), SeqReader::<SourceReader<&[u8]>>::new(Vec::new())); // MISUSE
    drop(out);
}
