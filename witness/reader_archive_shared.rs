use sevenz_rust::*;
fn f(mut r: SevenZReader<std::fs::File>) {
    let n = r.archive().files.len();
    r.archive().files.clear(); // MISUSE
    let _ = r.for_each_entries(|_, _| Ok(n > 0));
}
