use sevenz_rust::*;
fn f(mut r: SevenZReader<std::fs::File>) {
    let n = r.archive().files.len();
    let _ = r.for_each_entries(|_, _| {
        let _ = n;
        let _ = r.read_file(); // MISUSE
        Ok(true)
    });
}
trait Again { fn read_file(&mut self) -> bool; }
impl Again for SevenZReader<std::fs::File> {
    fn read_file(&mut self) -> bool { self.for_each_entries(|_, _| Ok(true)).is_ok() }
}
