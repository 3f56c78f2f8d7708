//! replay <entry> <file>: line 1 = params, line 2 = input values
use std::time::Duration;
fn nums(s: &str) -> Vec<u64> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = std::fs::read_to_string(&a[2]).unwrap();
    let mut l = f.lines();
    let params = nums(l.next().unwrap_or(""));
    let vals = nums(l.next().unwrap_or(""));
    let e = vp::TABLE.iter().find(|e| e.0 == a[1]).expect("entry").1;
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(20));
        println!("REPLAY does not terminate");
        std::process::exit(12);
    });
    vp::sx::imp::PARAMS.with(|p| *p.borrow_mut() = params);
    vp::sx::imp::VALS.with(|p| *p.borrow_mut() = vals);
    let r = std::panic::catch_unwind(|| e());
    if r.is_err() {
        println!("REPLAY panic");
        std::process::exit(11);
    }
    println!("REPLAY ok");
}
