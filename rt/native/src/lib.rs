//! Native side of the harness interface: the values come from a file written by the check, and
//! the harness runs against the real crate with the real std, regex and tera.
//!   HARNESS <entry> <values-file>
//! prints `OBS ..` and `END <how>`; exit 0 = finished, 10 = a check failed (`FAIL <tag>`),
//! 11 = an assumption is false, 12 = panic (`PANIC <message>`).
use std::cell::{Cell, RefCell};
thread_local! {
    static VALS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static OBS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static POK: Cell<bool> = const { Cell::new(false) };
}
fn obs() -> String { OBS.with(|o| o.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn leave(how: &str, code: i32) -> ! { println!("\nOBS [{}]\nEND {}", obs(), how); std::process::exit(code) }
pub fn bits(w: u32) -> u64 {
    let i = NEXT.with(|n| { let i = n.get(); n.set(i + 1); i });
    let v = VALS.with(|v| v.borrow().get(i).copied());
    // a run that asks for more values than the symbolic path did has left that path
    match v { Some(v) => if w >= 64 { v } else { v & ((1u64 << w) - 1) }, None => leave("more-values", 13) }
}
pub fn assume(c: bool) { if !c { leave("assume", 11) } }
pub fn check(c: bool, tag: &str) { if !c { println!("\nFAIL {}", tag); leave("fail", 10) } }
pub fn observe(v: u64) { OBS.with(|o| o.borrow_mut().push(v)) }
pub fn conc(v: u64) -> u64 { v }
pub fn end() -> ! { leave("end", 0) }
pub fn panic_ok(on: bool) { POK.with(|p| p.set(on)) }
pub fn set_order(_x: u64) {}
pub fn native() -> bool { true }
pub fn entry(list: &[(&str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).unwrap();
    VALS.with(|v| *v.borrow_mut() = t.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect());
    for (n, f) in list {
        if *n == a[1] {
            let f = *f;
            match std::panic::catch_unwind(move || f()) {
                Ok(()) => leave("done", 0),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    if POK.with(|p| p.get()) { leave("panic", 0) }
                    println!("\nPANIC {}", m.replace('\n', " "));
                    leave("panic", 12)
                }
            }
        }
    }
    eprintln!("no entry {}", a[1]);
    std::process::exit(2)
}
pub fn last_written(path: &str) -> Option<Vec<u8>> { std::fs::read(path).ok() }
pub fn put_file(path: &str, b: &[u8]) { std::fs::write(path, b).unwrap() }
/// let the next file written by this process hold at most n bytes (the rest of a write is cut short)
pub fn short_write(n: usize) {
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn signal(s: i32, h: usize) -> usize; }
    unsafe { signal(25, 1); let l = [n as u64, n as u64]; setrlimit(1, &l); }
}
