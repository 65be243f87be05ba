//! Native replay: the harness of ../../harness, compiled by the ordinary compiler against the real
//! crate, with the symbolic inputs taken from a file. One input per line: `name hex`.
//! Prints `COVER x`, `FAIL id`, `PANIC msg`, `MISMATCH ...`, `END`.
#![allow(static_mut_refs)]
extern crate alloc;

#[path = "../../harness/src/bitcoin.rs"]
mod bitcoin;
#[path = "../../harness/src/codec.rs"]
mod codec;
#[path = "../../harness/src/entries.rs"]
mod entries;
#[path = "../../harness/src/mock.rs"]
mod mock;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/serial.rs"]
mod serial;
#[path = "../../harness/src/sym.rs"]
mod sym;

use std::sync::Mutex;

static INPUTS: Mutex<(Vec<(String, Vec<u8>)>, usize)> = Mutex::new((Vec::new(), 0));

fn name(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn leave(code: i32) -> ! {
    use std::io::Write;
    println!("END");
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
pub extern "C" fn sym_any(p: *mut u8, n: usize, np: *const u8, nl: usize) {
    let want = name(np, nl);
    let mut g = INPUTS.lock().unwrap();
    let at = g.1;
    g.1 += 1;
    match g.0.get(at) {
        Some((k, v)) => {
            if *k != want || v.len() != n {
                println!("MISMATCH input {}: {} recorded, {} asked", at, k, want);
                leave(4);
            }
            unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) }
        }
        None => {
            println!("MISMATCH input {}: none recorded, {} asked", at, want);
            leave(4);
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("MISMATCH assumption does not hold");
        leave(4);
    }
}
#[no_mangle]
pub extern "C" fn sym_concrete(v: usize) -> usize { v }
#[no_mangle]
pub extern "C" fn sym_check(np: *const u8, nl: usize, ok: bool) {
    if !ok {
        println!("FAIL {}", name(np, nl));
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(np: *const u8, nl: usize) { println!("COVER {}", name(np, nl)); }
#[no_mangle]
pub extern "C" fn sym_memo(_: *const u8, _: usize, _: usize) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs file");
    let mut v = vec![];
    for l in text.lines() {
        if l.starts_with('#') {
            continue;
        }
        let mut it = l.split_whitespace();
        if let (Some(n), h) = (it.next(), it.next().unwrap_or("")) {
            v.push((n.to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
        }
    }
    INPUTS.lock().unwrap().0 = v;
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i);
        leave(3)
    }));
    match entries::ENTRIES.iter().find(|e| e.0 == a[1]) {
        Some((_, f)) => f(),
        None => panic!("no entry {}", a[1]),
    }
    leave(0)
}
