//! Runs requests (one JSON object per line) against instant-xml and writes
//! one JSON result per line.

extern crate self as harness_self;
mod calls;
mod codec;
mod cursor;
mod node;
mod ops;
#[allow(clippy::all, non_camel_case_types, dead_code)]
mod generated;

use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn main() {
    let mut args = std::env::args().skip(1);
    let input = std::fs::File::open(args.next().unwrap()).unwrap();
    let mut output = std::fs::File::create(args.next().unwrap()).unwrap();
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));

    // A known stack size, whatever the main thread has
    let worker = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut buf = Vec::new();
        for line in BufReader::new(input).lines() {
            let req: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let res = catch_unwind(AssertUnwindSafe(|| ops::run(&req)))
                .unwrap_or_else(|_| json!({"ok": false, "panic": PANIC.with(|p| p.borrow().clone())}));
            serde_json::to_writer(&mut buf, &res).unwrap();
            buf.push(b'\n');
            output.write_all(&buf).unwrap();
            buf.clear();
        }
    });
    worker.unwrap().join().unwrap();
}
