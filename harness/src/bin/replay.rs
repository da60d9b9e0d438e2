//! Runs harness entry functions natively on concrete assignments.
//!
//! stdin: one case per line: `<entry> <params,..|-> <hex|-> <choices,..|->`
//! stdout: one line per case:
//!   `ok <observed,..>` | `assume` | `assert <msg>` | `panic <loc> <msg>` | `input`
//! exit 77: a single allocation beyond 64 MiB, or the limit the entry set, was requested.
#[cfg(feature = "ir")]
fn main() {}

#[cfg(not(feature = "ir"))]
mod native {
    use harness::api::imp::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::io::{BufRead, Write};
    use std::sync::atomic::Ordering::SeqCst;

    struct A;
    fn over(size: usize) {
        if size as u64 > LIMIT.load(SeqCst) {
            LIMIT.store(u64::MAX, SeqCst);
            println!("alloc {}", size);
            let _ = std::io::stdout().flush();
            std::process::exit(77);
        }
    }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            over(l.size());
            LIVE.fetch_add(1, SeqCst);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            over(l.size());
            LIVE.fetch_add(1, SeqCst);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, SeqCst);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            over(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;

    thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

    fn nums(s: &str) -> Vec<u64> {
        if s == "-" {
            return vec![];
        }
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }

    pub fn main() {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let p = info.payload();
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = format!("{} {}", loc, msg.replace('\n', " ")));
        }));
        // the entries run on a thread with a stack of a known size
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(body)
            .unwrap()
            .join()
            .unwrap();
    }

    fn body() {
        let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
        for line in lines {
            let f: Vec<&str> = line.split(' ').collect();
            let entry = harness::lookup(f[0]).expect("unknown entry");
            let hex = if f[2] == "-" { "" } else { f[2] };
            let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            INPUT.with(|i| {
                *i.borrow_mut() = Input {
                    bytes,
                    params: nums(f[1]),
                    choices: nums(f[3]),
                    ..Input::default()
                }
            });
            // the engine's default limit on a single allocation
            LIMIT.store(64 << 20, SeqCst);
            let r = std::panic::catch_unwind(entry);
            LIMIT.store(u64::MAX, SeqCst);
            let s = match r {
                Ok(()) => {
                    let o = INPUT.with(|i| i.borrow().observed.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    format!("ok {}", o.join(","))
                }
                Err(p) => {
                    if p.is::<AssumeFailed>() {
                        "assume".to_string()
                    } else if p.is::<OutOfInput>() {
                        "input".to_string()
                    } else if let Some(a) = p.downcast_ref::<AssertFailed>() {
                        format!("assert {}", a.0)
                    } else {
                        format!("panic {}", LAST.with(|l| l.borrow().clone()))
                    }
                }
            };
            println!("{}", s);
        }
    }
}

#[cfg(not(feature = "ir"))]
fn main() {
    native::main()
}
