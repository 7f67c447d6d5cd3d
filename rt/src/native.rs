//! Native replay: symbolic bytes are read from a flat stream in creation order.
use std::cell::RefCell;
use std::io::{BufRead, Write};
#[derive(Default)]
struct St {
    data: Vec<u8>,
    pos: usize,
    hash: u64,
    short: bool,
    reached: Vec<u32>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); static MSG: RefCell<String> = RefCell::new(String::new()); }
pub struct Stop(pub String);
fn stop(s: String) -> ! {
    std::panic::resume_unwind(Box::new(Stop(s)))
}
fn take(o: &mut [u8]) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        for b in o {
            if s.pos < s.data.len() {
                *b = s.data[s.pos];
                s.pos += 1
            } else {
                *b = 0;
                s.short = true
            }
        }
    })
}
pub unsafe fn sym_bytes(p: *mut u8, n: usize, _: *const u8) {
    take(std::slice::from_raw_parts_mut(p, n))
}
pub unsafe fn sym_check(b: bool, id: u32) {
    if !b {
        stop(format!("CHECK {id}"))
    }
}
pub unsafe fn sym_assume(b: bool) {
    if !b {
        stop("ASSUME".into())
    }
}
pub unsafe fn sym_reach(id: u32) {
    S.with(|s| s.borrow_mut().reached.push(id))
}
pub unsafe fn sym_observe(p: *const u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut h = s.hash;
        let mut f = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(1099511628211)
        };
        f(n as u8);
        for b in std::slice::from_raw_parts(p, n) {
            f(*b)
        }
        s.hash = h
    })
}
pub unsafe fn sym_choice(n: u64) -> u64 {
    let mut b = [0];
    take(&mut b);
    (b[0] as u64).min(n - 1)
}
pub unsafe fn sym_concretize(n: u64) -> u64 {
    n
}
pub unsafe fn sym_uf(_: u64, _: *const u8, _: usize, o: *mut u8, m: usize, _: bool) {
    take(std::slice::from_raw_parts_mut(o, m))
}
pub unsafe fn sym_panic_ok(_: bool) {}
pub unsafe fn sym_end() -> ! {
    stop("END".into())
}
pub unsafe fn sym_steps() -> u64 {
    0
}
pub unsafe fn sym_heap() -> u64 {
    0
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
pub static RUN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn main(table: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        MSG.with(|x| *x.borrow_mut() = m)
    }));
    // the answers go to the standard output of the start, whatever the code under test prints is dropped
    let mut out: std::fs::File = unsafe {
        use std::os::fd::{FromRawFd, IntoRawFd};
        let o = std::fs::File::from_raw_fd(dup(1));
        dup2(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap().into_raw_fd(), 1);
        o
    };
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let name = it.next().unwrap_or("");
        let hex = it.next().unwrap_or("");
        let data: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let Some(f) = table.iter().find(|t| t.0 == name).map(|t| t.1) else {
            writeln!(out, "NOHARNESS {name}").unwrap();
            continue;
        };
        S.with(|s| *s.borrow_mut() = St { data, hash: 14695981039346656037, ..Default::default() });
        RUN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let r = std::panic::catch_unwind(f);
        let (hash, short, reached) = S.with(|s| {
            let s = s.borrow();
            (s.hash, s.short, s.reached.clone())
        });
        let w = match r {
            Ok(()) => "OK".to_string(),
            Err(e) => match e.downcast::<Stop>() {
                Ok(s) => s.0,
                Err(_) => format!("PANIC {}", MSG.with(|m| m.borrow().clone())),
            },
        };
        writeln!(out, "{hash} {} {:?} {w}", short as u8, reached).unwrap();
    }
}
