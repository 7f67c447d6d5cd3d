//! the parts of the operating system the code reaches: an in-memory file system whose every effect
//! can be the point of a crash, process ids, threads and sockets
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
#[derive(Clone)]
pub struct VFile {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
}
#[derive(Clone, Copy)]
struct Fd {
    file: usize,
    pos: usize,
    append: bool,
}
pub static mut FILES: Vec<VFile> = vec![];
static mut FDS: Vec<Option<Fd>> = vec![];
/// effects on files so far, the one at which the process dies, and how much of a write it completes
pub static mut EFFECTS: usize = 0;
pub static mut CRASH_AT: usize = usize::MAX;
pub static mut PARTIAL: usize = 0;
pub static mut UNLOCKED_EFFECT: bool = false;
pub static mut PID: c_int = 77;
const BASE: c_int = 1_000_000;

pub unsafe fn reset() {
    FILES.clear();
    FDS.clear();
    EFFECTS = 0;
    CRASH_AT = usize::MAX;
    PARTIAL = 0;
    UNLOCKED_EFFECT = false;
    PID = 77;
    socket2::reset();
    *socket2::IN_THREAD.lock().unwrap() = None;
    *fslock::BEFORE.lock().unwrap() = None;
    fslock::HELD.store(false, std::sync::atomic::Ordering::SeqCst);
}
fn ours(p: &[u8]) -> bool {
    p.windows(7).any(|w| w == b"procbus")
}
unsafe fn path(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut q = p as *const u8;
    while *q != 0 {
        v.push(*q);
        q = q.add(1)
    }
    v
}
unsafe fn find(p: &[u8]) -> Option<usize> {
    FILES.iter().position(|f| f.path == p)
}
unsafe fn fd(n: c_int) -> Option<usize> {
    (n >= BASE).then(|| (n - BASE) as usize)
}
unsafe fn errno(e: c_int) {
    *libc::__errno_location() = e
}
/// may this effect happen?  (Dead processes have none.)  None: it is the one cut short.
unsafe fn effect(p: &[u8]) -> Option<bool> {
    let n = EFFECTS;
    EFFECTS += 1;
    if p.ends_with(b"procbus.map") && !fslock::HELD.load(std::sync::atomic::Ordering::SeqCst) {
        UNLOCKED_EFFECT = true
    }
    if n == CRASH_AT {
        return None;
    }
    Some(n < CRASH_AT)
}
pub unsafe fn crashed() -> bool {
    EFFECTS > CRASH_AT
}
#[cfg(feature = "native")]
unsafe fn pass(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long) -> c_long {
    libc::syscall(n, a, b, c, d)
}
#[cfg(not(feature = "native"))]
unsafe fn pass(n: c_long, _a: c_long, _b: c_long, c: c_long, _d: c_long) -> c_long {
    if n == libc::SYS_write {
        return c;
    }
    if n == libc::SYS_close {
        return 0;
    }
    errno(libc::ENOENT);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let name = path(p);
    if !ours(&name) {
        return pass(libc::SYS_openat, libc::AT_FDCWD as c_long, p as c_long, flags as c_long, mode as c_long) as c_int;
    }
    let i = match find(&name) {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                errno(libc::EEXIST);
                return -1;
            }
            if flags & libc::O_TRUNC != 0 && effect(&name) == Some(true) {
                FILES[i].data.clear()
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                errno(libc::ENOENT);
                return -1;
            }
            let live = effect(&name) == Some(true);
            // a dead process' files are under a name nobody looks at
            FILES.push(VFile { path: if live { name } else { b"procbus/dead".to_vec() }, data: vec![] });
            FILES.len() - 1
        }
    };
    FDS.push(Some(Fd { file: i, pos: 0, append: flags & libc::O_APPEND != 0 }));
    BASE + FDS.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(n: c_int, b: *mut c_void, len: usize) -> isize {
    let Some(i) = fd(n) else { return pass(libc::SYS_read, n as c_long, b as c_long, len as c_long, 0) as isize };
    let f = FDS[i].as_mut().unwrap();
    let d = &FILES[f.file].data;
    let from = f.pos.min(d.len());
    let k = len.min(d.len() - from);
    for j in 0..k {
        *(b as *mut u8).add(j) = d[from + j];
    }
    f.pos = from + k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(n: c_int, b: *const c_void, len: usize) -> isize {
    let Some(i) = fd(n) else { return pass(libc::SYS_write, n as c_long, b as c_long, len as c_long, 0) as isize };
    let f = FDS[i].as_mut().unwrap();
    let name = FILES[f.file].path.clone();
    let k = match effect(&name) {
        None => PARTIAL.min(len),
        Some(true) => len,
        Some(false) => 0,
    };
    let d = &mut FILES[f.file].data;
    if f.append {
        f.pos = d.len()
    }
    for j in 0..k {
        let c = *(b as *const u8).add(j);
        if f.pos + j < d.len() {
            d[f.pos + j] = c
        } else {
            while d.len() < f.pos + j {
                d.push(0)
            }
            d.push(c)
        }
    }
    f.pos += len;
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(n: c_int) -> c_int {
    let Some(i) = fd(n) else { return pass(libc::SYS_close, n as c_long, 0, 0, 0) as c_int };
    FDS[i] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: c_int, off: i64, whence: c_int) -> i64 {
    let Some(i) = fd(n) else { return pass(libc::SYS_lseek, n as c_long, off as c_long, whence as c_long, 0) as i64 };
    let f = FDS[i].as_mut().unwrap();
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        _ => FILES[f.file].data.len() as i64,
    };
    f.pos = (base + off) as usize;
    f.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(n: c_int, st: *mut libc::stat64) -> c_int {
    let Some(i) = fd(n) else { return pass(libc::SYS_fstat, n as c_long, st as c_long, 0, 0) as c_int };
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = libc::S_IFREG | 0o600;
    (*st).st_size = FILES[FDS[i].unwrap().file].data.len() as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(n: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    let size = if let Some(i) = fd(n) {
        FILES[FDS[i].unwrap().file].data.len()
    } else if !p.is_null() && ours(&path(p)) {
        match find(&path(p)) {
            Some(i) => FILES[i].data.len(),
            None => {
                errno(libc::ENOENT);
                return -1;
            }
        }
    } else {
        errno(libc::ENOSYS);
        return real_statx(n, p, flags, mask, buf);
    };
    std::ptr::write_bytes(buf, 0, 1);
    (*buf).stx_mode = (libc::S_IFREG | 0o600) as u16;
    (*buf).stx_mask = libc::STATX_ALL;
    (*buf).stx_size = size as u64;
    0
}
#[cfg(feature = "native")]
unsafe fn real_statx(n: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    libc::syscall(libc::SYS_statx, n, p, flags, mask, buf) as c_int
}
#[cfg(not(feature = "native"))]
unsafe fn real_statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut libc::statx) -> c_int {
    -1
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: c_int, len: i64) -> c_int {
    let Some(i) = fd(n) else { return pass(libc::SYS_ftruncate, n as c_long, len as c_long, 0, 0) as c_int };
    let f = FDS[i].unwrap().file;
    let name = FILES[f].path.clone();
    if effect(&name) == Some(true) {
        FILES[f].data.resize(len as usize, 0)
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(n: c_int) -> c_int {
    if fd(n).is_some() {
        return 0;
    }
    pass(libc::SYS_fsync, n as c_long, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: c_int) -> c_int {
    fsync(n)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = (path(a), path(b));
    if !ours(&pa) || !ours(&pb) {
        return pass(libc::SYS_rename, a as c_long, b as c_long, 0, 0) as c_int;
    }
    // a rename happens or does not
    if effect(&pb) != Some(true) {
        return 0;
    }
    let Some(i) = find(&pa) else {
        errno(libc::ENOENT);
        return -1;
    };
    if let Some(j) = find(&pb) {
        if i == j {
            return 0;
        }
        FILES[j].path = b"procbus/gone".to_vec()
    }
    FILES[i].path = pb;
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let pa = path(a);
    if !ours(&pa) {
        return pass(libc::SYS_unlink, a as c_long, 0, 0, 0) as c_int;
    }
    match find(&pa) {
        Some(i) => {
            if effect(&pa) == Some(true) {
                FILES[i].path = b"procbus/gone".to_vec();
            }
            0
        }
        None => {
            errno(libc::ENOENT);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    PID
}
/// before other threads run there is only this one: a new thread runs to its end when it is made
#[cfg(not(feature = "native"))]
mod one_thread {
    use super::*;
    type Start = extern "C" fn(*mut c_void) -> *mut c_void;
    #[no_mangle]
    pub unsafe extern "C" fn pthread_create(t: *mut usize, _a: *const c_void, f: Start, x: *mut c_void) -> c_int {
        *t = 1;
        f(x);
        0
    }
    macro_rules! zero { ($($n:ident($($a:ident: $t:ty),*)),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> c_int { $(let _ = $a;)* 0 } )* } }
    zero!(pthread_attr_init(a: *mut c_void), pthread_attr_destroy(a: *mut c_void), pthread_attr_setstacksize(a: *mut c_void, n: usize), pthread_detach(t: usize), pthread_join(t: usize, r: *mut c_void),
        sigaltstack(a: *mut c_void, b: *mut c_void), prctl(a: c_int, b: usize), pthread_setname_np(t: usize, n: *const c_void));
    #[no_mangle]
    pub unsafe extern "C" fn dlsym(_h: *mut c_void, _n: *const c_char) -> *mut c_void {
        std::ptr::null_mut()
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_getattr_np(_t: usize, _a: *mut c_void) -> c_int {
        1
    }
    #[no_mangle]
    pub unsafe extern "C" fn __cxa_thread_atexit_impl(_d: *mut c_void, _o: *mut c_void, _s: *mut c_void) -> c_int {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_self() -> usize {
        1
    }
    #[no_mangle]
    pub unsafe extern "C" fn socket(_a: c_int, _b: c_int, _c: c_int) -> c_int {
        3
    }
    #[no_mangle]
    pub unsafe extern "C" fn setsockopt(_fd: c_int, _l: c_int, o: c_int, _v: *const c_void, _n: u32) -> c_int {
        if o == libc::SO_BINDTODEVICE {
            errno(libc::EPERM);
            return -1;
        }
        0
    }
}
/// wait until the listener has taken everything that was sent to it
pub fn settle() {
    use std::sync::atomic::Ordering;
    if cfg!(feature = "native") {
        let t = std::time::Instant::now();
        while !socket2::DRAINED.load(Ordering::SeqCst) {
            if t.elapsed().as_secs() >= 2 {
                panic!("the listener thread is gone")
            }
            std::thread::yield_now()
        }
    } else {
        symrt::check(socket2::DRAINED.load(Ordering::SeqCst), 5099)
    }
}
#[allow(unused)]
fn _u(_: &CStr) {}
