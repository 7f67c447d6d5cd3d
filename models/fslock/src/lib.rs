//! MODEL of fslock: one lock; what other processes do before it is granted is up to the harness.
use std::io::Error;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
pub static HELD: AtomicBool = AtomicBool::new(false);
pub static BEFORE: Mutex<Option<fn()>> = Mutex::new(None);
#[derive(Debug)]
pub struct LockFile {
    held: bool,
}
impl LockFile {
    pub fn open<P: AsRef<std::path::Path> + ?Sized>(_p: &P) -> Result<LockFile, Error> { Ok(LockFile { held: false }) }
    pub fn lock(&mut self) -> Result<(), Error> {
        if self.held {
            panic!("if you lock twice, the lock is already held")
        }
        let f = BEFORE.lock().unwrap().take();
        if let Some(f) = f {
            f()
        }
        assert!(!HELD.swap(true, Ordering::SeqCst), "deadlock");
        self.held = true;
        Ok(())
    }
    pub fn lock_with_pid(&mut self) -> Result<(), Error> { self.lock() }
    pub fn try_lock(&mut self) -> Result<bool, Error> { self.lock().map(|_| true) }
    pub fn try_lock_with_pid(&mut self) -> Result<bool, Error> { self.try_lock() }
    pub fn owns_lock(&self) -> bool { self.held }
    pub fn unlock(&mut self) -> Result<(), Error> {
        if !self.held {
            panic!("if you unlock, the lock must be held")
        }
        self.held = false;
        HELD.store(false, Ordering::SeqCst);
        Ok(())
    }
}
impl Drop for LockFile {
    fn drop(&mut self) {
        if self.held {
            let _ = self.unlock();
        }
    }
}
