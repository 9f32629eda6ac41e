//! The event sink: one O_APPEND file per scenario. Every event is one write(2), so the file order is a
//! total order consistent with real time, shared by this process and by the task processes it starts.
use serde_json::{json, Value};
use std::os::unix::io::RawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static FD: AtomicI32 = AtomicI32::new(-1);
static T0: AtomicU64 = AtomicU64::new(0);
static LOCK: Mutex<()> = Mutex::new(());

pub fn open(path: &str) {
    let c = std::ffi::CString::new(path).unwrap();
    let fd: RawFd = unsafe {
        libc::open(c.as_ptr(), libc::O_CREAT | libc::O_APPEND | libc::O_RDWR | libc::O_CLOEXEC, 0o644)
    };
    assert!(fd >= 0);
    let old = FD.swap(fd, SeqCst);
    if old >= 0 {
        unsafe { libc::close(old) };
    }
    T0.store(crate::vclock::virt_ns(), SeqCst);
}

pub fn now_ms() -> u64 {
    (crate::vclock::virt_ns() - T0.load(SeqCst)) / 1_000_000
}

/// Record an event; virtual time is stamped under the lock, so time stamps are in file order
/// for the events of this process.
pub fn emit(mut v: Value) {
    let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    v["tm"] = json!(now_ms());
    let mut s = v.to_string();
    s.push('\n');
    let fd = FD.load(SeqCst);
    if fd >= 0 {
        unsafe {
            libc::write(fd, s.as_ptr() as *const libc::c_void, s.len());
        }
    }
}
