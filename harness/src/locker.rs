//! A process that opens and closes sessions on a log, one system call at a time.
//!
//! Commands on stdin: `open PATH KEY`, `add`, `close`, `ping`.  While a command runs, every system call of the main
//! thread that concerns the lock file or the log is announced on stdout ("G name") and waits for a line
//! on stdin: "go", or "die" (the process then kills itself).  A finished command answers "R ...".
use execgraph::pylib::execgraph as execgraph_module;
use pyo3::prelude::*;
use pyo3::types::PyDict;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ffi::CStr;
use std::io::{BufRead, Write};
use std::os::raw::{c_char, c_int, c_void};

thread_local! {
    static ON: Cell<bool> = Cell::new(false);
    static FDS: RefCell<HashMap<c_int, &'static str>> = RefCell::new(HashMap::new());
}
static mut OUT: c_int = 1;
static mut IN: c_int = 0;

fn say(s: &str) {
    let b = format!("{}\n", s);
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, OUT, b.as_ptr().add(o), b.len() - o) };
        if n <= 0 {
            unsafe { libc::_exit(3) }
        }
        o += n as usize;
    }
}

fn hear() -> String {
    let mut s = vec![];
    loop {
        let mut c = 0u8;
        let n = unsafe { libc::syscall(libc::SYS_read, IN, &mut c as *mut u8, 1) };
        if n <= 0 {
            unsafe { libc::_exit(0) }
        }
        if c == b'\n' {
            return String::from_utf8_lossy(&s).to_string();
        }
        s.push(c);
    }
}

fn gate(name: &str) {
    say(&format!("G {}", name));
    if hear() == "die" {
        unsafe {
            libc::kill(libc::getpid(), libc::SIGKILL);
            libc::_exit(9)
        }
    }
}

fn kind(path: *const c_char) -> Option<&'static str> {
    if path.is_null() || !ON.with(|o| o.get()) {
        return None;
    }
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    if p.ends_with(b".lock") {
        Some("lock")
    } else if p.ends_with(b"wrk.log") {
        Some("log")
    } else {
        None
    }
}

fn fdkind(fd: c_int) -> Option<&'static str> {
    if !ON.with(|o| o.get()) {
        return None;
    }
    FDS.with(|f| f.borrow().get(&fd).copied())
}

unsafe fn ret(r: libc::c_long) -> c_int {
    r as c_int // libc::syscall has set errno
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let k = kind(path);
    if let Some(k) = k {
        gate(&format!("open-{}", k));
    }
    let r = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode);
    if let (Some(k), true) = (k, r >= 0) {
        FDS.with(|f| f.borrow_mut().insert(r as c_int, k));
    }
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if let Some(k) = fdkind(fd) {
        gate(&format!("flock-{}", k));
    }
    ret(libc::syscall(libc::SYS_flock, fd, op))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(k) = kind(path) {
        gate(&format!("unlink-{}", k));
    }
    ret(libc::syscall(libc::SYS_unlink, path))
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(k) = kind(a).or(kind(b)) {
        gate(&format!("rename-{}", k));
    }
    ret(libc::syscall(libc::SYS_rename, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if let Some(k) = fdkind(fd) {
        gate(&format!("write-{}", k));
    }
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if let Some(k) = fdkind(fd) {
        gate(&format!("truncate-{}", k));
    }
    ret(libc::syscall(libc::SYS_ftruncate, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(k) = fdkind(fd) {
        gate(&format!("close-{}", k));
        FDS.with(|f| f.borrow_mut().remove(&fd));
    }
    ret(libc::syscall(libc::SYS_close, fd))
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let k = if !path.is_null() && *path == 0 { fdkind(dir) } else { kind(path) };
    if k == Some("lock") {
        gate("stat-lock");
    }
    ret(libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf))
}

fn main() {
    unsafe {
        OUT = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 50);
        IN = libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 50);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
    }
    std::panic::set_hook(Box::new(|i| say(&format!("P {}", i).replace('\n', " "))));
    pyo3::append_to_inittab!(execgraph_module);
    pyo3::prepare_freethreaded_python();
    let _ = (std::io::stdin().lock().lines(), std::io::stdout().flush());
    Python::with_gil(|py| {
        let m = py.import("execgraph").unwrap();
        let mut g: Option<PyObject> = None;
        say("R ready");
        loop {
            let pool = unsafe { py.new_pool() };
            let py = pool.python();
            let l = hear();
            let a: Vec<&str> = l.split(' ').collect();
            match a[0] {
                "open" => {
                    let kw = PyDict::new(py);
                    kw.set_item("newkeyfn", py.eval(&format!("lambda: {:?}", a[2]), None, None).unwrap()).unwrap();
                    let c = m.getattr("ExecGraph").unwrap();
                    ON.with(|o| o.set(true));
                    let r = c.call((0, a[1]), Some(kw));
                    ON.with(|o| o.set(false));
                    match r {
                        Ok(o) => {
                            let k: String = o.call_method0("key").unwrap().extract().unwrap();
                            g = Some(o.into_py(py));
                            say(&format!("R ok {}", k));
                        }
                        Err(e) => say(&format!("R err {}", e.to_string().replace('\n', " "))),
                    }
                }
                "close" => {
                    ON.with(|o| o.set(true));
                    let o = g.take();
                    // references are dropped for real while this pool is alive only if we hold the last one
                    drop(o);
                    drop(pool);
                    ON.with(|o| o.set(false));
                    say("R closed");
                }
                _ => say("R pong"),
            }
        }
    });
}
