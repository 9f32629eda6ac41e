//! A virtual monotonic clock for this process: virtual = base + (real - base_real) * scale.
//! clock_gettime and epoll_wait are interposed, so that the code under test (std::time::Instant,
//! tokio timers, the rate limiter) runs on virtual time without any change to it.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static SEQ: AtomicU64 = AtomicU64::new(0);
static SCALE: AtomicU64 = AtomicU64::new(1);
static BASE_REAL: AtomicU64 = AtomicU64::new(0);
static BASE_VIRT: AtomicU64 = AtomicU64::new(0);
static WR: Mutex<()> = Mutex::new(());

const NS: u64 = 1_000_000_000;

fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_long {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) }
}

pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as u64 * NS + ts.tv_nsec as u64
}

fn to_virtual(real: u64) -> u64 {
    loop {
        let s1 = SEQ.load(SeqCst);
        if s1 % 2 == 1 {
            std::hint::spin_loop();
            continue;
        }
        let (b, v, k) = (BASE_REAL.load(SeqCst), BASE_VIRT.load(SeqCst), SCALE.load(SeqCst));
        if SEQ.load(SeqCst) == s1 {
            if b == 0 {
                return real;
            }
            return v + real.saturating_sub(b) * k;
        }
    }
}

pub fn virt_ns() -> u64 {
    to_virtual(real_ns())
}

pub fn set_scale(k: u64) {
    let _g = WR.lock().unwrap();
    let r = real_ns();
    let v = to_virtual(r);
    SEQ.fetch_add(1, SeqCst);
    BASE_REAL.store(r, SeqCst);
    BASE_VIRT.store(v, SeqCst);
    SCALE.store(k, SeqCst);
    SEQ.fetch_add(1, SeqCst);
}

pub fn scale() -> u64 {
    SCALE.load(SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = raw(clk, ts);
    if r == 0 && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_BOOTTIME) {
        // one virtual time line for both clocks
        let v = virt_ns();
        (*ts).tv_sec = (v / NS) as libc::time_t;
        (*ts).tv_nsec = (v % NS) as libc::c_long;
    }
    r as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    epfd: libc::c_int,
    events: *mut libc::epoll_event,
    maxevents: libc::c_int,
    timeout: libc::c_int,
) -> libc::c_int {
    let k = SCALE.load(SeqCst) as i64;
    if timeout > 0 && k > 1 {
        // nanosecond time-outs where the kernel has them
        let ns = timeout as i64 * 1_000_000 / k;
        let ts = libc::timespec { tv_sec: ns / 1_000_000_000, tv_nsec: ns % 1_000_000_000 };
        let r = libc::syscall(441, epfd, events, maxevents, &ts as *const libc::timespec, std::ptr::null::<libc::sigset_t>(), 8usize);
        if r >= 0 {
            return r as libc::c_int;
        }
        if *libc::__errno_location() != libc::ENOSYS && *libc::__errno_location() != libc::EPERM {
            return -1;
        }
    }
    let t = if timeout > 0 && k > 1 { ((timeout as i64 + k - 1) / k) as libc::c_int } else { timeout };
    let r = libc::syscall(
        libc::SYS_epoll_pwait, epfd, events, maxevents, t, std::ptr::null::<libc::sigset_t>(), 8usize,
    );
    if r < 0 { -1 } else { r as libc::c_int }
}
