//! A task program whose behaviour is its argument list (see spec/TaskIO.tla), one operation per
//! argument; the last argument is the task's number. It tells the recorder ($XG_EV) when it starts
//! (S), what it reads (I id fd n ok eof) and when it is about to exit (E).
//!   r:FD:N  read N bytes      R:FD  read to the end      c:FD  close      n:MS  sleep
//!   w:FD:HEX  write bytes     W:FD:N:SEED  write N incompressible printable bytes
//!   L:FD:N:HEX  write bytes N times
//!   b:MS:FD:HEX  a background process writes this after a while, holding all descriptors
//!   x:N  exit    k:N  die of signal N    i  ignore SIGTERM
//!   h:N:MS  on SIGTERM: exit with N after a while    H  on SIGTERM: go on
//!   g:MODE:MS:DEPTH  a chain of background processes that run for MS; MODE: s own session, i ignore SIGTERM
//! With $XG_WEV set (see wk.rs) it also tells the time of each of these, and of signals (T) and
//! background processes (P, Q).
use std::io::Write;

static ID: std::sync::OnceLock<String> = std::sync::OnceLock::new();
static ONTERM: std::sync::Mutex<(i64, i64)> = std::sync::Mutex::new((0, 0));

fn stamped(s: String) {
    if let Ok(p) = std::env::var("XG_WEV") {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = f.write_all(format!("{} {}", t.tv_sec as i64 * 1_000_000 + t.tv_nsec as i64 / 1000, s).as_bytes());
        }
    }
}

/// a thread that waits for SIGTERM, which the other threads have blocked
fn term_thread() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigaddset(&mut set, libc::SIGTERM);
        libc::pthread_sigmask(libc::SIG_BLOCK, &set, std::ptr::null_mut());
        std::thread::spawn(move || loop {
            let mut n = 0;
            libc::sigwait(&set, &mut n);
            stamped(format!("T {} {}\n", ID.get().unwrap(), std::process::id()));
            let (st, ms) = *ONTERM.lock().unwrap();
            if st >= 0 {
                std::thread::sleep(std::time::Duration::from_millis(ms as u64));
                stamped(format!("E {} {} {}\n", ID.get().unwrap(), std::process::id(), st));
                libc::_exit(st as i32);
            }
        });
    });
}

unsafe fn background(mode: &str, ms: u64, depth: i64) {
    if libc::fork() == 0 {
        if mode.contains('s') {
            libc::setsid();
        }
        libc::signal(libc::SIGTERM, if mode.contains('i') { libc::SIG_IGN } else { libc::SIG_DFL });
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::pthread_sigmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
        for fd in 0..64 {
            libc::close(fd);
        }
        stamped(format!("P {} {}\n", ID.get().unwrap(), std::process::id()));
        if depth > 0 {
            background(mode, ms, depth - 1);
        }
        std::thread::sleep(std::time::Duration::from_millis(ms));
        stamped(format!("Q {} {}\n", ID.get().unwrap(), std::process::id()));
        libc::_exit(0);
    }
}

fn log(s: String) {
    stamped(match s.strip_prefix("S ") {
        Some(id) => format!("S {} {} {}\n", id.trim(), std::process::id(), std::env::var("EXECGRAPH_AUTHORIZATION_TOKEN").is_ok() as u8),
        None => match s.strip_prefix("E ") {
            Some(x) => format!("E {} {} {}\n", x.split(' ').next().unwrap(), std::process::id(), x.split(' ').nth(1).unwrap().trim()),
            None => s.clone(),
        },
    });
    if let Ok(p) = std::env::var("XG_EV") {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = f.write_all(s.as_bytes());
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn put(fd: i32, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            return;
        }
        off += n as usize;
    }
}

/// n printable bytes that do not compress well, determined by the seed
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            33 + ((x >> 24) % 90) as u8
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.last().unwrap().clone();
    ID.set(id.clone()).unwrap();
    for a in &args[1..args.len() - 1] {
        // what to do about signals holds from the beginning
        let p: Vec<&str> = a.split(':').collect();
        match p[0] {
            "h" => {
                *ONTERM.lock().unwrap() = (p[1].parse().unwrap(), p[2].parse().unwrap());
                term_thread();
            }
            "H" => {
                *ONTERM.lock().unwrap() = (-1, 0);
                term_thread();
            }
            "i" => unsafe {
                libc::signal(libc::SIGTERM, libc::SIG_IGN);
            },
            _ => (),
        }
    }
    log(format!("S {}\n", id));
    let mut pos: std::collections::HashMap<i32, usize> = Default::default();
    for a in &args[1..args.len() - 1] {
        let p: Vec<&str> = a.split(':').collect();
        let num = |i: usize| -> i64 { p[i].parse().unwrap() };
        match p[0] {
            "r" | "R" => {
                let fd = num(1) as i32;
                let seed: usize = id.parse().unwrap_or(0);
                let want = if p[0] == "R" { usize::MAX } else { num(2) as usize };
                let start = *pos.get(&fd).unwrap_or(&0);
                let mut n = 0usize;
                let mut ok = true;
                let mut eof = 0;
                let mut buf = vec![0u8; 65536];
                while n < want {
                    let k = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len().min(want - n)) };
                    if k < 0 {
                        ok = false;
                        break;
                    }
                    if k == 0 {
                        eof = 1;
                        break;
                    }
                    for j in 0..k as usize {
                        let i = start + n + j;
                        if buf[j] != (i.wrapping_mul(31).wrapping_add(seed + i / 256) % 251) as u8 {
                            ok = false;
                        }
                    }
                    n += k as usize;
                }
                pos.insert(fd, start + n);
                log(format!("I {} {} {} {} {}\n", id, fd, n, ok as u8, eof));
            }
            "c" => unsafe {
                libc::close(num(1) as i32);
            },
            "n" => std::thread::sleep(std::time::Duration::from_millis(num(1) as u64)),
            "w" => put(num(1) as i32, &unhex(p[2])),
            "W" => put(num(1) as i32, &noise(num(2) as usize, num(3) as u64)),
            "L" => put(num(1) as i32, &unhex(p[3]).repeat(num(2) as usize)),
            "b" => unsafe {
                if libc::fork() == 0 {
                    libc::usleep(num(1) as u32 * 1000);
                    put(num(2) as i32, &unhex(p[3]));
                    libc::_exit(0);
                }
            },
            "h" | "H" | "i" => (),
            "g" => unsafe { background(p[1], num(2) as u64, num(3)) },
            "x" => {
                log(format!("E {} {}\n", id, p[1]));
                std::process::exit(num(1) as i32);
            }
            "k" => {
                log(format!("E {} -{}\n", id, p[1]));
                unsafe {
                    libc::signal(num(1) as i32, libc::SIG_DFL);
                    libc::kill(libc::getpid(), num(1) as i32);
                }
                std::thread::sleep(std::time::Duration::from_secs(5));
            }
            x => {
                eprintln!("tio: unknown operation {}", x);
                std::process::exit(99);
            }
        }
    }
    log(format!("E {} 0\n", id));
}
