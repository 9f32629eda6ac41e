mod driver;
mod ev;
mod http;
mod vclock;
use driver::{Drv, WState};
use pyo3::prelude::*;
use pyo3::types::{PyBytes, PyDict};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use execgraph::pylib::execgraph as execgraph_module;

static SCRATCH: Mutex<String> = Mutex::new(String::new());
static DEADLINE: AtomicU64 = AtomicU64::new(u64::MAX); // real ms
static KEEP_OUT: AtomicBool = AtomicBool::new(false);
static RESULT_FD: AtomicU64 = AtomicU64::new(1);
static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static LOGPATH: Mutex<String> = Mutex::new(String::new());

pub fn scratch(name: &str) -> String {
    format!("{}/{}", SCRATCH.lock().unwrap(), name)
}

struct Cb {
    kind: u8,
    task: usize,
}
extern "C" fn c_callback(ctx: *const std::ffi::c_void, success: u32, runcount: u32, _sig: u32, ntasks: u64) -> i32 {
    let cb = unsafe { &*(ctx as *const Cb) };
    driver::callback(cb.kind, cb.task, success, runcount, ntasks);
    0
}

fn capsule(py: Python, kind: u8, task: usize) -> PyObject {
    unsafe {
        let f = c_callback as *const () as *mut std::ffi::c_void;
        let cap = pyo3::ffi::PyCapsule_New(f, b"Execgraph::Capsule-v3\0".as_ptr() as *const _, None);
        let ctx = Box::into_raw(Box::new(Cb { kind, task }));
        pyo3::ffi::PyCapsule_SetContext(cap, ctx as *mut _);
        PyObject::from_owned_ptr(py, cap)
    }
}

fn reply(v: &Value) {
    let mut s = v.to_string();
    s.push('\n');
    let fd = RESULT_FD.load(SeqCst) as i32;
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            unsafe { libc::_exit(3) };
        }
        off += n as usize;
    }
}

fn collect(id: &str, hang: bool) -> Value {
    let read = |n: &str| -> Vec<String> {
        std::fs::read(scratch(n)).map(|b| String::from_utf8_lossy(&b).lines().map(|s| s.to_string()).collect()).unwrap_or_default()
    };
    json!({"id": id, "hang": hang, "ev": read("events"), "log": read("wrk.log"), "out": if KEEP_OUT.load(SeqCst) { read("log.txt") } else { vec![] }})
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if driver::real_ms() > DEADLINE.load(SeqCst) {
            ev::emit(json!({"e":"hang"}));
            let id = CURRENT.lock().unwrap().clone();
            reply(&collect(&id, true));
            unsafe {
                libc::signal(libc::SIGTERM, libc::SIG_IGN);
                libc::kill(0, libc::SIGTERM); // our own process group: local task processes
                libc::_exit(7);
            }
        }
    });
}

fn run_scenario(py: Python, scn: &Value) -> PyResult<()> {
    let module = py.import("execgraph")?;
    let tasks = scn["tasks"].as_array().unwrap();
    let log = scratch("wrk.log");
    *LOGPATH.lock().unwrap() = log.clone();
    let mut g: Option<PyObject> = None;
    let mut nadd = 0usize;
    let mut ids: Vec<Option<u32>> = vec![None; tasks.len()];
    let mut exec_no = 0;
    for step in scn["steps"].as_array().unwrap() {
        // one pool per step, so that a closed session is really released at the close step
        let pool = unsafe { py.new_pool() };
        let py = pool.python();
        match step["op"].as_str().unwrap() {
            "open" => {
                g = None;
                nadd = 0;
                ids = vec![None; tasks.len()];
                let kw = PyDict::new(py);
                kw.set_item("failures_allowed", step["failures"].as_u64().unwrap_or(1))?;
                kw.set_item("rerun_failures", step["rerun"].as_bool().unwrap_or(true))?;
                if let Some(r) = step.get("roots").and_then(|x| x.as_array()) {
                    let v: Vec<String> = r.iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    kw.set_item("storage_roots", v)?;
                }
                if let Some(k) = step.get("key").and_then(|x| x.as_str()) {
                    let f = py.eval(&format!("lambda: {:?}", k), None, None)?;
                    kw.set_item("newkeyfn", f)?;
                }
                let par = step["par"].as_i64().unwrap_or(0);
                let path = step.get("log").and_then(|x| x.as_str()).map(|s| scratch(s)).unwrap_or(log.clone());
                match module.getattr("ExecGraph")?.call((par, path), Some(kw)) {
                    Ok(o) => {
                        let roots: Vec<std::path::PathBuf> = o.call_method0("all_storage_roots")?.extract()?;
                        let wk: String = o.call_method0("key")?.extract()?;
                        let mut rcs = vec![];
                        let mut dirs = vec![];
                        for t in tasks {
                            let (rc, dir): (u32, Option<std::path::PathBuf>) =
                                o.call_method1("logfile_runcount", (t["key"].as_str().unwrap(),))?.extract()?;
                            rcs.push(rc);
                            dirs.push(dir.map(|d| d.to_string_lossy().to_string()));
                        }
                        ev::emit(json!({"e":"open","ok":true,"rc":rcs,"dirs":dirs,"wk":wk,"roots":roots,"pid":std::process::id(),"fa":step["failures"].as_u64().unwrap_or(1),"rerun":step["rerun"].as_bool().unwrap_or(true),"par":par}));
                        g = Some(o.into_py(py));
                    }
                    Err(e) => {
                        ev::emit(json!({"e":"open","ok":false,"err":e.to_string()}));
                    }
                }
            }
            "add" => {
                let Some(o) = g.as_ref() else { continue };
                let upto = step["upto"].as_u64().map(|x| x as usize).unwrap_or(tasks.len());
                while nadd < upto {
                    let t = &tasks[nadd];
                    let id1 = nadd + 1;
                    let kw = PyDict::new(py);
                    let deps: Vec<u32> = t["deps"].as_array().unwrap().iter().filter_map(|d| ids[d.as_u64().unwrap() as usize]).collect();
                    kw.set_item("dependencies", deps)?;
                    kw.set_item("affinity", t["aff"].as_u64().unwrap_or(1))?;
                    if let Some(d) = t.get("display").and_then(|x| x.as_str()) {
                        kw.set_item("display", d)?;
                    }
                    if let Some(sr) = t.get("storage_root").and_then(|x| x.as_u64()) {
                        kw.set_item("storage_root", sr)?;
                    }
                    if let Some(fi) = t.get("fd_input").and_then(|x| x.as_array()) {
                        let n = fi[1].as_u64().unwrap() as usize;
                        let seed = fi[2].as_u64().unwrap_or(0) as usize;
                        let bytes: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(31).wrapping_add(seed + i / 256) % 251) as u8).collect();
                        kw.set_item("fd_input", (fi[0].as_i64().unwrap(), PyBytes::new(py, &bytes)))?;
                    }
                    if t["hooks"].as_bool().unwrap_or(true) {
                        kw.set_item("preamble", capsule(py, 0, id1))?;
                        kw.set_item("postamble", capsule(py, 1, id1))?;
                    }
                    let cmd: Vec<String> = match t.get("cmd").and_then(|x| x.as_array()) {
                        Some(c) => c.iter().map(|x| x.as_str().unwrap().to_string()).chain(if t["noid"].as_bool().unwrap_or(false) { None } else { Some(id1.to_string()) }).collect(),
                        None => vec!["t".to_string(), id1.to_string()],
                    };
                    let r = o.as_ref(py).call_method("add_task", (cmd, t["key"].as_str().unwrap()), Some(kw));
                    match r {
                        Ok(v) => ids[nadd] = Some(v.extract()?),
                        Err(e) => ev::emit(json!({"e":"adderr","t":id1,"err":e.to_string()})),
                    }
                    nadd += 1;
                }
                let nt: usize = o.as_ref(py).call_method0("ntasks")?.extract()?;
                let keys: Vec<String> = o.as_ref(py).call_method0("task_keys")?.extract()?;
                ev::emit(json!({"e":"added","upto":upto,"n":nt,"keys":keys,"ids":ids[..upto].iter().map(|x| x.map(|v| v as i64).unwrap_or(-1)).collect::<Vec<_>>()}));
            }
            "addraw" => {
                // a single add_task with arbitrary arguments; records the outcome and the state after it
                let Some(o) = g.as_ref() else { continue };
                let kw = PyDict::new(py);
                let deps: Vec<u32> = step["deps"].as_array().unwrap().iter().map(|d| d.as_u64().unwrap() as u32).collect();
                kw.set_item("dependencies", deps.clone())?;
                kw.set_item("affinity", step["aff"].as_u64().unwrap_or(1))?;
                let cmd: Vec<String> = step["cmd"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let r = o.as_ref(py).call_method("add_task", (cmd.clone(), step["key"].as_str().unwrap()), Some(kw));
                let (id, err) = match r {
                    Ok(v) => (v.extract::<i64>()?, String::new()),
                    Err(e) => (-1, e.get_type(py).name()?.to_string()),
                };
                let nt: usize = o.as_ref(py).call_method0("ntasks")?.extract()?;
                let keys: Vec<String> = o.as_ref(py).call_method0("task_keys")?.extract()?;
                let mut cmds = vec![];
                for i in 0..nt {
                    let t = o.as_ref(py).call_method1("get_task", (i,))?;
                    cmds.push(t.get_item(0)?.extract::<Vec<String>>()?);
                }
                let oob = o.as_ref(py).call_method1("get_task", (nt,)).is_err();
                ev::emit(json!({"e":"addraw","key":step["key"],"deps":deps,"ncmd":cmd.len(),"cmd":cmd.join(" "),"id":id,"err":err,"n":nt,"keys":keys,"cmds":cmds.iter().map(|c| c.join(" ")).collect::<Vec<_>>(),"oob":oob}));
            }
            "exec" => {
                let Some(o) = g.as_ref() else { continue };
                exec_no += 1;
                driver::shared_reset();
                let remote = step["remote"].as_bool().unwrap_or(true);
                let target = step["target"].as_i64().unwrap_or(-1);
                let kw = PyDict::new(py);
                let mut tgt = 0i64;
                if target >= 0 {
                    kw.set_item("target", ids[target as usize].unwrap())?;
                    tgt = target + 1;
                }
                kw.set_item("ratelimit_per_second", step["rate"].as_u64().unwrap_or(0))?;
                if let Some(i) = step.get("info").and_then(|x| x.as_str()) {
                    kw.set_item("remote_provisioner_info", i)?;
                }
                let done = Arc::new(AtomicBool::new(false));
                // real workers, started by the provisioner over and over again
                let workers: Vec<u64> = step.get("workers").and_then(|x| x.as_array()).map(|v| v.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
                if !workers.is_empty() {
                    let prov = scratch(&format!("prov{}.sh", exec_no));
                    let me = std::env::current_exe().unwrap();
                    let bin = me.parent().unwrap().join("execgraph-remote");
                    let mut w = String::from("#!/bin/sh\n");
                    for q in &workers {
                        w.push_str(&format!("( while :; do '{}' \"$1\" {} </dev/null >/dev/null 2>&1; sleep 0.2; done ) &\n", bin.display(), q));
                    }
                    w.push_str("wait\n");
                    std::fs::write(&prov, w).unwrap();
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&prov, std::fs::Permissions::from_mode(0o755)).unwrap();
                    kw.set_item("remote_provisioner_cmd", prov)?;
                }
                let urlfile = scratch(&format!("url{}-{}", std::process::id(), exec_no));
                let _ = std::fs::remove_file(scratch("prov.exit"));
                if remote {
                    let prov = scratch(&format!("prov{}.sh", exec_no));
                    let w = format!(
                        "#!/bin/sh\nprintf '%s %s\\n' \"$1\" \"$EXECGRAPH_AUTHORIZATION_TOKEN\" > {u}.tmp\nmv {u}.tmp {u}\n{wait}\n",
                        u = urlfile,
                        wait = if step["provexit"].as_bool().unwrap_or(false) {
                            format!("while [ ! -e {} ]; do sleep 0.01; done; exit 0", scratch("prov.exit"))
                        } else {
                            "exec sleep 1000".to_string()
                        }
                    );
                    std::fs::write(&prov, w).unwrap();
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&prov, std::fs::Permissions::from_mode(0o755)).unwrap();
                    kw.set_item("remote_provisioner_cmd", prov)?;
                }
                let deps: Vec<Vec<usize>> = tasks.iter().map(|t| t["deps"].as_array().unwrap().iter().map(|d| d.as_u64().unwrap() as usize + 1).collect()).collect();
                let aff: Vec<u64> = tasks.iter().map(|t| t["aff"].as_u64().unwrap_or(1)).collect();
                let outcome: Vec<i64> = step.get("outcome").and_then(|x| x.as_array()).map(|v| v.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or(vec![0; tasks.len()]);
                let ops = step["ops"].as_array().cloned().unwrap_or_default();
                let finish = step["finish"].clone();
                let sel = step.get("sel").and_then(|x| x.as_array()).map(|v| v.iter().map(|x| x.as_u64().unwrap() as usize).collect());
                vclock::set_scale(step["scale"].as_u64().unwrap_or(1));
                ev::emit(json!({"e":"exec","target":tgt,"remote":remote,"rate":step["rate"].as_u64().unwrap_or(0)}));
                let done2 = done.clone();
                let drv = std::thread::spawn(move || {
                    let mut addr = None;
                    if remote {
                        while !done2.load(SeqCst) {
                            if let Ok(s) = std::fs::read_to_string(&urlfile) {
                                let mut it = s.split_whitespace();
                                let url = it.next().unwrap_or("").trim_start_matches("http://").replace("0.0.0.0", "127.0.0.1");
                                addr = Some((url, it.next().unwrap_or("").to_string()));
                                break;
                            }
                            std::thread::sleep(std::time::Duration::from_micros(500));
                        }
                    }
                    if remote && addr.is_none() {
                        return;
                    }
                    let (addr, token) = addr.unwrap_or_default();
                    let d = Arc::new(Drv {
                        addr, token, done: done2.clone(), call: AtomicU64::new(1),
                        ws: Mutex::new(HashMap::<String, Arc<Mutex<WState>>>::new()),
                        threads: Mutex::new(vec![]), outcome, deps, aff, sel,
                        txmap: Mutex::new(HashMap::new()), etag: Mutex::new(0),
                    });
                    d.run_ops(&ops);
                    // finish: release all gates, end what is held, then let automatic workers drain the queues
                    if let Some(s) = driver::SHARED.lock().unwrap().as_mut() {
                        s.armed.clear();
                    }
                    if let Some(qs) = finish.as_array() {
                        let names: Vec<String> = d.ws.lock().unwrap().keys().cloned().collect();
                        for n in names {
                            let w = d.ws.lock().unwrap()[&n].clone();
                            let g = w.lock().unwrap();
                            if !g.pending && g.hold.is_some() {
                                let q = qs[0].as_u64().unwrap();
                                let me = d.clone();
                                drop(g);
                                let h = std::thread::spawn(move || me.auto(&n, q, 0));
                                d.threads.lock().unwrap().push(h);
                            } else if g.pending {
                                // parked: complete whatever it may be given
                                let me = d.clone();
                                let w2 = w.clone();
                                drop(g);
                                let q = qs[0].as_u64().unwrap();
                                let h = std::thread::spawn(move || {
                                    while w2.lock().unwrap().pending {
                                        std::thread::sleep(std::time::Duration::from_millis(1));
                                    }
                                    let has = w2.lock().unwrap().hold.is_some();
                                    if has {
                                        me.auto(&n, q, 0);
                                    }
                                });
                                d.threads.lock().unwrap().push(h);
                            }
                        }
                        for (i, q) in qs.iter().enumerate() {
                            let me = d.clone();
                            let q = q.as_u64().unwrap();
                            let h = std::thread::spawn(move || me.auto(&format!("fin{}", i), q, 0));
                            d.threads.lock().unwrap().push(h);
                        }
                    }
                    d.join();
                });
                let o2 = o.clone();
                let r = o2.as_ref(py).call_method("execute", (), Some(kw));
                let nlog = std::fs::read(&log).map(|b| b.iter().filter(|c| **c == b'\n').count()).unwrap_or(0);
                match r {
                    Ok(v) => {
                        let (nf, order): (u32, Vec<String>) = v.extract()?;
                        ev::emit(json!({"e":"xret","nf":nf,"order":order,"ln":nlog}));
                    }
                    Err(e) => ev::emit(json!({"e":"xerr","err":e.to_string(),"ln":nlog})),
                }
                done.store(true, SeqCst);
                vclock::set_scale(1);
                py.allow_threads(|| {
                    let _ = drv.join();
                });
                if let Some(ms) = step["after_ms"].as_u64() {
                    std::thread::sleep(std::time::Duration::from_millis(ms));
                }
                ev::emit(json!({"e":"xdone"}));
            }
            "close" => {
                g = None;
                let nlog = std::fs::read(&log).map(|b| b.iter().filter(|c| **c == b'\n').count()).unwrap_or(0);
                ev::emit(json!({"e":"close","ln":nlog,"lock":std::path::Path::new(&scratch(".wrk.lock")).exists()}));
            }
            "kill" => {
                // crash: no destructor runs. The session object is leaked, the process exits.
                ev::emit(json!({"e":"kill"}));
                die();
            }
            "cut" => {
                // the log as a crash may have left it: first `n` bytes (negative: from the end)
                let b = std::fs::read(&log).unwrap_or_default();
                let n = step["n"].as_i64().unwrap();
                let n = if n < 0 { (b.len() as i64 + n).max(0) as usize } else { (n as usize).min(b.len()) };
                std::fs::write(&log, &b[..n]).unwrap();
                let ln = b[..n].iter().filter(|c| **c == b'\n').count();
                let tail = b[..n].rsplit(|c| *c == b'\n').next().unwrap_or(&[]).to_vec();
                let whole = !tail.is_empty() && serde_json::from_slice::<Value>(&tail).is_ok();
                ev::emit(json!({"e":"cut","n":n,"of":b.len(),"ln":ln,"tail":tail.len(),"whole":whole}));
            }
            "write" => {
                // replace the log by given text
                std::fs::write(&log, step["text"].as_str().unwrap()).unwrap();
                ev::emit(json!({"e":"write"}));
            }
            "load" => {
                let path = step.get("log").and_then(|x| x.as_str()).map(|s| scratch(s)).unwrap_or(log.clone());
                load(py, &path)?;
            }
            x => panic!("unknown step {}", x),
        }
    }
    drop(g);
    ev::emit(json!({"e":"eos"}));
    Ok(())
}

/// everything load_logfile says about a log, and the log itself
pub fn load(py: Python, path: &str) -> PyResult<()> {
    let module = py.import("execgraph")?;
    let dumps = py.import("json")?.getattr("dumps")?;
    let mut out = vec![];
    let mut same = false;
    let mut raw = vec![];
    for _ in 0..20 {
        let before = std::fs::read(path).unwrap_or_default();
        out.clear();
        for mode in ["all", "current", "outdated", "current,outdated"] {
            match module.getattr("load_logfile")?.call1((path, mode)) {
                Ok(v) => {
                    let s: String = dumps.call1((v,))?.extract()?;
                    out.push(serde_json::from_str::<Value>(&s).unwrap());
                }
                Err(e) => out.push(json!({"err": e.to_string()})),
            }
        }
        raw = std::fs::read(path).unwrap_or_default();
        same = raw == before;
        if same {
            break;
        }
    }
    ev::emit(json!({"e":"load","all":out[0],"cur":out[1],"old":out[2],"both":out[3],"same":same,"raw":String::from_utf8_lossy(&raw)}));
    Ok(())
}

pub fn die() -> ! {
    let id = CURRENT.lock().unwrap().clone();
    reply(&collect(&id, false));
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
        libc::_exit(9)
    }
}

fn worker() {
    // results go to a private copy of stdout; what the code under test prints goes to /dev/null
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 50);
        RESULT_FD.store(fd as u64, SeqCst);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 1);
        if std::env::var("XG_STDERR").is_err() {
            libc::dup2(null, 2);
        }
        // execute() signals its whole process group: make that our own
        if libc::setsid() < 0 && libc::getpgrp() != libc::getpid() {
            libc::setpgid(0, 0);
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ev::emit(json!({"e":"panic","msg":msg,"loc":loc}));
        if std::env::var("XG_STDERR").is_ok() {
            eprintln!("PANIC {} {}", loc, info);
        }
    }));
    watchdog();
    pyo3::append_to_inittab!(execgraph_module);
    pyo3::prepare_freethreaded_python();
    let base = std::env::var("XG_SCRATCH").expect("XG_SCRATCH");
    let stdin = std::io::stdin();
    let mut n = 0u64;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let scn: Value = serde_json::from_str(&line).unwrap();
        n += 1;
        let dir = match scn.get("dir").and_then(|x| x.as_str()) {
            Some(d) => d.to_string(),
            None => format!("{}/s{}-{}", base, std::process::id(), n),
        };
        std::fs::create_dir_all(&dir).unwrap();
        *SCRATCH.lock().unwrap() = dir.clone();
        KEEP_OUT.store(scn["out"].as_bool().unwrap_or(false), SeqCst);
        let id = scn["id"].as_str().unwrap_or("").to_string();
        *CURRENT.lock().unwrap() = id.clone();
        ev::open(&scratch("events"));
        std::env::set_var("XG_EV", scratch("events"));
        std::env::set_var("XG_DIR", &dir);
        DEADLINE.store(driver::real_ms() + scn["limit_ms"].as_u64().unwrap_or(40000), SeqCst);
        let res = Python::with_gil(|py| run_scenario(py, &scn).map_err(|e| e.to_string()));
        DEADLINE.store(u64::MAX, SeqCst);
        if let Err(e) = res {
            ev::emit(json!({"e":"error","err":e}));
        }
        reply(&collect(&id, false));
        if scn.get("dir").is_none() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(),
        _ => {
            eprintln!("usage: xg worker");
            std::process::exit(2);
        }
    }
}
