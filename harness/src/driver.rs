//! The driver of one execute(): a set of virtual remote workers, pollers and administrators that
//! carry out a schedule against the real HTTP interface and record every call and return.
use crate::{ev, http, vclock};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn real_sleep(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms)); // clock_nanosleep: real time
}
/// deadline on the real clock (Instant is virtual in this process)
pub fn real_ms() -> u64 {
    vclock::real_ns() / 1_000_000
}

#[derive(Default, Clone, Debug)]
pub struct Hold {
    pub tx: u32,
    pub task: usize,
    pub begun: bool,
}

#[derive(Default)]
pub struct WState {
    pub pending: bool,
    pub pq: Option<u64>, // the queue the pending request waits for
    pub hold: Option<Hold>,
    pub prev: Option<Hold>,
    pub last_code: i32,
    pub jid: String,
}

/// Facts about the run shared with the preamble/postamble callbacks.
pub struct Shared {
    pub claimed: HashSet<usize>, // tasks whose preamble has run in this execute()
    pub ended: HashMap<usize, i64>,
    pub armed: HashSet<(u8, usize)>,
    pub at_gate: HashSet<(u8, usize)>,
}
pub static SHARED: Mutex<Option<Shared>> = Mutex::new(None);
pub static GATE: Condvar = Condvar::new();

pub fn shared_reset() {
    *SHARED.lock().unwrap() = Some(Shared { claimed: HashSet::new(), ended: HashMap::new(), armed: HashSet::new(), at_gate: HashSet::new() });
    GATE.notify_all();
}

/// Called from the C callbacks; kind 0 = preamble, 1 = postamble.
pub fn callback(kind: u8, task: usize, success: u32, runcount: u32, ntasks: u64) {
    if kind == 0 {
        ev::emit(json!({"e":"pre","t":task}));
    } else {
        ev::emit(json!({"e":"post","t":task,"ok":success,"rc":runcount,"n":ntasks}));
    }
    let mut g = SHARED.lock().unwrap();
    if let Some(s) = g.as_mut() {
        if kind == 0 {
            s.claimed.insert(task);
        }
        if s.armed.contains(&(kind, task)) {
            s.at_gate.insert((kind, task));
            GATE.notify_all();
            let end = real_ms() + 8000;
            loop {
                match g.as_ref() {
                    Some(s) if s.armed.contains(&(kind, task)) && real_ms() < end => {}
                    _ => break,
                }
                // pthread_cond_timedwait on the interposed clock could return late or early: poll
                drop(g);
                std::thread::sleep(Duration::from_millis(1));
                g = SHARED.lock().unwrap();
            }
            if let Some(s) = g.as_mut() {
                s.at_gate.remove(&(kind, task));
            }
        }
    }
}

pub struct Drv {
    pub addr: String,
    pub token: String,
    pub done: Arc<AtomicBool>, // execute() has returned
    pub call: AtomicU64,
    pub ws: Mutex<HashMap<String, Arc<Mutex<WState>>>>,
    pub threads: Mutex<Vec<std::thread::JoinHandle<()>>>,
    pub outcome: Vec<i64>,
    pub deps: Vec<Vec<usize>>,
    pub aff: Vec<u64>,
    pub sel: Option<HashSet<usize>>,
    pub txmap: Mutex<HashMap<u32, usize>>,
    pub etag: Mutex<u64>,
}

fn sock_path() -> String {
    unsafe { format!("/run/user/{}/wrk-{}.sock", libc::getuid(), std::process::id()) }
}

/// complete lines in the log file at this moment
fn loglines() -> usize {
    std::fs::read(crate::scratch("wrk.log")).map(|b| b.iter().filter(|c| **c == b'\n').count()).unwrap_or(0)
}

impl Drv {
    fn next(&self) -> u64 {
        self.call.fetch_add(1, SeqCst)
    }
    fn txi(&self, tx: u32) -> usize {
        let mut m = self.txmap.lock().unwrap();
        let n = m.len() + 1;
        *m.entry(tx).or_insert(n)
    }
    fn w(&self, name: &str) -> Arc<Mutex<WState>> {
        self.ws
            .lock()
            .unwrap()
            .entry(name.to_string())
            .or_insert_with(|| Arc::new(Mutex::new(WState { jid: format!("job_{}", name), ..Default::default() })))
            .clone()
    }
    fn headers(&self, opt: &Value, jid: &str) -> Vec<(String, String)> {
        let mut h = vec![("Content-Type".to_string(), "application/json".to_string())];
        match opt.get("auth").and_then(|x| x.as_str()) {
            Some("none") => {}
            Some(s) => h.push(("Authorization".into(), format!("Bearer {}", s))),
            None => h.push(("Authorization".into(), format!("Bearer {}", self.token))),
        }
        match opt.get("jid").and_then(|x| x.as_str()) {
            Some("none") => {}
            Some(s) => h.push(("X-EXECGRAPH-SLURM-JOB-ID".into(), s.to_string())),
            None => h.push(("X-EXECGRAPH-SLURM-JOB-ID".into(), jid.to_string())),
        }
        h
    }
    /// (authorised, job id sent or "none")
    fn optinfo(&self, opt: &Value, jid: &str) -> (bool, String) {
        (
            opt.get("auth").is_none(),
            opt.get("jid").and_then(|x| x.as_str()).unwrap_or(jid).to_string(),
        )
    }

    fn took(&self, name: &str, r: &http::StartResponse) -> (usize, usize) {
        let task: usize = r.cmdline.last().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()).unwrap_or(0);
        let txi = self.txi(r.transaction_id);
        if let Some(s) = SHARED.lock().unwrap().as_mut() {
            s.claimed.insert(task);
        }
        let w = self.w(name);
        let mut g = w.lock().unwrap();
        if let Some(h) = g.hold.take() {
            g.prev = Some(h);
        }
        g.hold = Some(Hold { tx: r.transaction_id, task, begun: false });
        (task, txi)
    }

    pub fn do_start(&self, name: &str, q: u64, opt: &Value) -> i32 {
        let w = self.w(name);
        let jid = {
            let mut g = w.lock().unwrap();
            g.pending = true;
            g.jid.clone()
        };
        let c = self.next();
        let (auth, j) = self.optinfo(opt, &jid);
        ev::emit(json!({"e":"scall","c":c,"w":name,"q":q,"auth":auth,"jid":j}));
        let body = json!({"runnertypeid":q,"disconnect_error_message":format!("lost {}", name)}).to_string();
        let r = http::tcp(&self.addr, "GET", "/start", &self.headers(opt, &jid), body.as_bytes(), Duration::from_secs(100));
        let (code, t, tx) = match r {
            Ok(rep) if rep.code == 200 => match http::decode::<http::StartResponse>(&rep) {
                Ok(sr) => {
                    let (t, x) = self.took(name, &sr);
                    (200, t, x)
                }
                Err(e) => {
                    ev::emit(json!({"e":"note","msg":e}));
                    (-2, 0, 0)
                }
            },
            Ok(rep) => (rep.code, 0, 0),
            Err(_) => (-1, 0, 0),
        };
        ev::emit(json!({"e":"sret","c":c,"w":name,"code":code,"t":t,"tx":tx}));
        let mut g = w.lock().unwrap();
        g.last_code = code;
        g.pending = false;
        code
    }

    /// resolve which transaction a request should name
    fn target(&self, name: &str, opt: &Value) -> Option<Hold> {
        let w = self.w(name);
        let g = w.lock().unwrap();
        match opt.get("tx").and_then(|x| x.as_str()) {
            Some("bad") => Some(Hold { tx: 0xDEAD_0000 + (self.call.load(SeqCst) as u32 & 0xfff), task: 0, begun: false }),
            Some("prev") => g.prev.clone(),
            Some(other) => {
                drop(g);
                let o = self.w(other);
                let g = o.lock().unwrap();
                g.hold.clone().or(g.prev.clone())
            }
            None => g.hold.clone(),
        }
    }

    pub fn do_begun(&self, name: &str, opt: &Value) -> i32 {
        let Some(h) = self.target(name, opt) else { return -3 };
        let w = self.w(name);
        let jid = w.lock().unwrap().jid.clone();
        let c = self.next();
        let (auth, j) = self.optinfo(opt, &jid);
        let host = format!("host-{}", name);
        let pid = 1000 + h.task as u32;
        let own = opt.get("tx").is_none();
        let tx = if opt.get("tx").and_then(|x| x.as_str()) == Some("bad") { 0 } else { self.txi(h.tx) };
        ev::emit(json!({"e":"bcall","c":c,"w":name,"tx":tx,"auth":auth,"jid":j,"host":host,"pid":pid}));
        let body = json!({"transaction_id":h.tx,"host":host,"pid":pid}).to_string();
        let code = match http::tcp(&self.addr, "POST", "/begun", &self.headers(opt, &jid), body.as_bytes(), Duration::from_secs(100)) {
            Ok(r) => r.code,
            Err(_) => -1,
        };
        ev::emit(json!({"e":"bret","c":c,"w":name,"code":code}));
        if own && code == 200 {
            if let Some(hh) = w.lock().unwrap().hold.as_mut() {
                hh.begun = true;
            }
        }
        code
    }

    pub fn do_end(&self, name: &str, status: i64, start_q: Option<u64>, opt: &Value) -> i32 {
        let Some(h) = self.target(name, opt) else { return -3 };
        let w = self.w(name);
        let jid = {
            let mut g = w.lock().unwrap();
            g.pending = true;
            g.jid.clone()
        };
        let c = self.next();
        let (auth, j) = self.optinfo(opt, &jid);
        let own = opt.get("tx").is_none();
        let values = opt.get("values").cloned().unwrap_or(json!([]));
        let tx = if opt.get("tx").and_then(|x| x.as_str()) == Some("bad") { 0 } else { self.txi(h.tx) };
        ev::emit(json!({"e":"ecall","c":c,"w":name,"tx":tx,"s":status,"auth":auth,"jid":j,"q":start_q.map(|x| x as i64).unwrap_or(-1),"vals":values}));
        let mut body = json!({"transaction_id":h.tx,"status":status,"stdout":"","stderr":"","values":values,"start_request":null});
        if let Some(q) = start_q {
            body["start_request"] = json!({"runnertypeid":q,"disconnect_error_message":format!("lost {}", name)});
        }
        // the driver's own model: mark the task ended before the request leaves
        if own && auth && opt.get("jid").is_none() {
            if let Some(s) = SHARED.lock().unwrap().as_mut() {
                s.ended.entry(h.task).or_insert(status);
            }
        }
        let r = http::tcp(&self.addr, "POST", "/end", &self.headers(opt, &jid), body.to_string().as_bytes(), Duration::from_secs(100));
        let (mut code, mut t2, mut tx2) = (-1, 0, 0);
        let mut newhold = false;
        match r {
            Ok(rep) => {
                code = rep.code;
                if code == 200 {
                    match http::decode::<http::EndResponse>(&rep) {
                        Ok(er) => {
                            if let Some(sr) = er.start_response {
                                let (t, x) = self.took(name, &sr);
                                t2 = t;
                                tx2 = x;
                                newhold = true;
                            }
                        }
                        Err(e) => {
                            ev::emit(json!({"e":"note","msg":e}));
                            code = -2;
                        }
                    }
                }
            }
            Err(_) => {}
        }
        ev::emit(json!({"e":"eret","c":c,"w":name,"code":code,"t":t2,"tx":tx2}));
        let mut g = w.lock().unwrap();
        if own && !newhold {
            // the transaction is over, unless the request was refused before it reached the task
            if code == 200 || (code == 404 && opt.get("jid").is_none()) || code == 410 || code == 429 || code == -1 {
                if let Some(h) = g.hold.take() {
                    g.prev = Some(h);
                }
            }
        }
        g.last_code = code;
        g.pending = false;
        code
    }

    pub fn do_ping(&self, name: &str, opt: &Value) -> i32 {
        let Some(h) = self.target(name, opt) else { return -3 };
        let w = self.w(name);
        let jid = w.lock().unwrap().jid.clone();
        let c = self.next();
        let (auth, _) = self.optinfo(opt, &jid);
        let tx = if opt.get("tx").and_then(|x| x.as_str()) == Some("bad") { 0 } else { self.txi(h.tx) };
        ev::emit(json!({"e":"pcall","c":c,"w":name,"tx":tx,"auth":auth}));
        let body = json!({"transaction_id":h.tx}).to_string();
        let code = match http::tcp(&self.addr, "POST", "/ping", &self.headers(opt, &jid), body.as_bytes(), Duration::from_secs(100)) {
            Ok(r) => r.code,
            Err(_) => -1,
        };
        ev::emit(json!({"e":"pret","c":c,"w":name,"code":code}));
        code
    }

    pub fn do_mark(&self, jids: &[String], opt: &Value) {
        let c = self.next();
        let (auth, _) = self.optinfo(opt, "");
        ev::emit(json!({"e":"mcall","c":c,"jids":jids,"auth":auth}));
        let body = json!({"jobids":jids}).to_string();
        let r = http::tcp(&self.addr, "POST", "/mark-slurm-job-cancelation", &self.headers(opt, "none"), body.as_bytes(), Duration::from_secs(100));
        let (code, got) = match r {
            Ok(rep) => (rep.code, serde_json::from_slice::<Value>(&rep.body).ok().map(|v| v["jobids"].clone()).unwrap_or(json!([]))),
            Err(_) => (-1, json!([])),
        };
        ev::emit(json!({"e":"mret","c":c,"code":code,"jids":got}));
    }

    fn admin(&self, what: &str, path: &str, body: Value) -> Option<Value> {
        let c = self.next();
        ev::emit(json!({"e":"acall","c":c,"what":what,"arg":body.clone()}));
        // the admin socket may come up a little after the main server
        let end = real_ms() + 3000;
        let mut code = -1;
        let mut val = None;
        while real_ms() < end && !self.done.load(SeqCst) {
            match http::unix(&sock_path(), "POST", path, body.to_string().as_bytes(), Duration::from_secs(100)) {
                Ok(r) => {
                    code = r.code;
                    val = serde_json::from_slice(&r.body).ok();
                    break;
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::NotFound | std::io::ErrorKind::ConnectionRefused) => real_sleep(2),
                Err(_) => break,
            }
        }
        ev::emit(json!({"e":"aret","c":c,"what":what,"code":code}));
        val
    }

    pub fn status_raw(&self, req: &Value) -> Result<Value, i32> {
        let mut h = vec![];
        let body = if req.is_null() {
            vec![]
        } else {
            h.push(("Content-Type".to_string(), "application/json".to_string()));
            req.to_string().into_bytes()
        };
        match http::tcp(&self.addr, "GET", "/status", &h, &body, Duration::from_secs(100)) {
            Ok(r) if r.code == 200 => serde_json::from_slice(&r.body).map_err(|_| -2),
            Ok(r) => Err(r.code),
            Err(_) => Err(-1),
        }
    }

    /// (ready, inflight) by mask, from the driver's own bookkeeping. Only a stop condition for polling:
    /// the verdict on the recorded reply is the specification's.
    fn expected(&self) -> (HashMap<u64, (i64, i64)>, i64) {
        let g = SHARED.lock().unwrap();
        let s = g.as_ref().unwrap();
        let mut m: HashMap<u64, (i64, i64)> = HashMap::new();
        let mut unready = 0;
        for t in 1..=self.deps.len() {
            if let Some(sel) = &self.sel {
                if !sel.contains(&t) {
                    continue;
                }
            }
            let ready = self.deps[t - 1].iter().all(|d| self.sel.as_ref().map(|s| !s.contains(d)).unwrap_or(false) || s.ended.get(d) == Some(&0));
            if !ready {
                unready += 1;
                continue;
            }
            let e = m.entry(self.aff[t - 1]).or_insert((0, 0));
            if !s.claimed.contains(&t) {
                e.0 += 1;
            } else if !s.ended.contains_key(&t) {
                e.1 += 1;
            }
        }
        (m, unready)
    }

    fn statusq(&self, soft: bool) {
        let c = self.next();
        ev::emit(json!({"e":"qcall","c":c}));
        let end = real_ms() + 4000;
        let mut last = json!(null);
        let mut ln = 0;
        let mut agreed = None;
        while real_ms() < end && !self.done.load(SeqCst) {
            let ln0 = loglines();
            if let Ok(v) = self.status_raw(&json!(null)) {
                ln = ln0;
                let (exp, unready) = self.expected();
                let mut got: HashMap<u64, (i64, i64)> = HashMap::new();
                for q in v["queues"].as_array().cloned().unwrap_or_default() {
                    got.insert(q[0].as_u64().unwrap_or(0), (q[1]["num_ready"].as_i64().unwrap_or(-1), q[1]["num_inflight"].as_i64().unwrap_or(-1)));
                }
                last = v.clone();
                let same = exp.iter().all(|(k, x)| {
                    let want = if soft { (0, x.1) } else { *x };
                    got.get(k).cloned().unwrap_or((0, 0)) == want
                }) && got.iter().all(|(k, x)| exp.contains_key(k) || *x == (0, 0))
                    && (soft || v["num_unready_tasks"].as_i64() == Some(unready));
                // the counters and the etag are not updated at one go: read twice
                if same && agreed == Some(last["etag"].as_u64()) {
                    break;
                }
                agreed = if same { Some(last["etag"].as_u64()) } else { None };
            }
            real_sleep(if agreed.is_some() { 2 } else { 4 });
        }
        let et = last["etag"].as_u64().unwrap_or(0);
        *self.etag.lock().unwrap() = et;
        ev::emit(json!({"e":"qret","c":c,"ln":ln,"soft":soft,"queues":last["queues"],"etag":et,"unready":last["num_unready_tasks"],"total":last["num_total_tasks"],"limit":last["ratelimit"]}));
    }

    fn some_ready(&self, q: u64) -> Option<bool> {
        let v = self.status_raw(&json!(null)).ok()?;
        for e in v["queues"].as_array()? {
            if (e[0].as_u64()? >> q) & 1 == 1 && e[1]["num_ready"].as_i64()? > 0 {
                return Some(true);
            }
        }
        Some(false)
    }

    /// Wait until worker `name` has been answered, or is parked with nothing ready for queue q.
    /// Being parked for 15 s (real) while something is ready is recorded as starvation.
    fn settle(&self, name: &str, q: u64) {
        let w = self.w(name);
        let q = w.lock().unwrap().pq.unwrap_or(q);
        let end = real_ms() + 15000;
        let mut idle = 0;
        let mut spins = 0u64;
        loop {
            if !w.lock().unwrap().pending || self.done.load(SeqCst) {
                return;
            }
            spins += 1;
            if spins < 8 {
                real_sleep(1);
                continue;
            }
            match self.some_ready(q) {
                Some(false) => {
                    idle += 1;
                    if idle >= 3 {
                        return;
                    }
                }
                Some(true) => idle = 0,
                None => {}
            }
            if real_ms() > end {
                ev::emit(json!({"e":"starved","w":name,"q":q}));
                return;
            }
            real_sleep(4);
        }
    }

    fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.threads.lock().unwrap().push(std::thread::spawn(f));
    }

    fn wait_not_pending(&self, name: &str, ms: u64) -> bool {
        let w = self.w(name);
        let end = real_ms() + ms;
        while w.lock().unwrap().pending {
            if real_ms() > end || self.done.load(SeqCst) {
                return false;
            }
            real_sleep(1);
        }
        true
    }

    /// A well-behaved worker that takes and finishes tasks until it is refused.
    pub fn auto(self: &Arc<Self>, name: &str, q: u64, delay_ms: u64) {
        let mut code = {
            let w = self.w(name);
            let has = w.lock().unwrap().hold.is_some();
            if has { 200 } else { self.do_start(name, q, &json!({})) }
        };
        let mut tries = 0;
        loop {
            if code == 429 && tries < 50 {
                tries += 1;
                code = self.do_start(name, q, &json!({}));
                continue;
            }
            if code != 200 {
                return;
            }
            let w = self.w(name);
            let Some(h) = w.lock().unwrap().hold.clone() else { return };
            if !h.begun {
                self.do_begun(name, &json!({}));
            }
            if delay_ms > 0 {
                real_sleep(delay_ms);
            }
            let s = self.outcome.get(h.task.wrapping_sub(1)).cloned().unwrap_or(0);
            code = self.do_end(name, s, Some(q), &json!({}));
        }
    }

    pub fn run_ops(self: &Arc<Self>, ops: &[Value]) {
        let empty = json!({});
        for op in ops {
            if self.done.load(SeqCst) {
                break;
            }
            let a = op.as_array().unwrap();
            let name = a.get(1).and_then(|x| x.as_str()).unwrap_or("").to_string();
            match a[0].as_str().unwrap() {
                "start" => {
                    // start w q [opt]: asynchronous
                    if self.w(&name).lock().unwrap().pending {
                        continue;
                    }
                    let q = a[2].as_u64().unwrap();
                    let opt = a.get(3).cloned().unwrap_or(empty.clone());
                    {
                        let w = self.w(&name);
                        let mut g = w.lock().unwrap();
                        g.pending = true;
                        g.pq = Some(q);
                    }
                    let me = self.clone();
                    self.spawn(move || {
                        me.do_start(&name, q, &opt);
                    });
                }
                "startsync" => {
                    let q = a[2].as_u64().unwrap();
                    self.do_start(&name, q, a.get(3).unwrap_or(&empty));
                }
                "settle" => self.settle(&name, a[2].as_u64().unwrap()),
                "await" => {
                    self.wait_not_pending(&name, a[2].as_u64().unwrap());
                }
                "begun" => {
                    if self.wait_not_pending(&name, 50) {
                        self.do_begun(&name, a.get(2).unwrap_or(&empty));
                    }
                }
                "end" => {
                    // end w status|null start_q|null [opt]
                    if !self.wait_not_pending(&name, 50) {
                        continue;
                    }
                    let opt = a.get(4).cloned().unwrap_or(empty.clone());
                    let Some(h) = self.target(&name, &opt) else { continue };
                    let s = a[2].as_i64().unwrap_or_else(|| self.outcome.get(h.task.wrapping_sub(1)).cloned().unwrap_or(0));
                    match a.get(3).and_then(|x| x.as_u64()) {
                        Some(q) => {
                            {
                                let w = self.w(&name);
                                let mut g = w.lock().unwrap();
                                g.pending = true;
                                g.pq = Some(q);
                            }
                            let me = self.clone();
                            self.spawn(move || {
                                me.do_end(&name, s, Some(q), &opt);
                            });
                        }
                        None if opt.get("bg").is_some() => {
                            self.w(&name).lock().unwrap().pending = true;
                            let me = self.clone();
                            self.spawn(move || {
                                me.do_end(&name, s, None, &opt);
                            });
                        }
                        None => {
                            self.do_end(&name, s, None, &opt);
                        }
                    }
                }
                "ping" => {
                    self.do_ping(&name, a.get(2).unwrap_or(&empty));
                }
                "jid" => self.w(&name).lock().unwrap().jid = a[2].as_str().unwrap().to_string(),
                "mark" => {
                    let j: Vec<String> = a[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    self.do_mark(&j, a.get(2).unwrap_or(&empty));
                }
                "load" => {
                    // read the log while execute() is writing it
                    let log = crate::LOGPATH.lock().unwrap().clone();
                    pyo3::Python::with_gil(|py| {
                        if let Err(e) = crate::load(py, &log) {
                            ev::emit(json!({"e":"error","err":format!("load: {}", e)}));
                        }
                    });
                }
                "statusq" => self.statusq(a.get(1).and_then(|x| x.as_bool()).unwrap_or(false)),
                "poll" => {
                    // poll p etag_offset timemin timeout : asynchronous long poll with the etag last seen + offset
                    let et = (*self.etag.lock().unwrap() as i64 + a[2].as_i64().unwrap()).max(0) as u64;
                    let (mn, to) = (a[3].as_u64().unwrap(), a[4].as_u64().unwrap());
                    let me = self.clone();
                    let c = self.next();
                    ev::emit(json!({"e":"lcall","c":c,"p":name,"etag":et,"mn":mn,"to":to}));
                    self.spawn(move || {
                        let r = me.status_raw(&json!({"etag":et,"timemin_ms":mn,"timeout_ms":to}));
                        match r {
                            Ok(v) => ev::emit(json!({"e":"lret","c":c,"p":name,"code":200,"etag":v["etag"]})),
                            Err(code) => ev::emit(json!({"e":"lret","c":c,"p":name,"code":code,"etag":0})),
                        }
                    });
                }
                "soft" => {
                    self.admin("soft", "/shutdown", json!({"soft":true,"username":"u"}));
                }
                "hard" => {
                    self.admin("hard", "/shutdown", json!({"soft":false,"username":"u"}));
                }
                "rate" => {
                    self.admin("rate", "/ratelimit", json!({"per_second":a[1]}));
                }
                "info" => {
                    self.admin("info", "/provisioner_info", json!({"provisioner_info":a[1]}));
                }
                "sigint" => {
                    ev::emit(json!({"e":"acall","c":self.next(),"what":"sigint"}));
                    unsafe { libc::kill(libc::getpid(), libc::SIGINT) };
                    ev::emit(json!({"e":"aret","c":0,"what":"sigint","code":200}));
                }
                "provexit" => {
                    ev::emit(json!({"e":"acall","c":self.next(),"what":"provexit"}));
                    let dir = a[1].as_str().map(|s| s.to_string()).unwrap_or_default();
                    let _ = dir;
                    std::fs::write(crate::scratch("prov.exit"), b"x").unwrap();
                    ev::emit(json!({"e":"aret","c":0,"what":"provexit","code":200}));
                }
                "die" => {
                    // crash in the middle of execute()
                    ev::emit(json!({"e":"kill"}));
                    crate::die();
                }
                "sleep" => real_sleep(a[1].as_u64().unwrap()),
                "vsleep" => {
                    let ms = a[1].as_u64().unwrap();
                    let t = Instant::now(); // virtual
                    while Instant::now() - t < Duration::from_millis(ms) && !self.done.load(SeqCst) {
                        real_sleep(1);
                    }
                }
                "scale" => vclock::set_scale(a[1].as_u64().unwrap()),
                "gate" => {
                    let k = if a[1] == "pre" { 0 } else { 1 };
                    SHARED.lock().unwrap().as_mut().unwrap().armed.insert((k, a[2].as_u64().unwrap() as usize));
                }
                "waitgate" => {
                    let k = if a[1] == "pre" { 0 } else { 1 };
                    let t = a[2].as_u64().unwrap() as usize;
                    let end = real_ms() + 3000;
                    while real_ms() < end && !self.done.load(SeqCst) {
                        if SHARED.lock().unwrap().as_ref().unwrap().at_gate.contains(&(k, t)) {
                            break;
                        }
                        real_sleep(1);
                    }
                }
                "ungate" => {
                    let k = if a[1] == "pre" { 0 } else { 1 };
                    SHARED.lock().unwrap().as_mut().unwrap().armed.remove(&(k, a[2].as_u64().unwrap() as usize));
                }
                "jam" => {
                    // jam w: the scheduler will stop in the postamble of the task that w holds
                    let h = self.w(&name).lock().unwrap().hold.clone();
                    if let Some(h) = h {
                        SHARED.lock().unwrap().as_mut().unwrap().armed.insert((1, h.task));
                    }
                }
                "jammed" => {
                    let end = real_ms() + 300;
                    while real_ms() < end && !self.done.load(SeqCst) {
                        if !SHARED.lock().unwrap().as_ref().unwrap().at_gate.is_empty() {
                            break;
                        }
                        real_sleep(1);
                    }
                }
                "unjam" => SHARED.lock().unwrap().as_mut().unwrap().armed.clear(),
                "auto" => {
                    // auto w q delay: background worker
                    let q = a[2].as_u64().unwrap();
                    let d = a.get(3).and_then(|x| x.as_u64()).unwrap_or(0);
                    let me = self.clone();
                    self.spawn(move || me.auto(&name, q, d));
                }
                "pinger" => {
                    // pinger w interval_virtual_ms count : background pings
                    let (iv, n) = (a[2].as_u64().unwrap(), a[3].as_u64().unwrap());
                    let me = self.clone();
                    let t0 = Instant::now();
                    self.spawn(move || {
                        for i in 1..=n {
                            while Instant::now() - t0 < Duration::from_millis(iv * i) && !me.done.load(SeqCst) {
                                std::thread::sleep(Duration::from_micros(500));
                            }
                            if me.done.load(SeqCst) {
                                return;
                            }
                            me.do_ping(&name, &json!({}));
                        }
                    });
                }
                "waitgone" => {
                    // probe (w's own transaction) until execute() returns or real ms pass
                    let end = real_ms() + a[1].as_u64().unwrap_or(1000);
                    while real_ms() < end && !self.done.load(SeqCst) {
                        real_sleep(1);
                    }
                }
                x => panic!("unknown op {}", x),
            }
        }
    }

    pub fn join(&self) {
        loop {
            let h = self.threads.lock().unwrap().pop();
            match h {
                Some(h) => {
                    let _ = h.join();
                }
                None => break,
            }
        }
    }
}
