//! A controller that answers a real execgraph-remote according to a script (spec/SimWorker.tla), and
//! records what it is sent, what the tasks do and what is left of them when the worker has exited.
//! Reads scenarios (JSON lines) from stdin and writes one result line for each.
//!
//! scenario: {id, worker: path, args: [..], env: {..}, interval, start: ANS, tasks: [{cmd, fd_input, begun: ANS,
//!   pings: {ok: n, then: ANS}, end: ANS, ev: [[what, after_ms, anchor]]}], ev: [..] (before the first answer), limit_ms}
//! ANS: [kind, delay_ms], kind: "ok" | "none" | "drop" | "silent" | "garbage" | a status code
//! ev: what: "usr1" | "slurm" | "note" | "gone", anchor: "begun" | "end" | "start" | "assign"
//! Every worker has a user id of its own (as root), which says what belongs to it and keeps its signals apart.
use hyper::{Body, Request, Response};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::os::unix::fs::MetadataExt;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize)]
struct StartResponse {
    transaction_id: u32,
    cmdline: Vec<std::ffi::OsString>,
    fd_input: Option<(i32, Vec<u8>)>,
    ping_interval_msecs: u64,
}
#[derive(Serialize)]
struct EndResponse {
    start_response: Option<StartResponse>,
}
#[derive(Deserialize)]
struct StartRequest {
    runnertypeid: u32,
    disconnect_error_message: String,
}
#[derive(Deserialize)]
struct Begun {
    transaction_id: u32,
    host: String,
    pid: u32,
}
#[derive(Deserialize)]
struct End {
    transaction_id: u32,
    status: i32,
    stdout: String,
    stderr: String,
    values: Vec<HashMap<String, String>>,
    start_request: Option<StartRequest>,
}
#[derive(Deserialize)]
struct Ping {
    transaction_id: u32,
}

fn now_us() -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as i64 * 1_000_000 + t.tv_nsec as i64 / 1000
}

struct S {
    scn: Value,
    ev: Mutex<Vec<(i64, Value)>>,
    cur: Mutex<usize>,               // the task assigned last, 1-based
    pings: Mutex<HashMap<u32, u64>>, // answered, by transaction
    pid: Mutex<i32>,
    slurm: std::path::PathBuf,
    closed: tokio::sync::watch::Sender<bool>,
}

type Sp = Arc<S>;

impl S {
    fn log(&self, v: Value) {
        // stamped while the list is locked, so that it is in order
        let mut l = self.ev.lock().unwrap();
        l.push((now_us(), v));
    }
}

fn tx_of(i: usize) -> u32 {
    1000 + 7 * i as u32
}

fn fire(s: &Sp, anchor: &str, evs: &Value) {
    for e in evs.as_array().into_iter().flatten() {
        if e[2] != anchor {
            continue;
        }
        let (what, ms, s) = (e[0].as_str().unwrap().to_string(), e[1].as_u64().unwrap(), s.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(ms)).await;
            let pid = *s.pid.lock().unwrap();
            s.log(json!({ "k": what }));
            match what.as_str() {
                "usr1" => {
                    if pid > 0 {
                        unsafe { libc::kill(pid, libc::SIGUSR1) };
                    }
                }
                "note" | "slurm" => {
                    use std::io::Write;
                    let mut f = std::fs::OpenOptions::new().append(true).open(&s.slurm).unwrap();
                    let _ = f.write_all(if what == "slurm" { b"slurmstepd: *** JOB 7 ON n1 CANCELLED AT now ***\n" } else { b"slurmstepd: hello\n" });
                }
                "gone" => {
                    let _ = s.closed.send(true);
                }
                _ => panic!("{}", what),
            }
        });
    }
}

fn reply<T: Serialize>(t: &T, lz4: bool) -> Response<Body> {
    let b = postcard::to_allocvec(t).unwrap();
    let r = Response::builder().header("content-type", "application/postcard");
    if lz4 {
        let mut c = vec![];
        lzzzz::lz4f::compress_to_vec(&b, &mut c, &Default::default()).unwrap();
        r.header("content-encoding", "lz4").body(c.into()).unwrap()
    } else {
        r.body(b.into()).unwrap()
    }
}

fn assignment(s: &Sp) -> Option<(usize, StartResponse)> {
    let mut c = s.cur.lock().unwrap();
    let t = &s.scn["tasks"][*c];
    if t.is_null() {
        return None;
    }
    *c += 1;
    let i = *c;
    let cmd = t["cmd"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
    let fd_input = t["fd_input"].as_array().map(|a| {
        let (fd, n, seed) = (a[0].as_i64().unwrap(), a[1].as_u64().unwrap() as usize, a[2].as_u64().unwrap() as usize);
        (fd as i32, (0..n).map(|i| (i.wrapping_mul(31).wrapping_add(seed + i / 256) % 251) as u8).collect())
    });
    Some((i, StartResponse { transaction_id: tx_of(i), cmdline: cmd, fd_input, ping_interval_msecs: s.scn["interval"].as_u64().unwrap() }))
}

async fn body<T: serde::de::DeserializeOwned>(r: Request<Body>) -> Result<T, String> {
    let lz4 = r.headers().get("content-encoding").map(|x| x == "lz4").unwrap_or(false);
    let b = hyper::body::to_bytes(r.into_body()).await.map_err(|e| e.to_string())?;
    let b = if lz4 {
        let mut d = vec![];
        lzzzz::lz4f::decompress_to_vec(&b, &mut d).map_err(|e| e.to_string())?;
        d
    } else {
        b.to_vec()
    };
    postcard::from_bytes(&b).map_err(|e| e.to_string())
}

async fn serve(s: Sp, r: Request<Body>) -> Result<Response<Body>, std::io::Error> {
    let path = r.uri().path().to_string();
    let h = |n: &str| r.headers().get(n).and_then(|x| x.to_str().ok()).unwrap_or("").to_string();
    let (auth, jid) = (h("authorization"), h("x-execgraph-slurm-job-id"));
    let id = |tx: u32| if tx >= 1000 && (tx - 1000) % 7 == 0 { ((tx - 1000) / 7) as usize } else { 0 };
    let bad = |e: String| -> Result<(String, Value, usize), String> { Err(e) };
    let parsed: Result<(String, Value, usize), String> = match path.as_str() {
        "/start" => match body::<StartRequest>(r).await {
            Ok(b) => Ok(("start".into(), json!({"k": "start", "q": b.runnertypeid, "msg": b.disconnect_error_message}), 0)),
            Err(e) => bad(e),
        },
        "/begun" => match body::<Begun>(r).await {
            Ok(b) => Ok(("begun".into(), json!({"k": "begun", "i": id(b.transaction_id), "host": b.host, "pid": b.pid}), id(b.transaction_id))),
            Err(e) => bad(e),
        },
        "/ping" => match body::<Ping>(r).await {
            Ok(b) => Ok(("ping".into(), json!({"k": "ping", "i": id(b.transaction_id)}), id(b.transaction_id))),
            Err(e) => bad(e),
        },
        "/end" => match body::<End>(r).await {
            Ok(b) => {
                let (more, q, msg) = match &b.start_request {
                    Some(x) => (true, x.runnertypeid as i64, x.disconnect_error_message.clone()),
                    None => (false, -1, "".into()),
                };
                let v = json!({"k": "end", "i": id(b.transaction_id), "status": b.status, "stdout": b.stdout, "stderr": b.stderr,
                               "values": b.values, "more": more, "q": q, "msg": msg});
                Ok(("end".into(), v, id(b.transaction_id)))
            }
            Err(e) => bad(e),
        },
        p => bad(format!("unexpected path {}", p)),
    };
    let (kind, mut v, i) = match parsed {
        Ok(x) => x,
        Err(e) => {
            s.log(json!({"k": "odd", "err": e, "path": path}));
            return Ok(Response::builder().status(400).body(Body::empty()).unwrap());
        }
    };
    v["auth"] = json!(auth == "Bearer tok-123");
    v["jid"] = json!(jid);
    s.log(v.clone());
    let task = if i > 0 { s.scn["tasks"][i - 1].clone() } else { Value::Null };
    let mut more = true;
    let ans = match kind.as_str() {
        "start" => {
            fire(&s, "start", &s.scn["ev"]);
            s.scn["start"].clone()
        }
        "begun" => {
            fire(&s, "begun", &task["ev"]);
            task["begun"].clone()
        }
        "end" => {
            more = v["more"] == true;
            fire(&s, "end", &task["ev"]);
            task["end"].clone()
        }
        _ => {
            let n = {
                let mut p = s.pings.lock().unwrap();
                let n = p.entry(i as u32).or_insert(0);
                *n += 1;
                *n
            };
            if task.is_null() || n <= task["pings"]["ok"].as_u64().unwrap() {
                json!(["ok", 0])
            } else {
                task["pings"]["then"].clone()
            }
        }
    };
    let (what, ms) = (ans[0].clone(), ans[1].as_u64().unwrap_or(0));
    if what == "silent" {
        tokio::time::sleep(Duration::from_secs(3600)).await;
    }
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    let a = |r: &str, n: usize| s.log(json!({"k": "ans", "to": kind, "i": i, "r": r, "next": n}));
    if let Some(c) = what.as_u64() {
        a("refused", 0);
        return Ok(Response::builder().status(c as u16).header("content-type", "application/json").body("{}".into()).unwrap());
    }
    match what.as_str().unwrap() {
        "drop" => {
            a("dropped", 0);
            Err(std::io::Error::new(std::io::ErrorKind::Other, "dropped"))
        }
        "garbage" => {
            a(if kind == "begun" || kind == "ping" { "ok" } else { "refused" }, 0);
            Ok(Response::builder().header("content-type", "application/postcard").body(vec![0xffu8; 40].into()).unwrap())
        }
        x => {
            if kind == "start" || (kind == "end" && more && x == "ok") {
                match assignment(&s) {
                    Some((n, r)) => {
                        let ev = s.scn["tasks"][n - 1]["ev"].clone();
                        let resp = if kind == "start" { reply(&r, n % 2 == 0) } else { reply(&EndResponse { start_response: Some(r) }, n % 2 == 0) };
                        a("ok", n);
                        fire(&s, "assign", &ev);
                        return Ok(resp);
                    }
                    None if kind == "start" => {
                        a("refused", 0);
                        return Ok(Response::builder().status(410).body(Body::empty()).unwrap());
                    }
                    None => (),
                }
            }
            a("ok", 0);
            Ok(if kind == "end" { reply(&EndResponse { start_response: None }, false) } else { Response::new(Body::empty()) })
        }
    }
}

/// the processes of a user that are not zombies
fn alive(uid: u32) -> Vec<i32> {
    let mut out = vec![];
    for d in std::fs::read_dir("/proc").unwrap().flatten() {
        let pid: i32 = match d.file_name().to_string_lossy().parse() {
            Ok(p) => p,
            Err(_) => continue,
        };
        if d.metadata().map(|m| m.uid()).ok() != Some(uid) {
            continue;
        }
        if let Ok(st) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
            let state = st.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('Z');
            if state != 'Z' && state != 'X' {
                out.push(pid);
            }
        }
    }
    out
}

async fn one(scn: Value, dir: std::path::PathBuf, uid: u32) -> Value {
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o777)).unwrap();
    let ev_path = dir.join("ev");
    for f in ["ev", "slurm"] {
        std::fs::write(dir.join(f), "").unwrap();
        std::fs::set_permissions(dir.join(f), std::fs::Permissions::from_mode(0o666)).unwrap();
    }
    let (closed, rx) = tokio::sync::watch::channel(false);
    let s: Sp = Arc::new(S { scn: scn.clone(), ev: Default::default(), cur: Mutex::new(0), pings: Default::default(), pid: Mutex::new(0), slurm: dir.join("slurm"), closed });
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let addr = l.local_addr().unwrap();
    let s2 = s.clone();
    let mut rx2 = rx.clone();
    let acceptor = tokio::spawn(async move {
        loop {
            let (c, _) = tokio::select! { x = l.accept() => match x { Ok(x) => x, Err(_) => continue }, _ = rx2.changed() => return };
            let _ = c.set_nodelay(true);
            let s3 = s2.clone();
            let mut rx3 = rx2.clone();
            tokio::spawn(async move {
                let svc = hyper::service::service_fn(move |r| serve(s3.clone(), r));
                let conn = hyper::server::conn::Http::new().http2_only(true).serve_connection(c, svc);
                tokio::select! { _ = conn => (), _ = rx3.changed() => () }
            });
        }
    });
    let mut cmd = tokio::process::Command::new(scn["worker"].as_str().unwrap());
    cmd.arg(format!("http://{}/", addr));
    for a in scn["args"].as_array().unwrap() {
        cmd.arg(a.as_str().unwrap().replace("@DIR", dir.to_str().unwrap()));
    }
    cmd.env("XG_WEV", &ev_path).env("EXECGRAPH_AUTHORIZATION_TOKEN", "tok-123").env_remove("XG_EV").env_remove("RUST_LOG");
    for (k, v) in scn["env"].as_object().unwrap() {
        cmd.env(k, v.as_str().unwrap());
    }
    cmd.current_dir(&dir).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).kill_on_drop(true);
    if std::env::var("WK_STDERR").is_err() {
        cmd.stderr(std::process::Stdio::null());
    }
    let root = unsafe { libc::getuid() } == 0;
    if root {
        cmd.uid(uid).gid(uid);
    }
    let t0 = now_us();
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return json!({"id": scn["id"], "error": e.to_string()}),
    };
    *s.pid.lock().unwrap() = child.id().unwrap() as i32;
    let limit = Duration::from_millis(scn["limit_ms"].as_u64().unwrap_or(40000));
    let st = tokio::time::timeout(limit, child.wait()).await;
    let left = if root { alive(uid) } else { vec![] };
    *s.pid.lock().unwrap() = 0;
    match st {
        Ok(Ok(st)) => {
            use std::os::unix::process::ExitStatusExt;
            s.log(json!({"k": "exit", "code": st.code().unwrap_or_else(|| -st.signal().unwrap()), "left": left.len()}));
        }
        _ => s.log(json!({"k": "stuck"})),
    }
    acceptor.abort();
    let _ = s.closed.send(true);
    for _ in 0..50 {
        let _ = child.start_kill();
        let l = if root { alive(uid) } else { vec![] };
        for p in &l {
            unsafe { libc::kill(*p, libc::SIGKILL) };
        }
        if l.is_empty() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    let _ = child.wait().await;
    let mut evs = s.ev.lock().unwrap().clone();
    for line in std::fs::read_to_string(&ev_path).unwrap_or_default().lines() {
        let p: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| p.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-999);
        evs.push((n(0), json!({"k": p.get(1), "i": n(2), "pid": n(3), "a": n(4)})));
    }
    evs.sort_by_key(|e| e.0);
    let ev: Vec<Value> = evs
        .into_iter()
        .map(|(t, mut v)| {
            v["t"] = json!((t - t0) / 1000);
            v
        })
        .collect();
    json!({"id": scn["id"], "pid": 0, "ev": ev})
}

fn main() {
    unsafe {
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let jobs: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(24);
    let base = std::path::PathBuf::from(std::env::args().nth(2).unwrap());
    let uid0: u32 = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(61000);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(async move {
        let sem = Arc::new(tokio::sync::Semaphore::new(jobs));
        let mut hs = vec![];
        for (i, l) in std::io::stdin().lines().enumerate() {
            let scn: Value = serde_json::from_str(&l.unwrap()).unwrap();
            let p = sem.clone().acquire_owned().await.unwrap();
            let d = base.join(format!("w{}", i));
            hs.push(tokio::spawn(async move {
                let r = one(scn, d, uid0 + i as u32).await;
                println!("{}", r);
                drop(p);
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        // reap what was left to us
        while unsafe { libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) } > 0 {}
    });
}
