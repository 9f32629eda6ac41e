//! A minimal blocking HTTP/1.1 client (one connection per request) and the wire formats of the
//! remote-worker protocol. It shares no code with the system under test.
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::time::Duration;

pub struct Reply {
    pub code: i32,
    pub body: Vec<u8>,
    pub lz4: bool,
}

pub fn exchange<S: Read + Write>(mut s: S, method: &str, path: &str, headers: &[(String, String)], body: &[u8]) -> std::io::Result<Reply> {
    let mut req = format!("{} {} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: {}\r\n", method, path, body.len());
    for (k, v) in headers {
        req.push_str(&format!("{}: {}\r\n", k, v));
    }
    req.push_str("\r\n");
    let mut buf = req.into_bytes();
    buf.extend_from_slice(body);
    s.write_all(&buf)?;
    let mut data = Vec::new();
    let mut tmp = [0u8; 8192];
    let err = |m: &str| std::io::Error::new(std::io::ErrorKind::Other, m.to_string());
    // read the head
    let head_end = loop {
        if let Some(p) = find(&data, b"\r\n\r\n") {
            break p;
        }
        let n = s.read(&mut tmp)?;
        if n == 0 {
            return Err(err("eof in head"));
        }
        data.extend_from_slice(&tmp[..n]);
    };
    let head = String::from_utf8_lossy(&data[..head_end]).to_string();
    let mut rest = data[head_end + 4..].to_vec();
    let code: i32 = head.split_whitespace().nth(1).and_then(|x| x.parse().ok()).ok_or_else(|| err("bad status"))?;
    let mut clen = None;
    let mut lz4 = false;
    let mut chunked = false;
    for l in head.lines().skip(1) {
        let l = l.to_ascii_lowercase();
        if let Some(v) = l.strip_prefix("content-length:") {
            clen = v.trim().parse::<usize>().ok();
        }
        if l.starts_with("content-encoding:") && l.contains("lz4") {
            lz4 = true;
        }
        if l.starts_with("transfer-encoding:") && l.contains("chunked") {
            chunked = true;
        }
    }
    if chunked {
        return Err(err("chunked reply not supported"));
    }
    match clen {
        Some(n) => {
            while rest.len() < n {
                let k = s.read(&mut tmp)?;
                if k == 0 {
                    return Err(err("eof in body"));
                }
                rest.extend_from_slice(&tmp[..k]);
            }
            rest.truncate(n);
        }
        None => {
            s.read_to_end(&mut rest)?;
        }
    }
    Ok(Reply { code, body: rest, lz4 })
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn tcp(addr: &str, method: &str, path: &str, headers: &[(String, String)], body: &[u8], timeout: Duration) -> std::io::Result<Reply> {
    let s = std::net::TcpStream::connect(addr)?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(timeout))?;
    exchange(s, method, path, headers, body)
}

pub fn unix(sock: &str, method: &str, path: &str, body: &[u8], timeout: Duration) -> std::io::Result<Reply> {
    let s = std::os::unix::net::UnixStream::connect(sock)?;
    s.set_read_timeout(Some(timeout))?;
    exchange(s, method, path, &[("Content-Type".into(), "application/json".into())], body)
}

#[derive(Deserialize, Serialize, Debug)]
pub struct StartResponse {
    pub transaction_id: u32,
    pub cmdline: Vec<std::ffi::OsString>,
    pub fd_input: Option<(i32, Vec<u8>)>,
    pub ping_interval_msecs: u64,
}
#[derive(Deserialize, Serialize, Debug)]
pub struct EndResponse {
    pub start_response: Option<StartResponse>,
}

pub fn decode<T: serde::de::DeserializeOwned>(r: &Reply) -> Result<T, String> {
    let b = if r.lz4 {
        let mut d = vec![];
        lzzzz::lz4f::decompress_to_vec(&r.body, &mut d).map_err(|e| format!("lz4 {e:?}"))?;
        d
    } else {
        r.body.clone()
    };
    postcard::from_bytes(&b).map_err(|e| format!("postcard {e:?}"))
}
