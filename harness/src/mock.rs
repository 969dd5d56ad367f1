//! A NetsBlox server on the loopback interface: just enough of HTTP/1.1 and of websockets for the standard host,
//! with planned answers, and a record of everything it was asked.
use netsblox_vm::json::Json;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// How long to wait for something that must happen; once something failed to happen, later waits are short.
static PATIENCE: AtomicU64 = AtomicU64::new(20_000);
pub fn patience() -> Duration { Duration::from_millis(PATIENCE.load(Ordering::Relaxed)) }
pub fn regain_patience() { PATIENCE.store(20000, Ordering::Relaxed); }
pub fn lose_patience() { PATIENCE.store(1500, Ordering::Relaxed); }

#[derive(Clone, Debug)]
pub struct Plan { pub status: u16, pub ctype: Option<String>, pub body: Vec<u8>, pub delay: u64, pub drop: bool, pub chunked: bool, pub cut: bool }
#[derive(Clone, Debug)]
pub struct Seen { pub path: String, pub query: String, pub body: Vec<u8>, pub method: String }

#[derive(Default)]
pub struct State { pub plans: HashMap<String, Plan>, pub seen: Vec<Seen>, pub frames: Vec<Json>, pub others: Vec<String>, pub ws: Option<TcpStream>, pub ws_path: String, pub posts: Vec<(String, Json)> }
pub struct Mock { pub port: u16, pub st: Arc<(Mutex<State>, Condvar)>, stop: Arc<AtomicBool> }

fn read_request(r: &mut BufReader<TcpStream>) -> Option<(String, String, HashMap<String, String>, Vec<u8>)> {
    let mut line = String::new();
    if r.read_line(&mut line).ok()? == 0 { return None }
    let mut it = line.split_whitespace();
    let (method, target) = (it.next()?.to_string(), it.next()?.to_string());
    let mut headers = HashMap::new();
    loop {
        let mut h = String::new();
        if r.read_line(&mut h).ok()? == 0 { return None }
        let h = h.trim_end();
        if h.is_empty() { break }
        if let Some((k, v)) = h.split_once(':') { headers.insert(k.trim().to_ascii_lowercase(), v.trim().to_string()); }
    }
    let mut body = vec![];
    if let Some(n) = headers.get("content-length").and_then(|x| x.parse::<usize>().ok()) { body = vec![0; n]; r.read_exact(&mut body).ok()?; }
    else if headers.get("transfer-encoding").is_some_and(|x| x.contains("chunked")) {
        loop {
            let mut l = String::new(); r.read_line(&mut l).ok()?;
            let n = usize::from_str_radix(l.trim(), 16).ok()?;
            let mut c = vec![0; n + 2]; r.read_exact(&mut c).ok()?;
            if n == 0 { break }
            body.extend_from_slice(&c[..n]);
        }
    }
    Some((method, target, headers, body))
}
pub fn respond(w: &mut TcpStream, p: &Plan) -> std::io::Result<bool> {
    if p.delay > 0 { std::thread::sleep(Duration::from_millis(p.delay)); }
    if p.drop { return Ok(false) }
    let mut out = format!("HTTP/1.1 {} X\r\n", p.status).into_bytes();
    if let Some(c) = &p.ctype { out.extend(format!("Content-Type: {c}\r\n").bytes()); }
    if p.chunked {
        out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
        for c in p.body.chunks(7) { out.extend(format!("{:x}\r\n", c.len()).bytes()); out.extend_from_slice(c); out.extend(b"\r\n"); }
        if p.cut { w.write_all(&out)?; return Ok(false) }
        out.extend(b"0\r\n\r\n");
    } else {
        out.extend(format!("Content-Length: {}\r\n\r\n", p.body.len() + if p.cut { 5 } else { 0 }).bytes());
        out.extend_from_slice(&p.body);
        if p.cut { w.write_all(&out)?; return Ok(false) }
    }
    w.write_all(&out)?;
    w.flush()?;
    Ok(true)
}
fn frame(op: u8, fin: bool, data: &[u8]) -> Vec<u8> {
    let mut out = vec![if fin { 0x80 | op } else { op }];
    if data.len() < 126 { out.push(data.len() as u8) } else if data.len() < 65536 { out.push(126); out.extend((data.len() as u16).to_be_bytes()) } else { out.push(127); out.extend((data.len() as u64).to_be_bytes()) }
    out.extend_from_slice(data);
    out
}
fn ws_loop(r: &mut BufReader<TcpStream>, st: &(Mutex<State>, Condvar)) -> Option<()> {
    let mut acc: Vec<u8> = vec![];
    let mut kind = 0u8;
    use std::os::fd::AsRawFd;
    let fd = r.get_ref().as_raw_fd();
    let one: libc::c_int = 1;
    loop {
        // acknowledge at once, so that the client does not sit on its next packet
        unsafe { libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4); }
        let mut h = [0u8; 2]; r.read_exact(&mut h).ok()?;
        let (fin, op, mut n) = (h[0] & 0x80 != 0, h[0] & 15, (h[1] & 127) as u64);
        if n == 126 { let mut b = [0u8; 2]; r.read_exact(&mut b).ok()?; n = u16::from_be_bytes(b) as u64; } else if n == 127 { let mut b = [0u8; 8]; r.read_exact(&mut b).ok()?; n = u64::from_be_bytes(b); }
        let mut mask = [0u8; 4]; if h[1] & 0x80 != 0 { r.read_exact(&mut mask).ok()?; }
        let mut d = vec![0u8; n as usize]; r.read_exact(&mut d).ok()?;
        for (i, b) in d.iter_mut().enumerate() { *b ^= mask[i % 4]; }
        if op >= 8 { if op == 8 { return None } st.0.lock().unwrap().others.push(format!("control {op}: {:?}", String::from_utf8_lossy(&d))); st.1.notify_all(); continue }
        if op != 0 { kind = op; }
        acc.extend(d);
        if fin {
            let raw = std::mem::take(&mut acc);
            let mut s = st.0.lock().unwrap();
            match (kind, serde_json::from_slice::<Json>(&raw)) { (1, Ok(j)) => s.frames.push(j), _ => s.others.push(format!("frame {kind}: {:?}", String::from_utf8_lossy(&raw))) }
            st.1.notify_all();
        }
    }
}
fn serve(stream: TcpStream, port: u16, st: Arc<(Mutex<State>, Condvar)>) -> Option<()> {
    stream.set_nodelay(true).ok()?;
    let mut w = stream.try_clone().ok()?;
    let mut r = BufReader::new(stream);
    loop {
        let (method, target, headers, body) = read_request(&mut r)?;
        let (path, query) = target.split_once('?').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((target.clone(), String::new()));
        let plain = |b: Json| Plan { status: 200, ctype: Some("application/json".into()), body: b.to_string().into_bytes(), delay: 0, drop: false, chunked: false, cut: false };
        if path.starts_with("/network/") && path.ends_with("/connect") {
            let key = tungstenite::handshake::derive_accept_key(headers.get("sec-websocket-key")?.as_bytes());
            { let mut s = st.0.lock().unwrap(); s.ws = Some(w.try_clone().ok()?); s.ws_path = path; }
            w.write_all(format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {key}\r\n\r\n").as_bytes()).ok()?;
            ws_loop(&mut r, &st);
            return None
        }
        let plan = {
            let mut s = st.0.lock().unwrap();
            match path.as_str() {
                "/configuration" => plain(serde_json::json!({ "servicesHosts": [{ "url": format!("http://127.0.0.1:{port}/services"), "categories": [] }, { "url": format!("http://127.0.0.1:{port}/wrong") }], "clientId": "x" })),
                "/projects/" | "/projects" => { s.posts.push((path.clone(), serde_json::from_slice(&body).unwrap_or(Json::Null))); plain(serde_json::json!({ "id": "PROJ-1", "roles": { "ROLE-1": { "name": "myRole", "code": "" } } })) }
                p if p.starts_with("/network/") => { s.posts.push((path.clone(), serde_json::from_slice(&body).unwrap_or(Json::Null))); plain(serde_json::json!({})) }
                _ => {
                    s.seen.push(Seen { path: path.clone(), query, body, method });
                    s.plans.get(&path).cloned().unwrap_or(Plan { status: 404, ctype: Some("text/plain".into()), body: b"no such thing was planned".to_vec(), delay: 0, drop: false, chunked: false, cut: false })
                }
            }
        };
        st.1.notify_all();
        if !respond(&mut w, &plan).ok()? { let _ = w.shutdown(std::net::Shutdown::Both); return None }
    }
}
impl Mock {
    pub fn start() -> Mock {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback listener");
        let port = l.local_addr().unwrap().port();
        let st: Arc<(Mutex<State>, Condvar)> = Arc::default();
        let stop = Arc::new(AtomicBool::new(false));
        let (s2, t2) = (st.clone(), stop.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if t2.load(Ordering::Relaxed) { break }
                let Ok(c) = c else { continue };
                let s3 = s2.clone();
                std::thread::spawn(move || { serve(c, port, s3); });
            }
        });
        Mock { port, st, stop }
    }
    pub fn url(&self) -> String { format!("http://127.0.0.1:{}", self.port) }
    /// Waits until the record satisfies `f`.
    pub fn wait<T>(&self, what: &str, mut f: impl FnMut(&mut State) -> Option<T>) -> Result<T, String> {
        let end = Instant::now() + patience();
        let mut s = self.st.0.lock().unwrap();
        loop {
            if let Some(x) = f(&mut s) { return Ok(x) }
            let now = Instant::now();
            if now >= end { lose_patience(); return Err(format!("never happened: {what}")) }
            s = self.st.1.wait_timeout(s, end - now).unwrap().0;
        }
    }
    /// Sends a packet to the client; `parts` are the pieces of one message.
    pub fn send(&self, op: u8, parts: &[&[u8]]) {
        let s = self.st.0.lock().unwrap();
        let mut w = s.ws.as_ref().unwrap();
        let mut out = vec![];
        for (i, p) in parts.iter().enumerate() { out.extend(frame(if i == 0 { op } else { 0 }, i + 1 == parts.len(), p)); }
        w.write_all(&out).expect("websocket write");
    }
    pub fn text(&self, t: &str) { self.send(1, &[t.as_bytes()]); }
}
impl Drop for Mock {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(w) = self.st.0.lock().unwrap().ws.take() { let _ = w.shutdown(std::net::Shutdown::Both); }
    }
}
