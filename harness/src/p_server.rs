//! C39 and C40: the command line program as an execution server, driven over HTTP as the browser does, with the
//! NetsBlox server replaced by the one in mock.rs.
use crate::tape::Gen;
use crate::runner::*;
use crate::mock::*;
use crate::p_api::ensure;
use netsblox_vm::json::{json, Json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Nb { child: Child, port: u16, mock: Mock, conn: Option<BufReader<TcpStream>>, n: usize, dir: Option<PathBuf>, /** taken from the server and not yet looked at */ out: String, errors: VecDeque<Json>, running: bool, fences: usize, /** where a page may come from that sees the last answer */ allowed: String }
impl Drop for Nb {
    fn drop(&mut self) {
        let _ = self.child.kill(); let _ = self.child.wait();
        if let Some(d) = &self.dir { let _ = std::fs::remove_dir_all(d); }
    }
}
const ORIGIN: &str = "https://editor.example.org";
fn free_port() -> u16 { std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
impl Nb {
    fn start(fs: bool) -> Result<Nb, String> {
        let exe = std::env::current_exe().unwrap().with_file_name("nb");
        for attempt in 0..5 {
            let mock = Mock::start();
            let port = free_port();
            let dir = fs.then(|| { let d = std::env::temp_dir().join(format!("nbv-fs-{}-{port}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d });
            let mut cmd = Command::new(&exe);
            if fs { cmd.arg("--fs"); }
            cmd.current_dir(dir.clone().unwrap_or_else(std::env::temp_dir));
            cmd.args(["start", "--server", &mock.url(), "--port", &port.to_string()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            // the server goes when its driver does
            unsafe { cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
            let child = cmd.spawn().map_err(|e| format!("cannot start {exe:?}: {e}"))?;
            let mut nb = Nb { child, port, mock, conn: None, n: 0, dir, out: String::new(), errors: VecDeque::new(), running: true, fences: 0, allowed: String::new() };
            let end = Instant::now() + Duration::from_secs(20);
            loop {
                if nb.try_http("GET", "/project", b"").is_ok() { return Ok(nb) }
                if Instant::now() > end || nb.child.try_wait().ok().flatten().is_some() { break }
                std::thread::sleep(Duration::from_millis(3));
            }
            if attempt == 4 { return Err("the server never came up".into()) }
        }
        unreachable!()
    }
    fn try_http(&mut self, method: &str, path: &str, body: &[u8]) -> std::io::Result<(u16, String, Vec<u8>)> {
        let mut r = match self.conn.take() { Some(c) => c, None => { let c = TcpStream::connect(("127.0.0.1", self.port))?; c.set_nodelay(true)?; c.set_read_timeout(Some(Duration::from_secs(25)))?; BufReader::new(c) } };
        let mut req = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nOrigin: {ORIGIN}\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
        req.extend_from_slice(body);
        r.get_mut().write_all(&req)?;
        let bad = || std::io::Error::other("bad response");
        let mut line = String::new();
        r.read_line(&mut line)?;
        let status: u16 = line.split_whitespace().nth(1).and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let (mut len, mut ctype, mut allowed) = (0, String::new(), String::new());
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 { return Err(bad()) }
            let h = h.trim_end();
            if h.is_empty() { break }
            if let Some((k, v)) = h.split_once(':') { match k.to_ascii_lowercase().as_str() { "content-length" => len = v.trim().parse().map_err(|_| bad())?, "content-type" => ctype = v.trim().to_string(), "access-control-allow-origin" => allowed = v.trim().to_string(), _ => () } }
        }
        let mut out = vec![0; len];
        r.read_exact(&mut out)?;
        self.conn = Some(r);
        self.allowed = allowed;
        Ok((status, ctype, out))
    }
    fn http(&mut self, method: &str, path: &str, body: &[u8]) -> Result<(u16, String, Vec<u8>), String> {
        self.try_http(method, path, body).map_err(|e| format!("{method} {path} got no answer: {e}"))
    }
    fn pull(&mut self) -> CheckResult {
        let (c, _, b) = self.http("POST", "/pull", b"")?;
        let j: Json = serde_json::from_slice(&b).map_err(|e| format!("the status is no JSON: {e}"))?;
        ensure!(c == 200, "pull answers {c}");
        self.running = j["running"].as_bool().ok_or("no running flag")?;
        self.out.push_str(j["output"].as_str().ok_or("no output")?);
        for e in j["errors"].as_array().ok_or("no errors")? { self.errors.push_back(e.clone()); }
        Ok(())
    }
    /// Pulls until `f` holds.
    fn until(&mut self, what: &str, mut f: impl FnMut(&Nb) -> bool) -> CheckResult {
        let end = Instant::now() + patience();
        loop {
            self.pull()?;
            if f(self) { return Ok(()) }
            if Instant::now() > end { lose_patience(); return Err(format!("never happened: {what}; so far {:?} {:?}", self.out, self.errors)) }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// Waits until everything asked so far has been acted upon, and takes what was said until then.
    /// An error raised while the last status is being put together may come before its line: `errors` keeps it.
    fn fence(&mut self) -> Result<String, String> {
        self.fences += 1;
        let name = format!("fence {}.", self.fences);
        let xml = project_xml(&script(&format!("<block s=\"receiveGo\"></block><block s=\"bubble\"><block var=\"{name}\"/></block>")));
        self.post_project(&xml)?;
        let bad = ">>> keeping previous project...\n";
        let ends = |out: &str| { let k = out.find(&name)?; Some((out[..k].rfind("\n>>> project load error: ")?, k + out[k..].find(bad)? + bad.len())) };
        self.until("a load error is reported", |n| ends(&n.out).is_some())?;
        let (a, b) = ends(&self.out).unwrap();
        let rest = self.out.split_off(b);
        let mut out = std::mem::replace(&mut self.out, rest);
        out.truncate(a);
        Ok(out)
    }
    fn post_project(&mut self, xml: &str) -> CheckResult {
        let (c, _, _) = self.http("POST", "/project", xml.as_bytes())?;
        ensure!(c == 200, "posting a project answers {c}");
        Ok(())
    }
    fn input(&mut self, x: &str) -> CheckResult { let (c, _, _) = self.http("POST", "/input", x.as_bytes())?; ensure!(c == 200, "input {x:?} answers {c}"); Ok(()) }
    fn toggle(&mut self) -> CheckResult { let (c, _, _) = self.http("POST", "/toggle-paused", b"")?; ensure!(c == 200, "toggle answers {c}"); self.running = !self.running; Ok(()) }
}
thread_local! { static NB: RefCell<[Option<Nb>; 2]> = const { RefCell::new([None, None]) }; }
fn with_nb(fs: bool, f: impl FnOnce(&mut Nb) -> CheckResult) -> CheckResult {
    let mut nb = match NB.with(|x| x.borrow_mut()[fs as usize].take()).filter(|x| x.n < 500) { Some(x) => x, None => Nb::start(fs)? };
    nb.n += 1;
    // a known state
    nb.input("stop")?;
    nb.fence()?;
    if !nb.running { nb.toggle()?; }
    nb.errors.clear();
    let o = nb.fence()?;
    ensure!(nb.running && o.trim().is_empty() && nb.errors.is_empty(), "stopped and resumed, the server says running {} {o:?} {:?}", nb.running, nb.errors);
    f(&mut nb)?;
    NB.with(|x| x.borrow_mut()[fs as usize] = Some(nb));
    Ok(())
}

/// The script for the editor and the address of the server it comes from.
pub fn extension(fs: bool) -> Result<(String, String), String> {
    let mut got = None;
    with_nb(fs, |nb| {
        let (c, kind, body) = nb.http("GET", "/extension.js", b"")?;
        ensure!(c == 200 && kind.contains("text/javascript"), "/extension.js answers {c} {kind:?}");
        // the editor is a page from elsewhere: the browser has to be told that it may see the answers
        for (how, path, body) in [("GET", "/extension.js", ""), ("GET", "/project", ""), ("POST", "/pull", ""), ("POST", "/input", "stop"), ("POST", "/input", "nonsense")] {
            nb.http(how, path, body.as_bytes())?;
            ensure!(nb.allowed == "*" || nb.allowed == ORIGIN, "{how} {path} from {ORIGIN} is answered for {:?}", nb.allowed);
        }
        got = Some((String::from_utf8(body).map_err(|e| e.to_string())?, format!("http://127.0.0.1:{}", nb.port)));
        Ok(())
    })?;
    Ok(got.unwrap())
}

// ------------------------------------------------------------------ projects

const EMPTY: &str = netsblox_vm::template::EMPTY_PROJECT;
fn project_xml(scripts: &str) -> String { EMPTY.replace("<scripts></scripts></sprite>", &format!("<scripts>{scripts}</scripts></sprite>")) }
pub struct Ids(pub usize);
impl Ids { pub fn next(&mut self) -> String { self.0 += 1; format!("item_{}", self.0) } }
pub fn esc(t: &str) -> String { t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }
pub fn block(ids: &mut Ids, s: &str, inner: &str) -> String { format!("<block s=\"{s}\" collabId=\"{}\">{inner}</block>", ids.next()) }
pub fn getvar(ids: &mut Ids, v: &str) -> String { format!("<block var=\"{v}\" collabId=\"{}\"/>", ids.next()) }
pub fn l(t: &str) -> String { format!("<l>{}</l>", esc(t)) }
pub fn flag(ids: &mut Ids) -> String { block(ids, "receiveGo", "") }
fn wait(ids: &mut Ids, s: &str) -> String { block(ids, "doWait", &l(s)) }
pub fn script(body: &str) -> String { format!("<script x=\"1\" y=\"1\">{body}</script>") }
/// say "p s j <i>"
fn say_line(ids: &mut Ids, p: usize, j: usize) -> String { let v = getvar(ids, "i"); let cat = block(ids, "reportJoinWords", &format!("<list>{}{v}</list>", l(&format!("p{p} s{j} ")))); block(ids, "bubble", &cat) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Lines, Fails, Endless, Pauses(usize) }
#[derive(Clone)]
pub struct Scr { pub kind: Kind, pub n: usize, pub fail_at: String }
#[derive(Clone)]
pub struct Prog { pub scripts: Vec<Scr>, pub xml: String, pub id: usize }
impl Prog {
    pub fn endless(&self) -> bool { self.scripts.iter().any(|s| s.kind == Kind::Endless) }
    pub fn pauses(&self) -> Option<usize> { match self.scripts.first().map(|s| s.kind) { Some(Kind::Pauses(k)) => Some(k), _ => None } }
}
pub fn prog(g: &mut Gen, id: usize) -> Prog { prog_of(g, id, false) }
fn prog_of(g: &mut Gen, id: usize, many: bool) -> Prog {
    let mut ids = Ids(id * 1000);
    let mut body = String::new();
    let mut scripts = vec![];
    let pauses = g.chance(1, 4);
    let many = many && !pauses && g.chance(1, 10);
    let m = if pauses { 1 } else if many { 8 + g.below(12) } else { 1 + g.below(3) };
    for j in 0..m {
        let n = g.below(8);
        let kind = if pauses { Kind::Pauses(g.below(n + 1)) } else { match g.weighted(&if many { [2, 6, 0] } else { [5, 3, 1] }) { 0 => Kind::Lines, 1 => Kind::Fails, _ => Kind::Endless } };
        let pace = if many { "" } else { g.pickc(&["", "", "0.001", "0.004", "0.015"]) };
        let mut s = flag(&mut ids);
        s += &block(&mut ids, "doDeclareVariables", "<list><l>i</l></list>");
        let set = |ids: &mut Ids, v: &str| block(ids, "doSetVar", &format!("<l>i</l>{}", l(v)));
        s += &set(&mut ids, "0");
        let step = |ids: &mut Ids| { let mut t = block(ids, "doChangeVar", "<l>i</l><l>1</l>"); t += &say_line(ids, id, j); if !pace.is_empty() { t += &wait(ids, pace); } t };
        let mut fail_at = String::new();
        let rep = |ids: &mut Ids, n: usize| { let b = step(ids); block(ids, "doRepeat", &format!("{}<script>{b}</script>", l(&n.to_string()))) };
        match kind {
            Kind::Lines => s += &rep(&mut ids, n),
            Kind::Fails => {
                s += &rep(&mut ids, n);
                // the fifth item of an empty list, or a thrown text: either way the location is known
                fail_at = ids.next();
                if g.bool() { s += &format!("<block s=\"doThrow\" collabId=\"{fail_at}\">{}</block>", l("went wrong")); }
                else { let e = block(&mut ids, "reportNewList", "<list></list>"); let b = block(&mut ids, "bubble", &format!("<block s=\"reportListItem\" collabId=\"{fail_at}\"><l>5</l>{e}</block>")); s += &b; }
                // never said
                s += &block(&mut ids, "bubble", &l("unreachable"));
            }
            Kind::Endless => { let b = step(&mut ids); s += &block(&mut ids, "doForever", &format!("<script>{b}</script>")) }
            Kind::Pauses(k) => { s += &rep(&mut ids, k); s += &block(&mut ids, "doPauseAll", ""); s += &rep(&mut ids, n - k); }
        }
        body += &script(&s);
        scripts.push(Scr { kind, n: if kind == Kind::Endless { usize::MAX } else { n }, fail_at });
    }
    Prog { scripts, xml: project_xml(&body), id }
}

// ------------------------------------------------------------------ C39

#[derive(Clone, Debug, PartialEq)]
enum Said { Line(usize, usize, usize), Fail(usize, usize), Loaded, LoadError }
/// The output as a sequence of events; errors in the list stand where the output reports them.
fn events(out: &str, errors: &mut VecDeque<Json>, progs: &[Prog], what: &str) -> Result<Vec<Said>, String> {
    let mut v = vec![];
    for line in out.split('\n') {
        if line.is_empty() || line.starts_with(">>> see red") || line.starts_with(">>> keeping previous") { continue }
        if line.starts_with(">>> loaded project") { v.push(Said::Loaded); continue }
        if line.starts_with(">>> project load error") { v.push(Said::LoadError); continue }
        if line.starts_with(">>> runtime error in entity") {
            ensure!(line.contains("\"Sprite\""), "{what}an error is reported for another entity: {line}");
            let e = errors.pop_front().ok_or_else(|| format!("{what}the output reports an error that is not in the list: {line}"))?;
            let loc = e["trace"].as_array().and_then(|x| x.last()).and_then(|x| x["location"].as_str()).unwrap_or("");
            let hit = progs.iter().flat_map(|p| p.scripts.iter().enumerate().map(move |(j, s)| (p.id, j, s))).find(|x| !x.2.fail_at.is_empty() && x.2.fail_at == loc).ok_or_else(|| format!("{what}an error at {loc:?}, where nothing fails: {e}"))?;
            ensure!(e["entity"] == "Sprite" && e["cause"].as_str().is_some_and(|x| !x.is_empty()), "{what}the error is reported as {e}");
            // the counter of the script is in the report
            let i = e["trace"].as_array().unwrap().last().unwrap()["locals"].as_array().and_then(|x| x.iter().find(|x| x["name"] == "i")).map(|x| x["value"].as_str().unwrap_or("").trim_matches('"').to_string());
            ensure!(i == Some(hit.2.n.to_string()), "{what}the failing script counted to {i:?}, it counts to {}", hit.2.n);
            v.push(Said::Fail(hit.0, hit.1));
            continue
        }
        let t = line.strip_prefix("Entity \"Sprite\" > \"p").and_then(|x| x.strip_suffix('"')).ok_or_else(|| format!("{what}strange output {line:?}"))?;
        let w: Vec<usize> = t.split(' ').filter_map(|x| x.trim_start_matches('s').parse().ok()).collect();
        ensure!(w.len() == 3, "{what}strange output {line:?}");
        v.push(Said::Line(w[0], w[1], w[2]));
    }
    Ok(v)
}
#[derive(Clone, Debug)]
enum Cmd { Start, Stop, Load(usize), Bad }
/// Where a script is: the number of lines said in the present run, or not running. Two starts in a row leave it open
/// which of them said something, so that the model keeps all the places a script can be at.
type At = Option<usize>;
struct Model { progs: Vec<Prog>, cur: Option<usize>, at: Vec<Vec<BTreeSet<At>>>, running: bool }
impl Model {
    /// Checks one stretch of output, in which the commands took effect in their order.
    fn segment(&mut self, cmds: &[Cmd], said: &[Said], resumed: bool, what: &str) -> CheckResult {
        let frozen = !self.running && !resumed;
        for p in 0..self.progs.len() {
            for j in 0..self.progs[p].scripts.len() {
                let s = self.progs[p].scripts[j].clone();
                let mine: Vec<Option<usize>> = said.iter().filter_map(|x| match x { Said::Line(a, b, i) if (*a, *b) == (p, j) => Some(Some(*i)), Said::Fail(a, b) if (*a, *b) == (p, j) => Some(None), _ => None }).collect();
                // (position, commands done, current project, frozen)
                let mut states: BTreeSet<(At, usize, Option<usize>, bool)> = BTreeSet::new();
                states.extend(self.at[p][j].iter().map(|a| (*a, 0, self.cur, frozen)));
                let close = |st: &mut BTreeSet<(At, usize, Option<usize>, bool)>| {
                    let mut todo: Vec<_> = st.iter().cloned().collect();
                    while let Some((a, k, cur, fr)) = todo.pop() {
                        if let Some(c) = cmds.get(k) {
                            let next = match c { Cmd::Start => (if cur == Some(p) { Some(0) } else { None }, k + 1, cur, false), Cmd::Stop => (None, k + 1, cur, fr), Cmd::Load(q) => (None, k + 1, Some(*q), fr), Cmd::Bad => (a, k + 1, cur, fr) };
                            if st.insert(next) { todo.push(next); }
                        }
                    }
                };
                close(&mut states);
                for m in &mine {
                    let mut next = BTreeSet::new();
                    for (a, k, cur, fr) in &states {
                        let Some(a) = a else { continue };
                        if *fr { continue }
                        match m { Some(i) if *i == a + 1 && *i <= s.n => { next.insert((Some(a + 1), *k, *cur, false)); } None if s.kind == Kind::Fails && *a == s.n => { next.insert((None, *k, *cur, false)); } _ => () }
                    }
                    if next.is_empty() { return Err(format!("{what}script {j} of project {p} was at {:?} (of {}){}, then {cmds:?}; it said {mine:?}, of which {m:?} cannot follow", self.at[p][j], s.n, if frozen { ", the server paused" } else { "" })) }
                    states = next;
                    close(&mut states);
                }
                let ends: BTreeSet<At> = states.iter().filter(|x| x.1 == cmds.len()).map(|x| x.0).collect();
                if ends.is_empty() { return Err(format!("{what}script {j} of project {p}: {cmds:?} cannot give {mine:?}")) }
                self.at[p][j] = ends;
            }
        }
        for c in cmds { match c { Cmd::Load(q) => self.cur = Some(*q), Cmd::Start => self.running = true, _ => () } }
        let loads = cmds.iter().filter(|c| matches!(c, Cmd::Load(_))).count();
        let bads = cmds.iter().filter(|c| matches!(c, Cmd::Bad)).count();
        let (a, b) = (said.iter().filter(|x| **x == Said::Loaded).count(), said.iter().filter(|x| **x == Said::LoadError).count());
        // a project that opens but does not compile is announced before it is refused
        ensure!(a >= loads && a <= loads + bads && b == bads, "{what}{cmds:?}: {a} projects reported loaded, {b} refused");
        Ok(())
    }
    fn finished(&self) -> bool {
        let Some(c) = self.cur else { return true };
        self.progs[c].scripts.iter().zip(&self.at[c]).all(|(s, a)| a.iter().any(|a| match (s.kind, a) { (Kind::Endless, Some(a)) => *a > 2, (Kind::Fails, a) => a.is_none(), (_, Some(a)) => *a == s.n, (_, None) => true }))
    }
}
fn c39(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    with_nb(false, |nb| {
        let np = 1 + g.below(3);
        let progs: Vec<Prog> = (0..np).map(|i| prog_of(g, i, true)).collect();
        let mut what = String::new();
        for p in &progs { what += &format!("project {}: {:?}\n", p.id, p.scripts.iter().map(|s| (s.kind, s.n)).collect::<Vec<_>>()); }
        let at = progs.iter().map(|p| vec![BTreeSet::from([None]); p.scripts.len()]).collect();
        let mut m = Model { cur: None, at, running: true, progs };
        let mut current: Option<String> = None;
        let n = 3 + g.len(12);
        let (mut starts, mut pauses, mut fails, mut bads) = (0, 0, 0, 0);
        macro_rules! seg { ($cmds:expr, $resumed:expr) => {{
            let o = nb.fence()?;
            let ev = events(&o, &mut nb.errors, &m.progs, &what)?;
            fails += ev.iter().filter(|x| matches!(x, Said::Fail(..))).count();
            m.segment($cmds, &ev, $resumed, &what)?;
        }} }
        for _ in 0..n {
            cx.evals += 1;
            let pausing = m.cur.is_some_and(|c| m.progs[c].pauses().is_some());
            match g.weighted(&[4, 5, 2, 4, 4, 2, 2, 2]) {
                0 | 1 if !pausing => {
                    // a burst of commands
                    let mut cmds = vec![];
                    for _ in 0..1 + g.len(3) {
                        let cur = cmds.iter().rev().find_map(|c| match c { Cmd::Load(q) => Some(*q), _ => None }).or(m.cur);
                        let halt = cur.is_some_and(|c| m.progs[c].pauses().is_some());
                        match g.weighted(&[3, if halt || cur.is_none() { 0 } else { 4 }, 1, 1]) {
                            0 => {
                                let q = g.below(np);
                                what += &format!("load {q}; ");
                                let mut x = m.progs[q].xml.clone();
                                if g.chance(1, 150) { let n = g.pickc(&[300_000, 1_100_000, 5_000_000]); cx.label("large project"); x = x.replace("<notes></notes>", &format!("<notes>{}</notes>", "note ".repeat(n / 5))); ensure!(x.len() > n, "no notes"); }
                                nb.post_project(&x)?; current = Some(x); cmds.push(Cmd::Load(q)); }
                            1 => { what += "start; "; nb.input("start")?; starts += 1; cmds.push(Cmd::Start); }
                            2 => { what += "stop; "; nb.input("stop")?; cmds.push(Cmd::Stop); }
                            _ => {
                                let k = g.below(6);
                                what += &format!("load bad {k}; ");
                                let x = match k {
                                    0 => "<room".to_string(),
                                    1 => EMPTY.replace("</room>", &format!("{}</room>", &EMPTY[EMPTY.find("<role").unwrap()..EMPTY.rfind("</room>").unwrap()].replace("\"myRole\"", "\"other\""))),
                                    2 => "<room></room>".into(),
                                    3 => { let mut i = Ids(9000); let f = flag(&mut i); let b = getvar(&mut i, "nobody declared this"); let b = block(&mut i, "bubble", &b); project_xml(&script(&(f + &b))) }
                                    5 => { let mut i = Ids(9050); let f = block(&mut i, "receiveKey", "<l><option>no such key</option></l><list></list>"); let b = block(&mut i, "bubble", "<l>x</l>"); project_xml(&script(&(f + &b))) }
                                    _ => { let mut i = Ids(9100); let f = block(&mut i, "receiveKey", "<l>no such key</l><list></list>"); let b = block(&mut i, "bubble", "<l>x</l>"); project_xml(&script(&(f + &b))) }
                                };
                                nb.post_project(&x)?;
                                bads += 1;
                                if k == 3 || k == 4 {
                                    // an error with a place in the project is listed
                                    what += "\n";
                                    let o = nb.fence()?;
                                    let (mine, rest): (Vec<Json>, Vec<Json>) = nb.errors.drain(..).partition(|x| x["trace"][0]["location"].as_str().is_some_and(|l| l.starts_with("item_900") || l.starts_with("item_910")));
                                    nb.errors = rest.into();
                                    ensure!(mine.len() == 1 && mine[0]["entity"] == "Sprite", "{what}a project with a bad block gives the errors {mine:?}");
                                    cmds.push(Cmd::Bad);
                                    let ev = events(&o, &mut nb.errors, &m.progs, &what)?;
                                    m.segment(&cmds, &ev, false, &what)?;
                                    cmds.clear();
                                } else { cmds.push(Cmd::Bad); }
                            }
                        }
                    }
                    what += "\n";
                    if !cmds.is_empty() { seg!(&cmds, false); }
                }
                0 => { let q = g.below(np); what += &format!("load {q}\n"); let x = m.progs[q].xml.clone(); nb.post_project(&x)?; current = Some(x); seg!(&[Cmd::Load(q)], false); }
                1 => {
                    // a project that pauses itself
                    what += "start, wait for the pause\n";
                    nb.input("start")?; starts += 1; pauses += 1;
                    // paused before, it takes a moment until it runs
                    let early = !m.running;
                    if early { seg!(&[Cmd::Start], false); }
                    nb.until(&format!("{what}the project pauses"), |n| !n.running)?;
                    if early { seg!(&[], false); } else { seg!(&[Cmd::Start], false); }
                    let c = m.cur.unwrap(); let k = m.progs[c].pauses().unwrap();
                    ensure!(m.at[c][0].remove(&Some(k)), "{what}paused after {:?} lines, the pause comes after {k}", m.at[c][0]);
                    m.at[c][0] = BTreeSet::from([Some(k)]);
                    m.running = false;
                }
                2 => { what += "stop\n"; nb.input("stop")?; seg!(&[Cmd::Stop], false); }
                3 => {
                    what += "toggle\n";
                    let was = m.running;
                    nb.toggle()?;
                    pauses += 1;
                    seg!(&[], !was);
                    m.running = !was;
                    ensure!(nb.running == m.running, "{what}the server claims to be running: {}", nb.running);
                    seg!(&[], false);
                }
                4 => {
                    if !m.running { continue }
                    what += "wait for the end\n";
                    let end = Instant::now() + patience();
                    while !m.finished() {
                        seg!(&[], false);
                        if Instant::now() > end { lose_patience(); return Err(format!("{what}the scripts never finish: {:?} of {:?}", m.at, m.cur)) }
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    seg!(&[], false);
                }
                5 => {
                    what += "get project\n";
                    let (c, t, b) = nb.http("GET", "/project", b"")?;
                    ensure!(c == 200 && t.contains("xml"), "{what}the project is answered with {c} {t:?}");
                    let want = current.clone();
                    if let Some(w) = want { ensure!(b == w.as_bytes(), "{what}the project handed back is not the one loaded last: {}", String::from_utf8_lossy(&b)); }
                }
                6 => {
                    let body: &[u8] = g.pickc(&[&b"begin"[..], b"", b"START", b"start ", b"\xff\xfe", b"pause"]);
                    what += &format!("input {:?}\n", String::from_utf8_lossy(body));
                    let (c, _, _) = nb.http("POST", "/input", body)?;
                    ensure!(c == 400, "{what}answered {c}");
                    let (c, _, _) = nb.http("POST", "/project", b"\xff\xfe<room/>")?;
                    ensure!(c == 400, "{what}a project that is not text is answered {c}");
                    seg!(&[], false);
                }
                _ => {
                    what += "wait a little\n";
                    std::thread::sleep(Duration::from_millis(g.below(6) as u64));
                    for _ in 0..g.below(4) { nb.pull()?; ensure!(nb.running == m.running, "{what}the server claims to be running: {}", nb.running); }
                    if g.chance(1, 8) {
                        let (c, t, b) = nb.http("GET", "/extension.js", b"")?;
                        let b = String::from_utf8_lossy(&b).to_string();
                        ensure!(c == 200 && t.contains("javascript") && b.contains(&format!("http://127.0.0.1:{}", nb.port)), "{what}the extension is answered with {c} {t:?}, naming the server: {}", b.contains(&nb.port.to_string()));
                    }
                    seg!(&[], false);
                }
            }
            // the flag of a status may be older than its output
            if nb.running != m.running { nb.pull()?; }
            ensure!(nb.running == m.running, "{what}the server claims to be running: {}", nb.running);
        }
        what += "stop\n";
        nb.input("stop")?;
        seg!(&[Cmd::Stop], false);
        ensure!(nb.errors.is_empty(), "{what}errors in the list that the output does not mention: {:?}", nb.errors);
        cx.nt_if(starts > 0 && n > 4); cx.label_if(pauses > 0, "paused or resumed"); cx.label_if(fails > 0, "runtime error"); cx.label_if(bads > 0, "project refused"); cx.label_if(starts > 1, "started again");
        cx.sample(|| what.clone());
        Ok(())
    })
}

// ------------------------------------------------------------------ C40

fn c40(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    with_nb(true, |nb| {
        let dir = nb.dir.clone().unwrap();
        for f in std::fs::read_dir(&dir).map_err(|e| e.to_string())?.flatten() { let _ = std::fs::remove_file(f.path()); }
        let path = |k: usize| dir.join(format!("f{k}")).to_string_lossy().to_string();
        #[derive(Clone)]
        struct H { file: usize, mode: char, open: bool, pos: usize, buf: String }
        let mut files: BTreeMap<usize, String> = BTreeMap::new();
        const FULL: usize = 99;
        let mut lost = 0;
        /// Closing says OK when everything written is in the file.
        fn shut(h: &mut H, files: &mut BTreeMap<usize, String>) -> Result<String, &'static str> {
            let t = std::mem::take(&mut h.buf);
            let open = std::mem::replace(&mut h.open, false);
            if open && h.mode == 'w' && h.file == FULL && !t.is_empty() { return Err("no room") }
            if open && h.mode == 'w' && h.file != FULL { files.get_mut(&h.file).unwrap().push_str(&t); }
            Ok("OK".into())
        }
        let mut hs: [Option<H>; 3] = [None, None, None];
        let mut ids = Ids(0);
        let mut body = flag(&mut ids);
        let mut what = String::new();
        // a file written by somebody else, without a last newline
        if g.chance(1, 2) { let t = if g.chance(1, 10) { let a = long(g); format!("{a}\n{}\nshort", long(g)) } else { g.pickc(&["one\ntwo", "x\n\ny\r\nz\n", "", "ünï\n日本\n"]).to_string() }; std::fs::write(path(0), &t).unwrap(); what += &format!("f0 holds {t:?}\n"); files.insert(0, t); }
        body += &block(&mut ids, "doDeclareVariables", "<list><l>h0</l><l>h1</l><l>h2</l></list>");
        let mut want: Vec<Result<String, &'static str>> = vec![];
        let (mut reads, mut errs) = (0, 0);
        fn call(ids: &mut Ids, name: &str, args: &str) -> String { block(ids, "nativeCallSyscall", &format!("<l>{name}</l><list>{args}</list>")) }
        // every call is guarded, and says its result or that it was refused
        fn guard(ids: &mut Ids, inner: String) -> String {
            let e = getvar(ids, "e");
            let show = block(ids, "bubble", &block(&mut Ids(ids.0 + 500_000), "reportJoinWords", &format!("<list><l>refused: </l>{e}</list>")));
            block(ids, "doTryCatch", &format!("<script>{inner}</script><l>e</l><script>{show}</script>"))
        }
        fn long(g: &mut Gen) -> String { let n = g.pickc(&[1_000, 4_000, 9_000, 20_000, 70_000]) + g.below(500); let c = g.pickc(&["a", "xyz", "é", "日本語"]); (0..n / c.len()).map(|i| if i % 50 == 49 { " " } else { c }).collect() }
        let words = ["hello", "a b", "", "<x> & \"y\"", "é日本", "-", "end\\n"];
        let n = 6 + g.below(45);
        for _ in 0..n {
            cx.evals += 1;
            let k = g.below(3);
            // mostly what the handle is for
            let (w, r, c, o) = match &hs[k] { None => (0, 0, 0, 9), Some(h) if !h.open => (1, 1, 1, 9), Some(h) if h.mode == 'w' => (9, 1, 4, 0), Some(_) => (1, 9, 2, 0) };
            match g.weighted(&[o, w, r, c, 1]) {
                0 => {
                    if std::path::Path::new("/dev/full").exists() && g.chance(1, 12) {
                        // a device on which nothing can be kept
                        let mode = g.pickc(&["w", "a"]);
                        what += &format!("h{k} = open /dev/full {mode:?}\n");
                        let c = call(&mut ids, "open", &format!("{}{}", l("/dev/full"), l(mode)));
                        let set = block(&mut ids, "doSetVar", &format!("<l>h{k}</l>{c}"));
                        let said = block(&mut ids, "bubble", &l("opened"));
                        body += &guard(&mut ids, set + &said);
                        want.push(Ok("opened".into()));
                        hs[k] = Some(H { file: FULL, mode: 'w', open: true, pos: 0, buf: String::new() });
                        continue
                    }
                    let f = g.below(3);
                    if hs.iter().flatten().any(|h| h.open && h.file == f) { continue }
                    let mode = if files.contains_key(&f) { g.pickc(&["r", "r", "r", "r", "r", "a", "a", "w", "x"]) } else { g.pickc(&["w", "w", "a", "r", ""]) };
                    what += &format!("h{k} = open f{f} {mode:?}\n");
                    let c = call(&mut ids, "open", &format!("{}{}", l(&path(f)), l(mode)));
                    let set = block(&mut ids, "doSetVar", &format!("<l>h{k}</l>{c}"));
                    let said = block(&mut ids, "bubble", &l("opened"));
                    body += &guard(&mut ids, set + &said);
                    match mode {
                        "r" if !files.contains_key(&f) => { want.push(Err("open")); errs += 1; }
                        "r" => { want.push(Ok("opened".into())); hs[k] = Some(H { file: f, mode: 'r', open: true, pos: 0, buf: String::new() }); }
                        "w" | "a" => { if mode == "w" { files.insert(f, String::new()); } else { files.entry(f).or_default(); } want.push(Ok("opened".into())); hs[k] = Some(H { file: f, mode: 'w', open: true, pos: 0, buf: String::new() }); }
                        _ => { want.push(Err("mode")); errs += 1; }
                    }
                }
                1 => {
                    let Some(h) = &mut hs[k] else { continue };
                    let (mut t, mut arg) = (g.pick(&words).to_string(), String::new());
                    if h.file != FULL && g.chance(1, 60) { t = long(g); cx.label("long line"); }
                    if g.chance(1, 5) { let (a, b) = g.pickc(&[("2.25", "1.5"), ("1e20", "10000000000"), ("0.0625", "0.25"), ("9", "3")]); t = b.to_string(); arg = block(&mut ids, "reportMonadic", &format!("<l><option>sqrt</option></l>{}", l(a))); }
                    else if g.chance(1, 8) { t = g.pickc(&["true", "false"]).to_string(); arg = block(&mut ids, "reportBoolean", &format!("<l><bool>{t}</bool></l>")); }
                    if arg.is_empty() { arg = l(&t); }
                    what += &format!("write {t:?} to h{k}\n");
                    let v = getvar(&mut ids, &format!("h{k}"));
                    let c = call(&mut ids, "writeLine", &format!("{v}{arg}"));
                    let b = block(&mut ids, "bubble", &c);
                    body += &guard(&mut ids, b);
                    if h.mode != 'w' { want.push(Err("writeLine")); errs += 1; } else if !h.open { want.push(Err("closed")); errs += 1; } else { h.buf += &t; h.buf += "\n"; want.push(Ok("OK".into())); }
                }
                2 => {
                    let Some(h) = &mut hs[k] else { continue };
                    what += &format!("read from h{k}\n");
                    let v = getvar(&mut ids, &format!("h{k}"));
                    let c = call(&mut ids, "readLine", &v);
                    let cat = block(&mut ids, "reportJoinWords", &format!("<list><l>read: </l>{c}</list>"));
                    let b = block(&mut ids, "bubble", &cat);
                    body += &guard(&mut ids, b);
                    if h.mode != 'r' { want.push(Err("readLine")); errs += 1; } else if !h.open { want.push(Err("closed")); errs += 1; } else {
                        let rest = &files[&h.file][h.pos..];
                        let line = match rest.find('\n') { Some(i) => &rest[..=i], None => rest };
                        h.pos += line.len();
                        reads += 1;
                        want.push(Ok(format!("read: {line}")));
                    }
                }
                3 => {
                    let Some(h) = &mut hs[k] else { continue };
                    what += &format!("close h{k}\n");
                    let v = getvar(&mut ids, &format!("h{k}"));
                    let c = call(&mut ids, "close", &v);
                    let b = block(&mut ids, "bubble", &c);
                    body += &guard(&mut ids, b);
                    let r = shut(h, &mut files);
                    if r.is_err() { errs += 1; lost += 1; }
                    want.push(r);
                }
                _ => {
                    // the wrong number or kind of arguments, and a call nobody knows
                    let (name, args) = g.pickc(&[("open", "<l>x</l>"), ("open", ""), ("open", "<l>a</l><block s=\"reportNewList\"><list></list></block>"), ("close", ""), ("close", "<l>x</l>"), ("readLine", "<l>x</l>"), ("readLine", ""), ("writeLine", "<l>x</l><l>y</l>"), ("writeLine", "<l>x</l>"), ("nothing", "<l>1</l>")]);
                    what += &format!("{name} with {args}\n");
                    let c = call(&mut ids, name, args);
                    let b = block(&mut ids, "bubble", &c);
                    body += &guard(&mut ids, b);
                    want.push(Err("syscall")); errs += 1;
                }
            }
        }
        for k in 0..3 { if let Some(h) = &mut hs[k] && h.open {
            let v = getvar(&mut ids, &format!("h{k}"));
            let c = call(&mut ids, "close", &v);
            let b = block(&mut ids, "bubble", &c);
            body += &guard(&mut ids, b);
            let r = shut(h, &mut files);
            if r.is_err() { lost += 1; }
            want.push(r);
        } }
        body += &block(&mut ids, "bubble", &l("THE END"));
        nb.post_project(&project_xml(&script(&body)))?;
        nb.input("start")?;
        nb.until(&format!("{what}the program ends"), |n| n.out.contains("\"THE END\"") || !n.errors.is_empty() || n.out.contains("load error"))?;
        let o = nb.fence()?;
        ensure!(nb.errors.is_empty(), "{what}errors: {:?}\n{o}", nb.errors);
        let lines: Vec<&str> = o.split('\n').filter(|x| !x.is_empty() && !x.starts_with(">>> loaded")).collect();
        for (i, w) in want.iter().enumerate() {
            let Some(got) = lines.get(i) else { return Err(format!("{what}only {} results: {lines:?}", lines.len())) };
            match w {
                Ok(t) => { let x = format!("Entity \"Sprite\" > {t:?}"); ensure!(*got == x, "{what}result {i} is {got}\nexpected {x}"); }
                Err(t) => ensure!(got.starts_with("Entity \"Sprite\" > \"refused: "), "{what}result {i} is {got}\nexpected a refusal ({t})"),
            }
        }
        ensure!(lines.len() == want.len() + 1, "{what}{} results, expected {}: {lines:?}", lines.len(), want.len() + 1);
        for (f, t) in &files { let d = std::fs::read_to_string(path(*f)).map_err(|e| format!("{what}f{f}: {e}"))?; ensure!(d == *t, "{what}in the end f{f} holds {d:?}\nexpected {t:?}"); }
        for f in 0..3 { ensure!(files.contains_key(&f) || !std::path::Path::new(&path(f)).exists(), "{what}f{f} appeared"); }
        cx.nt_if(reads > 0 && want.len() > 4); cx.label_if(errs > 0, "refused"); cx.label_if(reads > 0, "line read"); cx.label_if(lost > 0, "no room on the device");
        cx.sample(|| what.clone());
        Ok(())
    })
}

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C39", rule: "histories of loads, refused loads, starts, stops, pauses and pulls sent to the execution server, whose output and errors have to be those of a counting model (non-trivial: something was started and five or more commands)",
            assumptions: &["the loopback interface delivers what is written to it", "what does not happen within 20 s never happens"],
            subs: vec![Sub { name: "server", run: c39, quick: 6000, thorough: 60000 }], probes: vec![] },
        Claim { id: "C40", rule: "programs of random file calls run by the execution server, against a model of files and handles (non-trivial: five or more calls, one of them reading a line)",
            assumptions: &["the loopback interface delivers what is written to it", "the file system of the scratch directory works"],
            subs: vec![Sub { name: "files", run: c40, quick: 6000, thorough: 60000 }], probes: vec![] },
    ]
}
