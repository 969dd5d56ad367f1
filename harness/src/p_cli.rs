//! C42: the command line program run on project files: the choice of the role, the disassembly it prints, a run into a
//! pipe, and a run on a terminal (a pseudo-terminal of our own, with what is drawn on it taken apart).
use crate::tape::Gen;
use crate::runner::*;
use crate::mock::*;
use netsblox_vm::ast;
use crate::p_api::ensure;
use crate::p_server::{block, esc, flag, getvar, l, prog, script, Ids, Kind, Prog};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const EMPTY: &str = netsblox_vm::template::EMPTY_PROJECT;
fn attr(t: &str) -> String { esc(t).replace('"', "&quot;") }
/// One role of that name, whose sprite has that name and those scripts; `vars` are the variables of the project.
fn role_xml(name: &str, sprite: &str, scripts: &str, vars: &str) -> String {
    let a = EMPTY.find("<role").unwrap();
    let z = EMPTY.rfind("</room>").unwrap();
    EMPTY[a..z].replace("\"myRole\"", &format!("\"{}\"", attr(name))).replace("\"Sprite\"", &format!("\"{}\"", attr(sprite)))
        .replace("<scripts></scripts></sprite>", &format!("<scripts>{scripts}</scripts></sprite>"))
        .replace("<blocks></blocks><variables></variables></project>", &format!("<blocks></blocks><variables>{vars}</variables></project>"))
}

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn scratch(text: &str) -> Scratch {
    thread_local! { static N: RefCell<usize> = const { RefCell::new(0) }; }
    let n = N.with(|n| { *n.borrow_mut() += 1; *n.borrow() });
    let p = std::env::temp_dir().join(format!("nbv-cli-{}-{:?}-{n}.xml", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::write(&p, text).expect("scratch file");
    Scratch(p)
}
thread_local! { static MOCK: RefCell<Option<Mock>> = const { RefCell::new(None) }; }
fn with_mock<T>(f: impl FnOnce(&Mock) -> T) -> T {
    let m = MOCK.with(|m| m.borrow_mut().take()).unwrap_or_else(Mock::start);
    { let mut s = m.st.0.lock().unwrap(); s.posts.clear(); s.frames.clear(); s.others.clear(); s.ws = None; }
    let r = f(&m);
    MOCK.with(|x| *x.borrow_mut() = Some(m));
    r
}
fn nb() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("nb"));
    c.current_dir(std::env::temp_dir());
    unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    c
}
struct Proc(Child);
impl Drop for Proc { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }

/// A project file with some roles, and the role somebody asks for.
struct Doc { xml: String, name: String, roles: Vec<String>, ask: Option<String>, broken: Option<&'static str> }
impl Doc {
    /// The role that runs, or what has to be named in the refusal.
    fn choice(&self) -> Result<usize, String> {
        if let Some(b) = self.broken { return Err(b.into()) }
        match &self.ask {
            Some(a) => self.roles.iter().position(|x| x == a).ok_or_else(|| a.clone()),
            None if self.roles.len() == 1 => Ok(0),
            None => Err(if self.roles.is_empty() { "no roles".into() } else { self.roles.len().to_string() }),
        }
    }
}
const ROLE_NAMES: &[&str] = &["myRole", "r1", "r2", "Role", "role", "a b", "r\"1\"", "<&>", "é日本", "R1", "r", "0"];
fn doc(g: &mut Gen, mut scripts: impl FnMut(&mut Gen, usize) -> String) -> Doc {
    let shape = g.weighted(&[6, 1, 1]);
    let n = if shape > 0 { 1 } else { g.weighted(&[1, 4, 4, 2, 1]) };
    let mut roles: Vec<String> = vec![];
    while roles.len() < n { let r = g.pickc(ROLE_NAMES).to_string(); if !roles.contains(&r) { roles.push(r) } else { roles.push(format!("{r}{}", roles.len())) } }
    let bodies: Vec<String> = roles.iter().enumerate().map(|(i, r)| { let s = scripts(g, i); role_xml(r, "Sprite", &s, "") }).collect();
    let name = g.pickc(&["my project", "p", "untitled", "x\"y", "ünï"]).to_string();
    let mut xml = match shape {
        0 => format!("<room name=\"{}\">{}</room>", attr(&name), bodies.concat()),
        1 => bodies[0].clone(),
        _ => { let b = &bodies[0]; b[b.find("<project").unwrap()..b.find("<media").unwrap()].to_string() }
    };
    if g.chance(1, 3) { xml = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n{xml}\n"); }
    let ask = match g.weighted(&[3, if roles.is_empty() { 0 } else { 5 }, 1]) { 0 => None, 1 => Some(g.pick(&roles).clone()), _ => Some(g.pickc(&["nobody", "", "myrole", "ROLE", "r1 ", "1"]).to_string()) };
    let mut broken = None;
    if g.chance(1, 10) {
        broken = Some("failed to parse");
        xml = match g.below(5) { 0 => xml.replace("<stage", "<stages").replace("</stage>", "</stages>"), 1 => String::new(), 2 => "no project at all".into(), 3 => { let n = xml.chars().count(); xml.chars().take(n / 2).collect() }, _ => xml.replace("</scripts>", "<script x=\"1\" y=\"1\"><block s=\"receiveGo\"></block><block s=\"noSuchBlockAtAll\"></block></script></scripts>") };
        // the parser is another project's: what it makes something of is not broken
        if ast::Parser::default().parse(&xml).is_ok() { xml = String::new(); }
        if roles.is_empty() && !xml.is_empty() { broken = None; xml = format!("<room name=\"{}\"></room>", attr(&name)); }
    }
    let name = if shape == 0 { name } else { roles[0].clone() };
    Doc { xml, name, roles, ask, broken }
}

/// The refusal of a project: the reason on the error stream, nothing else said, nobody contacted.
fn refused(what: &str, out: &std::process::Output, why: &str) -> CheckResult {
    let (o, e) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    ensure!(o.is_empty(), "{what}nothing to run, and it says {o:?}");
    ensure!(out.status.code().is_some_and(|x| x != 0 && x < 100), "{what}nothing to run, and it ends with {:?} {e:?}", out.status);
    ensure!(e.contains(why) && e.trim().len() > why.len(), "{what}nothing to run ({why}), and the reason given is {e:?}");
    Ok(())
}
fn c42_dump(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut id = 0;
    let d = doc(g, |g, i| { id += 1; let p = prog(g, i); let b = &p.xml; b[b.find("<scripts><script ").map_or(0, |x| x + 9)..b.find("</scripts></sprite>").unwrap()].to_string() });
    let mut c = nb();
    let f = scratch(&d.xml);
    let missing = g.chance(1, 12);
    let src = if missing { format!("{}.none", f.0.display()) } else { f.0.display().to_string() };
    // the order of the arguments does not matter
    let run = g.chance(1, 3);
    let mut args: Vec<Vec<String>> = vec![vec![src.clone()]];
    if let Some(a) = &d.ask { args.push(if g.bool() { vec![format!("--role={a}")] } else { vec!["--role".into(), a.clone()] }); }
    if g.bool() { args.reverse(); }
    let args: Vec<String> = args.concat();
    let why = if missing { Err(src.clone()) } else { d.choice() };
    // a run is only tried where there is nothing to run
    let run = run && why.is_err();
    let what = format!("roles {:?}, {} {args:?}\n", d.roles, if run { "run" } else { "dump" });
    let posts = with_mock(|m| -> Result<_, String> {
        if run { c.arg("run").args(["--server", &m.url()]); } else { c.arg("dump"); }
        let out = c.args(&args).stdin(Stdio::null()).output().map_err(|e| format!("{what}{e}"))?;
        let n = m.st.0.lock().unwrap().posts.len();
        Ok((out, n))
    })?;
    let (out, n) = posts;
    ensure!(n == 0, "{what}the server was told about it");
    cx.label_if(d.roles.len() > 1, "several roles"); cx.label_if(why.is_err(), "refused");
    cx.nt_if(d.roles.len() > 1 || why.is_err());
    cx.sample(|| what.clone());
    let k = match why { Err(w) => return refused(&what, &out, &w), Ok(k) => k };
    let got = String::from_utf8(out.stdout).map_err(|e| format!("{what}{e}"))?;
    ensure!(out.status.success() && out.stderr.is_empty(), "{what}the dump ends with {:?} {:?}", out.status, String::from_utf8_lossy(&out.stderr));
    let role = ast::Parser::default().parse(&d.xml).map_err(|e| format!("{what}{e:?}"))?.roles.into_iter().nth(k).ok_or("no such role")?;
    ensure!(role.name == d.roles[k], "{what}the role is called {}", role.name);
    let code = netsblox_vm::bytecode::ByteCode::compile(&role).map_err(|e| format!("{what}{e:?}"))?.0;
    let mut want = b"instructions:\n".to_vec();
    code.dump_code(&mut want).unwrap();
    want.extend(b"\ndata:\n");
    code.dump_data(&mut want).unwrap();
    want.extend(format!("\ntotal size: {}\n", code.total_size()).bytes());
    let want = String::from_utf8(want).unwrap();
    ensure!(got == want, "{what}the dump is\n{got}\nthe program is\n{want}");
    // the texts of that role are in it, and those of no other
    for i in 0..d.roles.len() { if got.contains(&format!("\"p{i} s0 \"")) || got.contains(&format!("p{i} s0 ")) { ensure!(i == k, "{what}the dump shows role {i}"); } }
    Ok(())
}

// ------------------------------------------------------------------ running into a pipe

fn readable(fd: i32, ms: i32) -> bool { let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 }; unsafe { libc::poll(&mut p, 1, ms) > 0 } }
/// Reads what there is within the time; false when the other side is gone.
fn pump(fd: i32, buf: &mut Vec<u8>, ms: i32) -> bool {
    if !readable(fd, ms) { return true }
    let mut b = [0u8; 8192];
    let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
    if n <= 0 { return false }
    buf.extend_from_slice(&b[..n as usize]);
    true
}
fn c42_run(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut progs: Vec<Prog> = vec![];
    let mut d = doc(g, |g, i| {
        let mut p = prog(g, i);
        for _ in 0..8 { if p.pauses().is_none() { break } p = prog(g, i); }
        let b = p.xml.clone(); progs.push(p);
        b[b.find("<scripts><script ").map_or(0, |x| x + 9)..b.find("</scripts></sprite>").unwrap()].to_string()
    });
    if d.choice().is_err() { if d.broken.is_some() || d.roles.is_empty() { return Ok(()) } d.ask = Some(g.pick(&d.roles).clone()); }
    let k = d.choice().unwrap();
    let p = &progs[k];
    if p.pauses().is_some() { return Ok(()) }
    let what = format!("roles {:?}, runs {:?}: {:?}\n", d.roles, d.ask, p.scripts.iter().map(|s| (s.kind, s.n)).collect::<Vec<_>>());
    let f = scratch(&d.xml);
    with_mock(|m| {
        let mut c = nb();
        c.arg("run").args(["--server", &m.url()]);
        if let Some(a) = &d.ask { c.arg(format!("--role={a}")); }
        let mut p2 = Proc(c.arg(&f.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("{what}{e}"))?);
        let fd = p2.0.stdout.as_ref().unwrap().as_raw_fd();
        let mut buf = vec![];
        let end = Instant::now() + patience();
        let mut enough = None;
        loop {
            let alive = pump(fd, &mut buf, 5);
            let text = String::from_utf8_lossy(&buf).to_string();
            let text = &text[..text.rfind('\n').map_or(0, |x| x + 1)];
            let fail = |e: String| Err(format!("{what}{e}; it said\n{text}"));
            let mut at = vec![0; p.scripts.len()];
            let mut fails = 0;
            let mut first = true;
            for line in text.lines().filter(|x| !x.is_empty()) {
                if first { first = false; if line.contains(&format!("{}@", d.name)) && line.ends_with("#vm") { continue } return fail("the first line does not name the project".into()) }
                if let Some(e) = line.strip_prefix(">>> runtime error: ") {
                    fails += 1;
                    if !e.contains("went wrong") && !e.contains("Index") { return fail(format!("an unknown error {e}")) }
                    if fails > p.scripts.iter().zip(&at).filter(|(s, a)| s.kind == Kind::Fails && s.n == **a).count() { return fail("an error before its script got there".into()) }
                    continue
                }
                let Some(t) = line.strip_prefix("Entity \"Sprite\" > \"p").and_then(|x| x.strip_suffix('"')) else { return fail(format!("a strange line {line:?}")) };
                let w: Vec<usize> = t.split(' ').filter_map(|x| x.trim_start_matches('s').parse().ok()).collect();
                if w.len() != 3 || w[0] != k || w[1] >= at.len() { return fail(format!("a line of another role {line:?}")) }
                at[w[1]] += 1;
                if w[2] != at[w[1]] || w[2] > p.scripts[w[1]].n { return fail(format!("script {} says {} as its line {}", w[1], w[2], at[w[1]])) }
            }
            let done = p.scripts.iter().zip(&at).all(|(s, a)| if s.kind == Kind::Endless { *a > 3 } else { *a == s.n }) && fails == p.scripts.iter().filter(|s| s.kind == Kind::Fails).count() && !first;
            match enough {
                // nothing more comes
                Some(t) if Instant::now() > t => break,
                Some(_) => (),
                None if done => enough = Some(Instant::now() + Duration::from_millis(4)),
                None => (),
            }
            if !alive || p2.0.try_wait().ok().flatten().is_some() { let mut e = String::new(); let _ = p2.0.stderr.take().map(|mut x| x.read_to_string(&mut e)); return fail(format!("the program ended by itself {e:?}")) }
            if Instant::now() > end { lose_patience(); return fail(format!("never happened: the scripts say all their lines; they are at {at:?} with {fails} errors")) }
        }
        // the server is told the name of the project
        let posts = m.st.0.lock().unwrap().posts.clone();
        ensure!(posts.iter().any(|x| x.0.starts_with("/projects") && x.1["name"] == d.name.as_str()), "{what}the server was told {posts:?}");
        Ok(())
    })?;
    cx.nt_if(p.scripts.iter().any(|s| s.n > 1)); cx.label_if(d.roles.len() > 1, "several roles");
    cx.label_if(p.scripts.iter().any(|s| s.kind == Kind::Fails), "runtime error"); cx.label_if(p.endless(), "endless");
    cx.sample(|| what.clone());
    Ok(())
}

// ------------------------------------------------------------------ running on a terminal

/// What was written to a terminal, taken apart: the lines that scroll, and the last status line with its row.
#[derive(Default, Debug, Clone, PartialEq)]
struct Screen { lines: Vec<String>, partial: String, status: Option<(usize, String)>, hidden: bool }
fn screen(b: &[u8]) -> Screen {
    let mut s = Screen::default();
    let (mut main, mut stat): (Vec<u8>, Option<(usize, Vec<u8>)>) = (vec![], None);
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            match b.get(i + 1) {
                Some(b'7') => { stat = Some((0, vec![])); i += 2; }
                Some(b'8') => { if let Some((r, t)) = stat.take() { s.status = Some((r, String::from_utf8_lossy(&t).to_string())); } i += 2; }
                Some(b'[') => {
                    let a = i + 2; let mut z = a;
                    while z < b.len() && !(0x40..0x7f).contains(&b[z]) { z += 1 }
                    let p = String::from_utf8_lossy(&b[a..z.min(b.len())]).to_string();
                    match b.get(z) {
                        Some(b'H') => if let Some(x) = &mut stat { x.0 = p.split(';').next().and_then(|x| x.parse().ok()).unwrap_or(1); },
                        Some(b'l') if p == "?25" => s.hidden = true,
                        Some(b'h') if p == "?25" => s.hidden = false,
                        _ => (),
                    }
                    i = z + 1;
                }
                _ => i += 1,
            }
            continue
        }
        match &mut stat { Some(x) => x.1.push(b[i]), None => main.push(b[i]) }
        i += 1;
    }
    let t = String::from_utf8_lossy(&main).to_string();
    let mut v: Vec<String> = t.split("\r\n").map(|x| x.to_string()).collect();
    s.partial = v.pop().unwrap_or_default();
    s.lines = v.into_iter().filter(|x| !x.is_empty()).collect();
    s
}
struct Tty { proc: Proc, master: OwnedFd, slave: OwnedFd, buf: Vec<u8>, cooked: (u32, u32, u32, u32) }
fn size(fd: i32, rows: u16, cols: u16) { let w = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 }; unsafe { libc::ioctl(fd, libc::TIOCSWINSZ, &w); } }
fn modes(fd: i32) -> (u32, u32, u32, u32) { unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(fd, &mut t); (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag) } }
impl Tty {
    fn start(mut c: Command, rows: u16) -> Result<Tty, String> {
        let (mut m, mut s) = (0, 0);
        let w = libc::winsize { ws_row: rows, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &w) } != 0 { return Err("no pseudo-terminal to be had".into()) }
        let (master, slave) = unsafe { (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
        for fd in [m, s] { unsafe { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC); } }
        let cooked = modes(s);
        let end = || slave.try_clone().map(Stdio::from).map_err(|e| e.to_string());
        c.stdin(end()?).stdout(end()?).stderr(Stdio::null()).env("TERM", "xterm").env_remove("NO_COLOR");
        // a session of its own, so that it hears of changes in size
        unsafe { c.pre_exec(|| { libc::setsid(); libc::ioctl(0, libc::TIOCSCTTY, 0); Ok(()) }); }
        let proc = Proc(c.spawn().map_err(|e| e.to_string())?);
        Ok(Tty { proc, master, slave, buf: vec![], cooked })
    }
    fn screen(&self) -> Screen { screen(&self.buf) }
    fn until(&mut self, what: &str, mut f: impl FnMut(&Screen) -> bool) -> CheckResult {
        let end = Instant::now() + patience();
        loop {
            let s = self.screen();
            if f(&s) { return Ok(()) }
            if Instant::now() > end { lose_patience(); return Err(format!("never happened: {what}; the terminal shows {s:?}")) }
            let before = self.buf.len();
            let alive = pump(self.master.as_raw_fd(), &mut self.buf, 3);
            if (!alive || before == self.buf.len()) && self.proc.0.try_wait().ok().flatten().is_some() { while readable(self.master.as_raw_fd(), 0) && pump(self.master.as_raw_fd(), &mut self.buf, 0) { } if f(&self.screen()) { return Ok(()) } return Err(format!("the program ended before {what}; the terminal shows {:?}", self.screen())) }
        }
    }
    /// Everything typed so far has been read by the program.
    fn taken(&mut self) -> CheckResult {
        let end = Instant::now() + patience();
        loop {
            let mut n: libc::c_int = 0;
            unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut n); }
            if n == 0 { return Ok(()) }
            if Instant::now() > end { lose_patience(); return Err(format!("never happened: the keys are read; the terminal shows {:?}", self.screen())) }
            pump(self.master.as_raw_fd(), &mut self.buf, 1);
        }
    }
    fn keys(&mut self, t: &[u8]) -> CheckResult {
        self.taken()?;
        let before = self.read_so_far();
        let n = unsafe { libc::write(self.master.as_raw_fd(), t.as_ptr() as *const libc::c_void, t.len()) };
        ensure!(n == t.len() as isize, "the terminal takes {n} bytes of {}", t.len());
        // an escape must not be read together with what follows it, and what is written here reaches the
        // terminal only after a while: an empty terminal does not say that it has been read
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(2) && matches!((before, self.read_so_far()), (Some(x), Some(y)) if y < x + t.len() as u64) { pump(self.master.as_raw_fd(), &mut self.buf, 1); }
        if t == b"\x1b" { std::thread::sleep(Duration::from_millis(3)); }
        self.taken()
    }
    /// the number of bytes which the program has read from anywhere
    fn read_so_far(&self) -> Option<u64> {
        let s = std::fs::read_to_string(format!("/proc/{}/io", self.proc.0.id())).ok()?;
        s.lines().find_map(|x| x.strip_prefix("rchar: "))?.trim().parse().ok()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Job { Say, Ask(String), Fail, Loop }
#[derive(Clone, Debug)]
struct Lis { on: Option<&'static str>, job: Job, sprite: usize, runs: usize, busy: bool }
const KEYS: &[(&str, &[u8])] = &[("a", b"a"), ("b", b"b"), ("x", b"x"), ("1", b"1"), ("space", b" "), ("up arrow", b"\x1b[A"), ("down arrow", b"\x1b[B"), ("left arrow", b"\x1b[D"), ("right arrow", b"\x1b[C")];
const PROMPTS: &[&str] = &["name?", "what \"now\"", "", "é?", "a\\b"];
const TYPED: &[&str] = &["bob", "", "42", "É ü", "a", "x1", " ", "\"q\"", "日本"];
fn c42_tty(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let sprites = [g.pickc(&["Sprite", "s p", "q\"q"]), "Other"];
    let mut lis: Vec<Lis> = vec![];
    for _ in 0..1 + g.below(6) {
        let on = match g.weighted(&[2, 9, 1]) { 0 => None, 1 => Some(g.pick(KEYS).0), _ => Some("any key") };
        let job = match g.weighted(&[6, 5, 2, 1]) { 0 => Job::Say, 1 => Job::Ask(g.pickc(PROMPTS).to_string()), 2 => Job::Fail, _ => Job::Loop };
        lis.push(Lis { on, job, sprite: g.below(2), runs: 0, busy: false });
    }
    lis.sort_by_key(|x| x.sprite);
    // the key that tells us that all is said
    lis.push(Lis { on: Some("z"), job: Job::Say, sprite: 1, runs: 0, busy: false });
    let mut ids = Ids(0);
    let mut xml = [String::new(), String::new()];
    let mut vars = String::new();
    for (j, s) in lis.iter().enumerate() {
        let mut b = match s.on { None => flag(&mut ids), Some(k) => block(&mut ids, "receiveKey", &format!("<l><option>{k}</option></l>")) };
        vars += &format!("<variable name=\"n{j}\"><l>0</l></variable>");
        b += &block(&mut ids, "doChangeVar", &format!("<l>n{j}</l><l>1</l>"));
        let v = getvar(&mut ids, &format!("n{j}"));
        match &s.job {
            Job::Say => { let cat = block(&mut ids, "reportJoinWords", &format!("<list>{}{v}</list>", l(&format!("said {j} ")))); b += &block(&mut ids, "bubble", &cat); }
            Job::Ask(p) => {
                b += &block(&mut ids, "doAsk", &l(p));
                let a = block(&mut ids, "getLastAnswer", "");
                let cat = block(&mut ids, "reportJoinWords", &format!("<list>{}{a}</list>", l(&format!("answer {j} ")))); b += &block(&mut ids, "bubble", &cat);
            }
            Job::Fail => { b += &block(&mut ids, "doThrow", &l(&format!("wrong {j}"))); b += &block(&mut ids, "bubble", &l("unreachable")); }
            Job::Loop => b += &block(&mut ids, "doForever", "<script></script>"),
        }
        xml[s.sprite] += &script(&b);
    }
    // two sprites: the second one is a copy of the first
    let role = role_xml("myRole", sprites[0], &xml[0], &vars);
    let (a, z) = (role.find("<sprite ").unwrap(), role.find("</sprites>").unwrap());
    let other = { let e = role_xml("myRole", sprites[1], &xml[1], ""); let (a, z) = (e.find("<sprite ").unwrap(), e.find("</sprites>").unwrap()); let mut t = e[a..z].replace("idx=\"1\"", "idx=\"2\""); for k in [10, 11, 12] { t = t.replace(&format!("id=\"{k}\""), &format!("id=\"{}\"", k + 10)); } t };
    let doc = format!("<room name=\"tty\">{}{}{other}{}</room>", &role[..a], &role[a..z], &role[z..]);
    let mut what = format!("{:?}\n", lis.iter().map(|x| (sprites[x.sprite], x.on.unwrap_or("flag"), &x.job)).collect::<Vec<_>>());
    let mut rows = g.pickc(&[24u16, 24, 5, 50, 1]);
    let f = scratch(&doc);
    let (mut asked, mut answered, mut stops, mut errors, mut bursts) = (0, 0, 0, 0, 0);
    with_mock(|m| {
        let mut c = nb();
        c.arg("run").args(["--server", &m.url()]).arg(&f.0);
        let mut t = Tty::start(c, rows)?;
        let cooked = t.cooked;
        // the model
        let mut want: Vec<String> = vec![];
        let mut open: VecDeque<usize> = VecDeque::new();
        let mut typed = String::new();
        let mut drawn = false;
        let said = |s: &Lis, x: &str| format!("Entity {:?} > {x:?}", sprites[s.sprite]);
        macro_rules! trigger { ($key:expr) => {{
            for j in 0..lis.len() {
                let s = &mut lis[j];
                let hit = match ($key, s.on) { (None, None) => true, (Some(k), Some(o)) => o == k || o == "any key", _ => false };
                if !hit || s.busy { continue }
                s.runs += 1;
                match &s.job {
                    Job::Say => { want.push(said(s, &format!("said {j} {}", s.runs))); drawn = true; }
                    Job::Ask(_) => { s.busy = true; open.push_back(j); drawn = true; asked += 1; }
                    Job::Fail => { want.push(format!("error wrong {j}")); errors += 1; }
                    Job::Loop => s.busy = true,
                }
            }
        }} }
        macro_rules! settled { () => {{
            let status = open.front().map(|j| { let Job::Ask(p) = &lis[*j].job else { unreachable!() }; (format!("{:?}", sprites[lis[*j].sprite]), if p.is_empty() { String::new() } else { format!("{p:?}") }, typed.clone()) });
            let ok = |s: &Screen| {
                let mut it = s.lines.iter();
                if !it.next().is_some_and(|x| x.contains("tty@")) { return false }
                let lines: Vec<&String> = it.collect();
                if lines.len() != want.len() || !s.partial.is_empty() { return false }
                if !lines.iter().zip(&want).all(|(a, w)| match w.strip_prefix("error ") { Some(w) => a.contains("runtime error") && a.contains(w), None => *a == w }) { return false }
                match (&status, &s.status) {
                    (_, Some((r, _))) if *r != (rows as usize).max(1) => false,
                    (None, x) => x.as_ref().map_or(!drawn, |x| x.1.is_empty()),
                    (Some((e, p, t)), Some((_, x))) => x.contains(e) && x.contains(p) && x.strip_suffix(t.as_str()).is_some_and(|x| x.ends_with("> ")),
                    (Some(_), None) => false,
                }
            };
            t.until(&format!("{what}lines {want:?} and status {status:?} at the bottom of {rows} rows"), ok)?;
        }} }
        trigger!(None::<&str>);
        settled!();
        ensure!(t.screen().hidden, "{what}the cursor is shown");
        let n = 3 + if g.bool() { g.below(25) } else { g.len(14) };
        for _ in 0..n {
            cx.evals += 1;
            match g.weighted(&[10, if open.is_empty() { 0 } else { 9 }, 2, 2, 1, if open.is_empty() { 3 } else { 0 }]) {
                0 => {
                    // one key, whatever it is for
                    let (name, bytes) = g.pickc(KEYS);
                    what += &format!("key {name}\n");
                    let mut b = bytes.to_vec();
                    if b.len() == 1 && g.chance(1, 6) { b.make_ascii_uppercase(); }
                    t.keys(&b)?;
                    if open.is_empty() { trigger!(Some(name)); }
                    else if b.len() == 1 { typed.push(b[0] as char); }
                }
                1 => {
                    let x = g.pickc(TYPED);
                    let back = g.chance(1, 4);
                    what += &format!("type {x:?}{} and enter\n", if back { ", twice back" } else { "" });
                    let mut b = x.as_bytes().to_vec();
                    typed += x;
                    if back { b.extend(b"\x7f\x7f"); typed.pop(); typed.pop(); }
                    b.push(b'\r');
                    t.keys(&b)?;
                    let j = open.pop_front().unwrap();
                    let a = std::mem::take(&mut typed);
                    want.push(said(&lis[j], &format!("answer {j} {a}")));
                    lis[j].busy = false;
                    answered += 1;
                }
                2 => {
                    what += "escape\n";
                    t.keys(b"\x1b")?;
                    for s in lis.iter_mut() { s.busy = false; }
                    if !open.is_empty() { drawn = true; }
                    open.clear(); typed.clear();
                    stops += 1;
                }
                3 => {
                    let (k, b) = g.pickc(&[("enter", &b"\r"[..]), ("backspace", b"\x7f"), ("tab", b"\t"), ("home", b"\x1b[H"), ("delete", b"\x1b[3~")]);
                    if k == "enter" && !open.is_empty() { continue }
                    what += &format!("key {k}\n");
                    t.keys(b)?;
                    if k == "backspace" { typed.pop(); }
                }
                5 => {
                    // several keys at once, none of which opens a question or starts what another one has started
                    let mut ks: Vec<_> = (0..2 + g.below(3)).map(|_| g.pickc(KEYS)).collect();
                    let mut seen = vec![];
                    ks.retain(|k| { let new = !seen.contains(&k.0); seen.push(k.0); new });
                    if lis.iter().any(|x| x.on == Some("any key") || matches!(x.job, Job::Ask(_)) && x.on.is_some_and(|o| seen.contains(&o))) { continue }
                    what += &format!("keys {seen:?} at once\n");
                    t.keys(&ks.iter().flat_map(|k| k.1.to_vec()).collect::<Vec<_>>())?;
                    for k in &ks { trigger!(Some(k.0)); }
                    bursts += (ks.len() > 1) as usize;
                }
                _ => {
                    let r = g.pickc(&[24u16, 10, 3, 60, 1]);
                    if r == rows { continue }
                    // (crossterm forgets a change of size that it hears of together with a key: one is seen to be read before)
                    t.keys(b"z")?;
                    if open.is_empty() { trigger!(Some("z")); } else { typed.push('z'); }
                    settled!();
                    rows = r;
                    what += &format!("{rows} rows\n");
                    size(t.master.as_raw_fd(), rows, 80);
                    drawn = true;
                }
            }
            settled!();
        }
        // nothing else was under way
        if !open.is_empty() { what += "escape\n"; t.keys(b"\x1b")?; for s in lis.iter_mut() { s.busy = false; } open.clear(); typed.clear(); settled!(); }
        what += "key z\n";
        t.keys(b"z")?;
        trigger!(Some("z"));
        settled!();
        ensure!(modes(t.slave.as_raw_fd()) != cooked, "{what}the terminal was never in raw mode");
        what += "control-C\n";
        t.keys(b"\x03").or_else(|e| if t.proc.0.try_wait().ok().flatten().is_some() { Ok(()) } else { Err(e) })?;
        let end = Instant::now() + patience();
        let st = loop {
            pump(t.master.as_raw_fd(), &mut t.buf, 2);
            if let Some(x) = t.proc.0.try_wait().ok().flatten() { break x }
            if Instant::now() > end { lose_patience(); return Err(format!("{what}never happened: the program ends")) }
        };
        while readable(t.master.as_raw_fd(), 0) && pump(t.master.as_raw_fd(), &mut t.buf, 0) { }
        let s = t.screen();
        ensure!(st.success(), "{what}the program ends with {st:?}; the terminal shows {s:?}");
        ensure!(modes(t.slave.as_raw_fd()) == cooked && !s.hidden, "{what}the terminal is left in another mode (cursor hidden: {})", s.hidden);
        ensure!(s.lines.len() == want.len() + 1, "{what}in the end the terminal shows {s:?}\nexpected {want:?}");
        Ok(())
    })?;
    cx.nt_if(answered > 0 || lis.iter().any(|x| x.on.is_some() && x.runs > 1));
    cx.label_if(asked > answered, "question left open"); cx.label_if(answered > 0, "question answered"); cx.label_if(stops > 0, "stopped"); cx.label_if(bursts > 0, "several keys at once"); cx.label_if(errors > 0, "runtime error");
    cx.sample(|| what.clone());
    Ok(())
}

pub fn properties() -> Vec<Claim> {
    vec![Claim { id: "C42", rule: "dump: project files of any shape with roles to choose from, disassembled or refused (non-trivial: several roles, or a refusal); run: such a role run into a pipe, its lines and errors counted (non-trivial: a script of two lines or more); terminal: keys, answers, escapes and changes of size on a pseudo-terminal against a model of its lines and status line (non-trivial: a question answered, or a key script run twice)",
        assumptions: &["the loopback interface and the pseudo-terminal deliver what is written to them", "what does not happen within 20 s never happens"],
        subs: vec![Sub { name: "dump", run: c42_dump, quick: 6000, thorough: 100_000 }, Sub { name: "run", run: c42_run, quick: 1500, thorough: 20_000 }, Sub { name: "terminal", run: c42_tty, quick: 8000, thorough: 150_000 }], probes: vec![] }]
}
