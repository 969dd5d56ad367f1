//! C38: the standard host, run against a server on the loopback interface.
use crate::tape::Gen;
use crate::runner::*;
use crate::gens::*;
use crate::gprog::{ex, st, num as nume, txt, boolean, list, script, entity, role, obs, vref, var};
use crate::mock::*;
use crate::p_api::{doc_expect, has_null, json_doc, json_near, near};
use crate::vm::NVal;
use netsblox_vm as nb;
use nb::ast::{self, ExprKind as E, HatKind as H, StmtKind as S};
use nb::gc::*;
use nb::json::{json, Json};
use nb::runtime::*;
use nb::real_time::*;
use nb::std_system::StdSystem;
use nb::std_util::*;
use nb::vecmap::VecMap;
use nb::compact_str::CompactString;
use nb::bytecode::ByteCode;
use nb::project::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};
use crate::p_api::ensure;

type Sy = StdSystem<H1>;
pub enum Inter1 { Simple(SimpleValue) }
impl From<SimpleValue> for Inter1 { fn from(x: SimpleValue) -> Self { Inter1::Simple(x) } }
pub struct E1; impl From<EntityKind<'_, '_, H1, Sy>> for E1 { fn from(_: EntityKind<'_, '_, H1, Sy>) -> Self { E1 } }
pub struct P1; impl From<ProcessKind<'_, '_, H1, Sy>> for P1 { fn from(_: ProcessKind<'_, '_, H1, Sy>) -> Self { P1 } }
impl Unwindable for P1 { type UnwindPoint = (); fn get_unwind_point(&self) { } fn unwind_to(&mut self, _: &()) { } }
pub struct H1;
impl CustomTypes<Sy> for H1 {
    type NativeValue = NVal; type Intermediate = Inter1; type EntityState = E1; type ProcessState = P1;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter1) -> Value<'gc, H1, Sy> { match v { Inter1::Simple(x) => Value::from_simple(mc, x) } }
}
#[derive(Collect)]
#[collect(no_drop)]
struct Env1<'gc> { proj: Gc<'gc, RefLock<Project<'gc, H1, Sy>>> }
type Arena1 = Arena<Rootable![Env1<'_>]>;

/// What the three layers of configuration do during a case, and what the programs logged.
#[derive(Default)]
struct Desk { log: Vec<Vec<Result<SimpleValue, String>>>, handles: [Vec<String>; 3], asked: Vec<(usize, String)> }
struct Session { mock: Mock, sys: Rc<Sy>, clock: Arc<Clock>, desk: Rc<RefCell<Desk>>, id: String, base: String, project: String, n: usize, layers: [bool; 3] }

fn layer(k: usize, desk: &Rc<RefCell<Desk>>, on: bool) -> Config<H1, Sy> {
    if !on { return Config::default() }
    let (d, d2) = (desk.clone(), desk.clone());
    Config {
        request: Some(Rc::new(move |_, key, request, _| {
            let mut d = d.borrow_mut();
            let name = match &request { Request::Syscall { name, .. } => format!("sys {name}"), Request::Rpc { service, .. } => format!("rpc {service}"), Request::UnknownBlock { name, args } if name == "log" => {
                // only the last layer knows about logging
                if k != 2 { return RequestStatus::UseDefault { key, request } }
                let row = args.iter().map(|x| x.to_simple().map_err(|e| format!("{e:?}"))).collect();
                d.log.push(row);
                key.complete(Ok(SimpleValue::Bool(true).into()));
                return RequestStatus::Handled
            } _ => return RequestStatus::UseDefault { key, request } };
            d.asked.push((k, name.clone()));
            if d.handles[k].contains(&name) { key.complete(Ok(SimpleValue::Text(format!("layer {k}: {name}").into()).into())); RequestStatus::Handled }
            else { RequestStatus::UseDefault { key, request } }
        })),
        command: Some(Rc::new(move |_, key, command, _| {
            let mut d = d2.borrow_mut();
            let name = match &command { Command::Forward { .. } => "forward", Command::ClearEffects => "clear effects", Command::ClearDrawings => "clear drawings", _ => "other" }.to_string();
            d.asked.push((k, name.clone()));
            if d.handles[k].contains(&name) { key.complete(Ok(())); CommandStatus::Handled } else { CommandStatus::UseDefault { key, command } }
        })),
    }
}
impl Session {
    fn new(n: usize) -> Result<Session, String> {
        let mock = Mock::start();
        let base = mock.url();
        let desk: Rc<RefCell<Desk>> = Rc::default();
        let layers = [n % 4 != 1, n % 4 != 2, true];
        let [a, b, c] = [0, 1, 2].map(|k| layer(k, &desk, layers[k]));
        // both ways to nest the layers mean the same
        let config = if n % 2 == 0 { a.fallback(&b).fallback(&c) } else { a.fallback(&b.fallback(&c)) };
        let clock = Arc::new(Clock::new(UtcOffset::from_hms((n % 5) as i8 - 2, 0, 0).unwrap(), Some(Precision::High)));
        let name = [None, Some("some project"), Some("p"), Some("Émile's \"x\"")][n % 4];
        let sys = Rc::new(Sy::new_sync(base.as_str().into(), name, config, clock.clone()));
        let project = name.unwrap_or("untitled").to_string();
        let (path, posts) = { let s = mock.st.0.lock().unwrap(); (s.ws_path.clone(), s.posts.clone()) };
        let id = path.trim_start_matches("/network/").trim_end_matches("/connect").to_string();
        ensure!(!id.is_empty(), "the host never opened its connection");
        ensure!(sys.get_public_id() == format!("{project}@{id}#vm"), "public id {:?}, expected {project}@{id}#vm", sys.get_public_id());
        let first = mock.wait("the client introduces itself", |s| s.frames.first().cloned())?;
        ensure!(first == json!({ "type": "set-uuid", "clientId": id }), "the first packet is {first}");
        ensure!(posts.len() == 2 && posts[0].1 == json!({ "clientId": id, "name": project }) && posts[1].0 == format!("/network/{id}/state"), "the host registered itself as {posts:?}");
        mock.st.0.lock().unwrap().frames.clear();
        Ok(Session { mock, sys, clock, desk, id, base, project, n: 0, layers })
    }
}
thread_local! { static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) }; static MADE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// Runs a case on the session of this thread; a session that saw a failure is not used again.
fn with_session(kind: usize, f: impl FnOnce(&mut Session) -> CheckResult) -> CheckResult {
    let have = SESSION.with(|x| x.borrow_mut().take()).filter(|s| s.n < 400);
    let mut s = match have { Some(s) => s, None => { let n = MADE.with(|x| { let v = x.get(); x.set(v + 1); v }); Session::new(n * 7 + kind)? } };
    s.n += 1;
    { let mut m = s.mock.st.0.lock().unwrap(); m.plans.clear(); m.seen.clear(); m.frames.clear(); m.others.clear(); }
    *s.desk.borrow_mut() = Desk::default();
    f(&mut s)?;
    SESSION.with(|x| *x.borrow_mut() = Some(s));
    Ok(())
}

// ------------------------------------------------------------------ remote procedures

fn lit(v: &SimpleValue) -> ast::Expr {
    match v {
        SimpleValue::Bool(x) => boolean(*x),
        SimpleValue::Number(x) => nume(x.get()),
        SimpleValue::Text(x) => txt(x),
        SimpleValue::List(x) => list(x.iter().map(lit).collect()),
        _ => unreachable!(),
    }
}
fn plain_json(v: &SimpleValue) -> Json {
    match v {
        SimpleValue::Bool(x) => json!(x),
        SimpleValue::Number(x) => json!(x.get()),
        SimpleValue::Text(x) => json!(x.as_str()),
        SimpleValue::List(x) => Json::Array(x.iter().map(plain_json).collect()),
        _ => unreachable!(),
    }
}
/// What the program gets: a value, or an error whose text starts with the given one.
enum Want { Val(SimpleValue), Err(String), ErrStart(String) }
fn want_of(p: &Plan, base: &str) -> Want {
    if p.drop { return Want::Err(format!("Failed to reach {base}")) }
    if p.cut { return Want::Err("Failed to read response body".into()) }
    let text = String::from_utf8(p.body.clone());
    if !(200..300).contains(&p.status) { return Want::Err(text.unwrap_or("Received ill-formed error message".into())) }
    let ct = p.ctype.clone().unwrap_or_default().to_lowercase();
    if ct.contains("image/") { return Want::Val(SimpleValue::Image(Image { content: p.body.clone(), center: None, name: "untitled".into() })) }
    if ct.contains("audio/") { return Want::Val(SimpleValue::Audio(Audio { content: p.body.clone(), name: "untitled".into() })) }
    match serde_json::from_slice::<Json>(&p.body) {
        Ok(j) if has_null(&j) => Want::ErrStart("Received ill-formed success value".into()),
        Ok(j) => Want::Val(doc_expect(&j)),
        Err(_) => match text { Ok(t) => Want::Val(SimpleValue::Text(t.into())), Err(_) => Want::Err("Received ill-formed success value".into()) },
    }
}
/// An answer of up to a few hundred kilobytes.
fn bulk(g: &mut Gen) -> Vec<u8> {
    let n = g.pickc(&[1_000, 9_000, 20_000, 70_000, 300_000]) + g.below(1000);
    let seed = g.below(97);
    match g.below(4) {
        0 => (0..n).map(|i| b'a' + ((i * 7 + i / 100 + seed) % 26) as u8).collect(),
        1 => (0..n).map(|i| ((i * 31 + i / 255 + seed) % 256) as u8).collect(),
        2 => json!((0..n / 6).map(|i| i * 3 + seed).collect::<Vec<_>>()).to_string().into_bytes(),
        _ => json!([(0..n / 2).map(|i| char::from_u32(0xc0 + ((i + seed) % 60) as u32).unwrap()).collect::<String>(), n]).to_string().into_bytes(),
    }
}
fn plan(g: &mut Gen) -> Plan {
    let status = g.pickc(&[200, 200, 200, 200, 201, 202, 203, 299, 300, 306, 400, 401, 404, 418, 500, 503, 599]);
    let ctype = g.pickc(&[None, Some("application/json"), Some("application/json; charset=utf-8"), Some("text/plain"), Some("text/html; charset=utf-8"), Some("image/png"), Some("IMAGE/Jpeg"), Some("audio/wav"), Some("Audio/MPEG; q=1"), Some("octet/stream")]).map(str::to_string);
    let body = match g.weighted(&[24, 12, 4, 4, 1]) {
        0 => { let nul = g.chance(1, 6); let d = json_doc(g, 3, nul); if g.bool() { d.to_string() } else { serde_json::to_string_pretty(&d).unwrap() }.into_bytes() }
        1 => text(g).into_bytes(),
        2 => { let n = g.len(20); (0..n).map(|_| g.below(256) as u8).collect() }
        4 => bulk(g),
        _ => vec![],
    };
    let drop = g.chance(1, 24);
    Plan { status, ctype, body, delay: if g.bool() { 0 } else { g.below(6) as u64 }, drop, chunked: g.chance(1, 4), cut: g.chance(1, 24) }
}
fn same_value(a: &SimpleValue, b: &SimpleValue) -> bool { near(a, b) }

fn c38_rpc(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    with_session(g.below(4), |s| {
        let soft = g.bool();
        let n = 1 + g.len(4);
        struct Step { plan: Option<Plan>, want: Want, path: String, args: Json, host: bool, stmt: bool }
        let mut steps: Vec<Vec<Step>> = vec![];
        let mut sprite = entity("S");
        let mut what = String::new();
        // what each layer answers itself
        for k in 0..3 { for name in ["sys a", "sys b", "sys c", "sys d", "rpc mine", "rpc Other", "forward", "clear effects"] { if g.chance(1, 4) { s.desk.borrow_mut().handles[k].push(name.into()); } } }
        let first = |s: &Session, name: &str| (0..3).find(|k| s.layers[*k] && s.desk.borrow().handles[*k].iter().any(|x| x == name));
        let mut remote = 0;
        for i in 0..n {
            let mut row = vec![];
            let mut stmts = vec![];
            for k in 0..1 + g.len(3) {
                let here = |mut v: Vec<ast::Expr>, tag: &str| { let mut a = vec![nume(i as f64), nume(k as f64), txt(tag)]; a.append(&mut v); obs("log", a) };
                let mut step = Step { plan: None, want: Want::Err(String::new()), path: String::new(), args: Json::Null, host: false, stmt: false };
                let mut expr = None;
                match g.weighted(&[10, 2, 1, 1, 1]) {
                    0 => {
                        let service = g.pickc(&["Weather", "svc", "mine", "Other", "PublicRoles"]);
                        let rpc = if service == "PublicRoles" && g.bool() { "getPublicRoleId".to_string() } else { format!("r{i}_{k}") };
                        let host = g.chance(1, 4).then(|| g.pickc(&["alt1", "alt2/deep"]));
                        let mut args: Vec<(CompactString, ast::Expr)> = vec![];
                        let mut doc: BTreeMap<String, Json> = BTreeMap::new();
                        let mut bad = false;
                        for _ in 0..g.len(3) {
                            let name = g.pickc(&["a", "b", "a", "some name", "", "é"]);
                            if g.chance(1, 12) { args.push((name.into(), ex(E::This))); doc.insert(name.into(), Json::Null); }
                            else { let v = if g.chance(1, 40) { SimpleValue::Text(String::from_utf8_lossy(&bulk(g)).as_ref().into()) } else { simple(g, 2, false) }; doc.insert(name.into(), plain_json(&v)); args.push((name.into(), lit(&v))); }
                        }
                        bad |= doc.values().any(|x| x.is_null());
                        let e = E::CallRpc { host: host.map(|h| format!("{}/{h}", s.base).into()), service: service.into(), rpc: rpc.as_str().into(), args };
                        step.path = format!("/{}/{service}/{rpc}", host.unwrap_or("services"));
                        step.args = json!(doc);
                        what += &format!("[{i}.{k}] rpc {}{service}.{rpc}({})", host.unwrap_or(""), step.args);
                        if let Some(l) = first(s, &format!("rpc {service}")) { step.want = Want::Val(SimpleValue::Text(format!("layer {l}: rpc {service}").into())); what += " local"; }
                        else if service == "PublicRoles" && rpc == "getPublicRoleId" && doc.is_empty() { step.want = Want::Val(SimpleValue::Text(format!("{}@{}#vm", s.project, s.id).into())); what += " own id"; }
                        else if bad { step.want = Want::ErrStart("failed to convert RPC args to json".into()); what += " bad args"; }
                        else if row.iter().chain(steps.iter().flatten()).any(|x: &Step| x.plan.is_some() && x.path == step.path) { continue }
                        else {
                            let p = plan(g);
                            remote += 1;
                            what += &format!(" -> {} {:?} {:?}{}{} after {} ms", p.status, p.ctype, String::from_utf8_lossy(&p.body), if p.drop { " dropped" } else { "" }, if p.cut { " cut" } else { "" }, p.delay);
                            step.want = want_of(&p, &s.base);
                            s.mock.st.0.lock().unwrap().plans.insert(step.path.clone(), p.clone());
                            step.plan = Some(p);
                        }
                        what += "\n";
                        if g.chance(1, 5) { step.stmt = true; let E::CallRpc { host, service, rpc, args } = e else { unreachable!() }; stmts.push(st(S::TryCatch { var: vref("e"), code: vec![st(S::CallRpc { host, service, rpc, args }), here(vec![ex(E::RpcError)], "ran")], handler: vec![here(vec![var("e")], "err")] })); }
                        else { expr = Some((ex(e), true)); }
                    }
                    1 => {
                        let name = g.pickc(&["a", "b", "c", "d"]);
                        what += &format!("[{i}.{k}] syscall {name}\n");
                        step.want = match first(s, &format!("sys {name}")) { Some(l) => Want::Val(SimpleValue::Text(format!("layer {l}: sys {name}").into())), None => Want::ErrStart("NotSupported".into()) };
                        step.host = true;
                        expr = Some((ex(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt(name), list(vec![])] }), false));
                    }
                    c => {
                        let (name, cmd) = match c { 2 => ("forward", S::Forward { distance: Box::new(nume(1.0)) }), 3 => ("clear effects", S::ClearEffects), _ => ("clear drawings", S::PenClear) };
                        what += &format!("[{i}.{k}] {name}\n");
                        step.want = match first(s, name) { Some(_) => Want::Val(SimpleValue::Text("done".into())), None => Want::ErrStart("NotSupported".into()) };
                        step.host = true;
                        stmts.push(st(S::TryCatch { var: vref("e"), code: vec![st(cmd), here(vec![txt("done"), txt("")], "ok")], handler: vec![here(vec![var("e")], "err")] }));
                    }
                }
                if let Some((e, rpc)) = expr { stmts.push(st(S::TryCatch { var: vref("e"), code: vec![here(vec![e, if rpc { ex(E::RpcError) } else { txt("") }], "ok")], handler: vec![here(vec![var("e")], "err")] })); }
                row.push(step);
            }
            sprite.scripts.push(script(H::OnFlag, stmts));
            steps.push(row);
        }
        let total: usize = steps.iter().map(|x| x.len()).sum();
        cx.nt_if(remote >= 2); cx.label_if(remote >= 2 && n >= 2, "several calls under way"); cx.label_if(soft, "soft errors");
        cx.sample(|| format!("{} scripts, soft errors {soft}\n{what}", n));
        let (code, init, _, _) = ByteCode::compile(&role(vec![entity("Stage"), sprite])).map_err(|e| format!("does not compile: {e:?}"))?;
        let set = Settings { rpc_error_scheme: if soft { ErrorScheme::Soft } else { ErrorScheme::Hard }, ..Default::default() };
        let sys = s.sys.clone();
        let mut arena = Arena1::new(|mc| Env1 { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, Rc::new(code), set, sys))) });
        arena.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, Input::Start));
        let end = Instant::now() + patience();
        let mut turns = 0u64;
        loop {
            let mut failed = None;
            let idle = arena.mutate(|mc, env| {
                let mut p = env.proj.borrow_mut(mc);
                for _ in 0..64 { match p.step(mc) { ProjectStep::Idle => return true, ProjectStep::Error { error, .. } => { failed = Some(format!("{:?}", error.cause)); return true } _ => () } }
                false
            });
            if let Some(e) = failed { return Err(format!("{what}a script died: {e}")) }
            if idle { break }
            turns += 1;
            if turns % 7 == 0 { arena.collect_all(); }
            if Instant::now() > end { lose_patience(); return Err(format!("{what}{} of {total} steps finished, then nothing more happened", s.desk.borrow().log.len())) }
            std::thread::sleep(Duration::from_micros(100));
        }
        let log = std::mem::take(&mut s.desk.borrow_mut().log);
        ensure!(log.len() == total, "{what}{} rows logged, {total} steps", log.len());
        let mut at = vec![0usize; n];
        for r in &log {
            let nums: Vec<usize> = r[..2].iter().map(|x| match x { Ok(SimpleValue::Number(x)) => x.get() as usize, _ => 99 }).collect();
            let (i, k) = (nums[0], at[nums[0]]);
            at[i] += 1;
            let step = &steps[i][k];
            let Ok(SimpleValue::Text(tag)) = &r[2] else { return Err("bad tag".into()) };
            let v = r[3].as_ref().map_err(|e| format!("{what}step {i}.{k} gave a strange value: {e}"))?;
            let shown = format!("{what}step {i}.{k}: {tag} {v:?} {:?}", r.get(4));
            let textual = |v: &SimpleValue| match v { SimpleValue::Text(t) => t.to_string(), x => format!("{x:?}") };
            let empty = |v: Option<&Result<SimpleValue, String>>| matches!(v, Some(Ok(SimpleValue::Text(t))) if t.is_empty());
            match &step.want {
                Want::Val(w) if step.stmt => ensure!(tag == "ran" && empty(r.get(3)), "{shown}\nexpected no error, the answer being {w:?}"),
                Want::Val(w) => ensure!(tag == "ok" && same_value(v, w) && empty(r.get(4)), "{shown}\nexpected {w:?}"),
                Want::Err(e) | Want::ErrStart(e) => {
                    let whole = matches!(step.want, Want::Err(_));
                    if soft && !step.host {
                        let t = textual(v);
                        ensure!(tag == if step.stmt { "ran" } else { "ok" } && if whole { t == *e } else { t.starts_with(e.as_str()) }, "{shown}\nexpected the error {e:?} as the value");
                        if !step.stmt { ensure!(r.get(4) == Some(&r[3]), "{shown}\nthe reported error should be {v:?}"); }
                    } else {
                        let t = textual(v);
                        ensure!(tag == "err" && (t.contains(e.as_str()) || t.contains(&format!("{e:?}"))), "{shown}\nexpected to fail with {e:?}");
                    }
                }
            }
        }
        // the server was asked exactly what the program said
        let seen = s.mock.st.0.lock().unwrap().seen.clone();
        for step in steps.iter().flatten() {
            let rs: Vec<&Seen> = seen.iter().filter(|x| x.path == step.path).collect();
            if step.plan.is_none() { continue }
            ensure!(rs.len() == 1, "{what}{} was requested {} times", step.path, rs.len());
            let r = rs[0];
            ensure!(r.method == "POST" && r.query.starts_with(&format!("clientId={}&t=", s.id)), "{what}{}: {} with {:?}", step.path, r.method, r.query);
            let body: Json = serde_json::from_slice(&r.body).map_err(|e| format!("{what}{}: the arguments are not JSON: {e}", step.path))?;
            ensure!(json_near(&body, &step.args), "{what}{}: the server received {body}, the program passed {}", step.path, step.args);
        }
        let planned = steps.iter().flatten().filter(|x| x.plan.is_some()).count();
        ensure!(seen.len() == planned, "{what}{} requests reached the server, {planned} calls were made", seen.len());
        // the layers are asked in order, and none after the one that answers
        let asked = std::mem::take(&mut s.desk.borrow_mut().asked);
        let mut last: Option<(usize, String)> = None;
        for (k, name) in asked {
            let start = (0..3).find(|x| s.layers[*x]).unwrap();
            let follows = match &last { Some((p, pn)) if *pn == name && first(s, &name).is_none_or(|f| *p < f) && *p < 2 => k == (p + 1..3).find(|x| s.layers[*x]).unwrap(), _ => k == start };
            ensure!(follows, "{what}layer {k} was asked for {name:?} after {last:?}");
            last = Some((k, name));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ messages

type Vals = VecMap<CompactString, Json, false>;
fn values(g: &mut Gen, null: bool) -> BTreeMap<String, Json> {
    let mut v: BTreeMap<String, Json> = (0..g.len(4)).map(|_| (g.pickc(&["a", "b", "c", "", "ключ", "x y"]).to_string(), json_doc(g, 2, null))).collect();
    if g.chance(1, 40) { v.insert("big".into(), loop { if let Ok(t) = String::from_utf8(bulk(g)) { break serde_json::from_str(&t).unwrap_or(Json::String(t)) } }); }
    v
}
/// Fields whose value is no VM value are dropped, the others stay.
fn fields(v: &BTreeMap<String, Json>) -> BTreeMap<String, SimpleValue> { v.iter().filter(|x| !has_null(x.1)).map(|(k, v)| (k.clone(), doc_expect(v))).collect() }
struct WantMsg { msg_type: String, values: BTreeMap<String, SimpleValue>, reply: Option<(String, String)> }
fn check_msg(m: &IncomingMessage, w: &WantMsg, what: &str) -> CheckResult {
    let mut got: BTreeMap<String, SimpleValue> = BTreeMap::new();
    for (k, v) in m.values.iter() { ensure!(got.insert(k.to_string(), v.clone()).is_none(), "{what}the field {k:?} arrives twice"); }
    let rk = m.reply_key.as_ref().map(|k| (k.src_id.to_string(), k.request_id.to_string()));
    ensure!(m.msg_type == w.msg_type && rk == w.reply && got.len() == w.values.len() && got.iter().zip(&w.values).all(|(a, b)| a.0 == b.0 && near(a.1, b.1)),
        "{what}received {:?} {got:?} reply {rk:?}\nexpected {:?} {:?} reply {:?}", m.msg_type, w.msg_type, w.values, w.reply);
    Ok(())
}
/// Receives everything up to and including a final marker, which the server sends last.
fn drain(s: &mut Session, want: &mut Vec<WantMsg>, tag: usize, what: &str) -> CheckResult {
    s.mock.text(&json!({ "type": "message", "msgType": format!("sync {tag}"), "content": {} }).to_string());
    want.push(WantMsg { msg_type: format!("sync {tag}"), values: BTreeMap::new(), reply: None });
    let end = Instant::now() + patience();
    for w in want.drain(..) {
        let m = loop {
            if let Some(m) = s.sys.receive_message() { break m }
            if Instant::now() > end { lose_patience(); return Err(format!("{what}the message {:?} never arrived", w.msg_type)) }
            std::thread::sleep(Duration::from_micros(50));
        };
        check_msg(&m, &w, what)?;
    }
    ensure!(s.sys.receive_message().is_none(), "{what}more messages than were sent");
    Ok(())
}
fn c38_messages(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    with_session(g.below(4), |s| {
        s.clock.update();
        let mut what = String::new();
        let mut want: Vec<WantMsg> = vec![];
        let mut out: Vec<Json> = vec![];
        let mut pongs = 0;
        struct Wait { key: ExternReplyKey, id: Option<String>, reply: Option<Json>, done: bool, at: usize }
        let mut waits: Vec<Wait> = vec![];
        let src = format!("{}@{}#vm", s.project, s.id);
        let n = 6 + g.len(40);
        let (mut replied, mut dups) = (0, 0);
        let mut syncs = 0;
        // both kinds of content count: what is received before a marker has been taken in
        let mut pending_replies: Vec<(usize, Json)> = vec![];
        for _ in 0..n {
            cx.evals += 1;
            match g.weighted(&[6, 3, 3, 3, 5, 4, 3, 2, 2, 4]) {
                0 => {
                    let v = values(g, true);
                    let ty = word(g);
                    let mut p = json!({ "type": "message", "msgType": ty, "content": v });
                    let mut reply = None;
                    if g.chance(1, 3) { let (a, b) = (word(g), word(g)); p["srcId"] = json!(a); p["requestId"] = json!(b); reply = Some((a, b)); }
                    else if g.bool() { p["srcId"] = json!("other@x"); p["dstId"] = json!(["me"]); }
                    what += &format!("server sends {p}\n");
                    if ty == "__reply__" { continue }
                    let raw = p.to_string();
                    if g.chance(1, 6) { let mid = raw.len() / 2; s.mock.send(1, &[&raw.as_bytes()[..mid], &raw.as_bytes()[mid..]]); } else { s.mock.text(&raw); }
                    want.push(WantMsg { msg_type: ty, values: fields(&v), reply });
                }
                1 => {
                    // packets that are no message are ignored
                    let ok = json!({ "type": "message", "msgType": "bad", "content": { "a": 1 } });
                    let raw = match g.below(14) {
                        0 => "not json at all".into(), 1 => "[1,2]".into(), 2 => "".into(), 3 => json!({ "msgType": "bad", "content": {} }).to_string(),
                        4 => json!({ "type": "unknown", "msgType": "bad", "content": {} }).to_string(), 5 => json!({ "type": 5, "msgType": "bad", "content": {} }).to_string(),
                        6 => json!({ "type": "message", "msgType": 3, "content": {} }).to_string(), 7 => json!({ "type": "message", "msgType": "bad", "content": [1] }).to_string(),
                        8 => json!({ "type": "message", "msgType": "bad" }).to_string(), 9 => json!({ "type": "message", "content": {} }).to_string(),
                        10 => { let mut j = ok.clone(); j["requestId"] = json!("r"); j.to_string() } 11 => { let mut j = ok.clone(); j["requestId"] = json!(7); j["srcId"] = json!("s"); j.to_string() }
                        12 => { let mut j = ok.clone(); j["requestId"] = json!("r"); j["srcId"] = json!(null); j.to_string() }
                        _ => { s.mock.send(2, &[ok.to_string().as_bytes()]); what += "server sends a binary packet\n"; continue }
                    };
                    what += &format!("server sends {raw}\n");
                    s.mock.text(&raw);
                    cx.label("packet to ignore");
                }
                2 => { what += "server sends ping\n"; s.mock.text("{\"type\":\"ping\"}"); pongs += 1; }
                3 | 4 => {
                    let v = values(g, true);
                    let ty = word(g);
                    let targets: Vec<String> = (0..g.len(4)).map(|_| g.pickc(&["a@b", "everyone in room", "me", "", "everyone in room", "others in room"]).to_string()).collect();
                    let wait = g.chance(2, 3);
                    what += &format!("client sends {ty:?} {v:?} to {targets:?} wait {wait}\n");
                    let vals: Vals = v.iter().map(|(k, v)| (CompactString::from(k.as_str()), v.clone())).collect();
                    let key = s.sys.send_message(ty.as_str().into(), vals, targets.iter().map(|x| x.as_str().into()).collect(), wait).map_err(|_| format!("{what}sending is refused"))?;
                    ensure!(key.is_some() == wait, "{what}a key is returned: {}", key.is_some());
                    let dst: Vec<&str> = targets.iter().map(|x| if x == "everyone in room" { src.as_str() } else { x.as_str() }).collect();
                    let mut f = json!({ "type": "message", "dstId": dst, "srcId": src, "msgType": ty, "content": v });
                    if let Some(k) = &key { f["requestId"] = json!(k.request_id.as_str()); }
                    out.push(f);
                    if let Some(key) = key { ensure!(!waits.iter().any(|w| w.key == key), "{what}a reply key is used twice"); waits.push(Wait { key, id: None, reply: None, done: false, at: out.len() }); }
                }
                5 => {
                    // the server replies: to a waiting message, once more, or to one it does not know
                    let body = json_doc(g, 2, true);
                    let k = if waits.is_empty() || g.chance(1, 8) { waits.len() } else { g.below(waits.len()) };
                    let id = match waits.get(k) { Some(w) => w.key.request_id.to_string(), None => g.pickc(&["nobody", "", "x"]).to_string() };
                    let kind = g.weighted(&[8, 1, 1, 1]);
                    let p = match kind { 1 => json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": { "other": body } }), 2 => json!({ "type": "message", "msgType": "__reply__", "content": { "body": body } }), 3 => json!({ "type": "message", "msgType": "__reply__", "requestId": [id], "content": { "body": body } }),
                        _ => json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": { "body": body, "more": 1 } }) };
                    what += &format!("server replies {p}\n");
                    s.mock.text(&p.to_string());
                    if kind == 0 && k < waits.len() { pending_replies.push((k, body)); }
                }
                6 => {
                    let (a, b, v) = (word(g), word(g), json_doc(g, 2, true));
                    what += &format!("client replies {v} to {a:?} {b:?}\n");
                    s.sys.send_reply(InternReplyKey { src_id: a.as_str().into(), request_id: b.as_str().into() }, v.clone()).map_err(|_| format!("{what}replying is refused"))?;
                    out.push(json!({ "type": "message", "dstId": a, "msgType": "__reply__", "requestId": b, "content": { "body": v } }));
                }
                7 => {
                    syncs += 1; drain(s, &mut want, syncs, &what)?;
                    let v: BTreeMap<String, SimpleValue> = fields(&values(g, false));
                    let ty = word(g);
                    what += &format!("injected {ty:?} {v:?}\n");
                    s.sys.inject_message(ty.as_str().into(), v.iter().map(|(k, v)| (CompactString::from(k.as_str()), v.clone())).collect());
                    want.push(WantMsg { msg_type: ty, values: v, reply: None });
                    // an injected message waits its turn like any other
                }
                8 => { syncs += 1; what += "receive\n"; drain(s, &mut want, syncs, &what)?; }
                _ => {
                    syncs += 1; drain(s, &mut want, syncs, &what)?;
                    for (k, body) in pending_replies.drain(..) { let w = &mut waits[k]; if w.done { continue } if w.reply.is_none() { w.reply = Some(body); replied += 1; } else { dups += 1; } }
                    let open: Vec<usize> = (0..waits.len()).filter(|k| !waits[*k].done).collect();
                    if open.is_empty() { continue }
                    let k = *g.pick(&open);
                    let w = &mut waits[k];
                    let r = s.sys.poll_reply(&w.key);
                    match (&r, &w.reply) {
                        (AsyncResult::Pending, None) => what += &format!("poll {k}: pending\n"),
                        (AsyncResult::Completed(Some(x)), Some(y)) if json_near(x, y) => { what += &format!("poll {k}: {x}\n"); w.done = true; }
                        _ => return Err(format!("{what}poll {k}: {}, expected {:?}", match r { AsyncResult::Pending => "pending".into(), AsyncResult::Completed(x) => format!("{x:?}"), AsyncResult::Consumed => "consumed".into() }, w.reply)),
                    }
                }
            }
        }
        syncs += 1; drain(s, &mut want, syncs, &what)?;
        // everything the client said arrives in order
        s.sys.send_message("the end".into(), Default::default(), vec![], false).map_err(|_| "refused".to_string())?;
        out.push(json!({ "type": "message", "dstId": [], "srcId": src, "msgType": "the end", "content": {} }));
        s.mock.wait(&format!("{what}the packets of the client arrive"), |st| st.frames.iter().any(|f| f["msgType"] == "the end").then_some(()))?;
        let (frames, others) = { let st = s.mock.st.0.lock().unwrap(); (st.frames.clone(), st.others.clone()) };
        ensure!(others.is_empty(), "{what}the client also sent {others:?}");
        let pong = json!({ "type": "pong" });
        let said: Vec<&Json> = frames.iter().filter(|f| **f != pong).collect();
        ensure!(frames.len() - said.len() == pongs, "{what}{pongs} pings, {} pongs", frames.len() - said.len());
        for (i, w) in out.iter().enumerate() {
            let Some(f) = said.get(i) else { return Err(format!("{what}packet {i} never arrived: {w}")) };
            ensure!(json_near(f, w), "{what}packet {i} is {f}\nexpected {w}");
        }
        ensure!(said.len() == out.len(), "{what}{} packets, expected {}", said.len(), out.len());
        // what still waits must not keep the next case busy: it stays in the table, which is the host's business
        cx.nt_if(replied > 0); cx.label_if(dups > 0, "second reply to the same message"); cx.label_if(replied > 0, "reply taken"); cx.label_if(pongs > 0, "ping");
        cx.sample(|| what.clone());
        let _ = |w: &Wait| (w.id.clone(), w.at);
        Ok(())
    })
}

// ------------------------------------------------------------------ replies that never come

fn c38_expiry(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    with_session(g.below(4), |s| {
        let limit = Duration::from_millis(1500);
        struct W { key: ExternReplyKey, sent: OffsetDateTime, reply: Option<Json>, done: bool, polls: usize }
        let mut ws: Vec<W> = vec![];
        let mut what = String::new();
        let n = 1 + g.len(6);
        let mut want = vec![];
        let start = Instant::now();
        let mut spread = g.bits();
        for k in 0..n {
            std::thread::sleep(Duration::from_millis(g.below(60) as u64));
            let sent = s.clock.update();
            let key = s.sys.send_message("q".into(), Default::default(), vec![], true).map_err(|_| "refused".to_string())?.unwrap();
            let early = g.chance(1, 3);
            what += &format!("message {k} sent at {:?}{}\n", start.elapsed(), if early { ", answered at once" } else { "" });
            let mut reply = None;
            if early { let b = json!(k); s.mock.text(&json!({ "type": "message", "msgType": "__reply__", "requestId": key.request_id.as_str(), "content": { "body": b } }).to_string()); reply = Some(b); }
            ws.push(W { key, sent, reply, done: false, polls: 0 });
        }
        drain(s, &mut want, 1000 + n, &what)?;
        let (mut pend, mut exp, mut late) = (0, 0, 0);
        while ws.iter().any(|w| !w.done) {
            let now = s.clock.update();
            for (k, w) in ws.iter_mut().enumerate().filter(|x| !x.1.done) {
                // an answered message is left alone until long after its time
                if w.reply.is_some() && now - w.sent < limit + limit / 5 && spread & 1 == 0 { spread = spread.rotate_right(1); continue }
                spread = spread.rotate_right(1);
                w.polls += 1;
                let age = now - w.sent;
                match (s.sys.poll_reply(&w.key), &w.reply) {
                    (AsyncResult::Completed(Some(x)), Some(y)) if x == *y => { w.done = true; if age > limit { late += 1; } }
                    (AsyncResult::Pending, None) if age <= limit => pend += 1,
                    (AsyncResult::Completed(None), None) if age > limit => { w.done = true; exp += 1; }
                    (r, y) => return Err(format!("{what}message {k} polled {:?} after it was sent: {}, the reply being {y:?}", age, match r { AsyncResult::Pending => "pending".into(), AsyncResult::Completed(x) => format!("{x:?}"), AsyncResult::Consumed => "consumed".into() })),
                }
            }
            std::thread::sleep(Duration::from_millis(40));
            ensure!(start.elapsed() < Duration::from_secs(40), "{what}still waiting");
        }
        cx.nt_if(exp > 0 && pend > 0); cx.label_if(exp > 0, "expired"); cx.label_if(late > 0, "reply fetched after the time limit");
        cx.sample(|| what.clone());
        Ok(())
    })
}

// ------------------------------------------------------------------ the clock

fn c38_clock(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let prec = [Precision::Low, Precision::Medium, Precision::High];
    let cache = g.below(4).checked_sub(1).map(|k| prec[k]);
    let off = UtcOffset::from_whole_seconds(g.range(-86000, 86000) as i32).unwrap();
    let t0 = OffsetDateTime::now_utc();
    let c = Clock::new(off, cache);
    let t1 = OffsetDateTime::now_utc();
    let mut held: Option<OffsetDateTime> = None;
    let mut what = format!("cache {cache:?}, offset {off}\n");
    let (mut stale, mut fresh) = (0, 0);
    for _ in 0..4 + g.len(24) {
        cx.evals += 1;
        let a = OffsetDateTime::now_utc();
        let (r, p) = match g.below(4) { 3 => { what += "update\n"; (c.update(), None) } k => { what += &format!("read {:?}\n", prec[k]); (c.read(prec[k]), Some(prec[k])) } };
        let b = OffsetDateTime::now_utc();
        ensure!(r.offset() == off, "{what}the time is given at offset {}", r.offset());
        match (p, cache) {
            (Some(p), Some(m)) if p <= m => {
                match held { Some(h) => ensure!(r == h, "{what}{r}, the time held is {h}"), None => ensure!(r >= t0 && r <= t1, "{what}{r} is not when the clock was made") }
                held = Some(r);
                stale += 1;
            }
            _ => { ensure!(a > b || (r >= a && r <= b), "{what}{r} is not now: {a} to {b}"); held = Some(r); fresh += 1; }
        }
        if g.chance(1, 4) { std::thread::sleep(Duration::from_micros(30)); }
    }
    cx.nt_if(stale > 0 && fresh > 0);
    cx.sample(|| what.clone());
    Ok(())
}

// ------------------------------------------------------------------ a key is completed once

fn c38_keys(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = 1 + g.below(5);
    let keys: Vec<AsyncKey<u64>> = (0..n).map(|_| AsyncKey::new()).collect();
    let mut state = vec![0u8; n];
    let mut what = String::new();
    let mut threads: Vec<std::thread::JoinHandle<()>> = vec![];
    for _ in 0..g.len(30) {
        let k = g.below(n);
        if g.bool() {
            let r = keys[k].poll();
            what += &format!("poll {k}\n");
            match (&r, state[k]) { (AsyncResult::Pending, 0) => (), (AsyncResult::Completed(v), 1) if *v == k as u64 + 7 => state[k] = 2, (AsyncResult::Consumed, 2) => (), _ => return Err(format!("{what}key {k} in state {} gives {}", state[k], match r { AsyncResult::Pending => "pending".into(), AsyncResult::Completed(v) => format!("{v}"), AsyncResult::Consumed => "consumed".into() })) }
        } else if state[k] == 0 {
            what += &format!("complete {k}\n");
            let c = keys[k].clone();
            if g.bool() { std::thread::spawn(move || c.complete(k as u64 + 7)).join().map_err(|_| format!("{what}completing failed"))?; } else { c.complete(k as u64 + 7); }
            state[k] = 1;
        }
    }
    for t in threads.drain(..) { let _ = t.join(); }
    cx.nt_if(state.contains(&2));
    cx.sample(|| what.clone());
    Ok(())
}

pub fn properties() -> Vec<Claim> {
    vec![Claim { id: "C38", rule: "programs whose calls, system calls and commands go through three layers of configuration to a server on the loopback interface with planned answers (non-trivial: two or more remote calls); packets both ways, against a queue model (non-trivial: a reply is taken); messages that wait too long; clock reads",
        assumptions: &["the loopback interface delivers what is written to it", "a planned answer that does not arrive within 20 s never arrives"],
        subs: vec![Sub { name: "rpc", run: c38_rpc, quick: 6000, thorough: 60000 }, Sub { name: "messages", run: c38_messages, quick: 8000, thorough: 80000 }, Sub { name: "expiry", run: c38_expiry, quick: 32, thorough: 400 }, Sub { name: "clock", run: c38_clock, quick: 20000, thorough: 200000 }, Sub { name: "keys", run: c38_keys, quick: 20000, thorough: 200000 }],
        probes: vec![] }]
}
