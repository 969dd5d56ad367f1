//! Reference interpreter: runs a project straight from its AST, one asynchronous task per running script.
//! Nothing here is shared with the VM except the AST types and the host's answers.
use crate::mval::*;
use crate::mval::MVal::*;
use crate::vm::{self, Snap, Ev, HostAns, host_answer, simple_to_snap, ast};
use crate::vm::ast::{StmtKind as S, ExprKind as E, HatKind, Stmt, Expr, TextSplitMode};
use netsblox_vm::json::Json;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};

pub type Tab = Vec<(String, VCell)>;
pub fn tab_get(t: &Tab, k: &str) -> Option<VCell> { t.iter().find(|x| x.0 == k).map(|x| x.1.clone()) }
pub fn tab_def(t: &mut Tab, k: &str, c: VCell) { match t.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = c, None => t.push((k.into(), c)) } }

pub struct MRing { pub params: Vec<String>, pub caps: Tab, pub stmts: &'static [Stmt], pub stat: Option<usize> }
#[derive(Clone, Debug, PartialEq)]
pub enum PV { N(f64), B(bool) }
pub struct MEnt {
    pub uid: u32, pub name: String, pub sounds: Vec<(String, Rc<MAud>)>, pub costumes: Vec<(String, Rc<MImg>)>, pub costume: RefCell<Option<Rc<MImg>>>,
    pub fields: RefCell<Tab>, pub props: RefCell<BTreeMap<&'static str, PV>>, pub original: Option<Rc<MEnt>>,
}
pub struct MFrame { pub locals: RefCell<Tab>, pub ent: Rc<MEnt>, pub parent: Option<Rc<MFrame>>, pub depth: usize }
pub struct MProc {
    pub id: u64, pub warp: Cell<usize>, pub answer: RefCell<Option<MVal>>, pub rpc_err: RefCell<Option<MVal>>, pub sys_err: RefCell<Option<MVal>>, pub message: Option<Rc<str>>,
    pub reply: RefCell<Option<(String, String)>>, pub marks: RefCell<Vec<u32>>, pub line: String, pub barrier: RefCell<Option<Rc<()>>>, pub root: Rc<MEnt>, pub alive: Cell<bool>,
}
#[derive(Clone)]
pub struct Cx { w: Rc<World>, p: Rc<MProc>, f: Rc<MFrame>, stat: Option<usize> }
pub enum Stop { Ret(MVal), Err(MErr), Fuel }
impl From<MErr> for Stop { fn from(e: MErr) -> Stop { if e.kind == "FUEL" { Stop::Fuel } else { Stop::Err(e) } } }
type R<T> = Result<T, Stop>;
type Fut<T> = Pin<Box<dyn Future<Output = R<T>>>>;
type TaskFut = Pin<Box<dyn Future<Output = R<MVal>>>>;

struct MCtx { locals: Tab, barrier: Option<Rc<()>>, reply: Option<(String, String)>, msg: Option<Rc<str>>, /** the script that set it off, if any: its line and how many marks it had */ from: Option<(String, usize)> }
struct MScript { hat: &'static HatKind, stmts: &'static [Stmt], ent: Rc<MEnt>, stat: usize, proc: Option<u64>, queue: VecDeque<MCtx> }
#[derive(Default)]
struct Sched { tasks: HashMap<u64, (Rc<MProc>, Option<TaskFut>)>, queue: VecDeque<u64>, scripts: Vec<MScript>, next: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct MSettings { pub max_call_depth: usize, pub soft_rpc: bool, pub soft_sys: bool }
pub struct World {
    pub role: &'static ast::Role, pub globals: RefCell<Tab>, pub ents: Vec<Rc<MEnt>>, sched: RefCell<Sched>, pub trace: RefCell<Vec<Ev>>,
    pub clock: crate::drive::HostClock, pub now: Cell<u64>, pub timer: Cell<u64>, pub latency: Vec<u32>, issued: Cell<usize>, pub inbox: RefCell<VecDeque<MMsg>>, pub replies: Vec<(u32, Option<Json>)>, sent: Cell<usize>,
    pub mid: RefCell<VecDeque<(usize, crate::drive::Act)>>, mid_now: Cell<bool>, pub fuel: Cell<u64>, pub used: Cell<u64>, pub set: MSettings, next_uid: Cell<u32>, pub want_trace: bool, pub errors: RefCell<Vec<(MErr, u32)>>,
    pub stats: RefCell<Stats>, pub watched: RefCell<Vec<(String, u32, VCell)>>,
}
/// What the run actually exercised, for the non-triviality rules.
#[derive(Default, Clone, Debug)]
pub struct Stats { pub midway: usize, pub yields: usize, pub done: usize, pub fail: usize, pub caught: usize, pub calls: usize, pub rings: usize, pub forks: usize, pub bcasts: usize, pub received: usize, pub kills: usize, pub clones: usize, pub waits: usize,
    pub requests: usize, pub warps: usize, pub captures: usize, pub upvars: usize, pub queued: usize, pub dropped: usize, pub maxdepth: usize, pub aborts: usize, pub unwinds: usize, pub loops: usize, pub netmsgs: usize, pub watch: usize }
pub struct MMsg { pub msg_type: String, pub values: Vec<(String, Snap)>, pub reply: Option<(String, String)> }
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Turn { Idle, Yield, Done, Fail, Fuel }

pub fn from_snap(s: &Snap) -> MVal {
    fn go(s: &Snap, ls: &mut HashMap<usize, MVal>) -> MVal {
        match s {
            Snap::Bool(x) => Bool(*x), Snap::Num(x) => Num(nz(*x)), Snap::Text(x) => text(x), Snap::Native(x) => Native(Rc::new(*x)),
            Snap::List(id, xs) => { let l = new_list(vec![]); ls.insert(*id, List(l.clone())); let v = xs.iter().map(|x| go(x, ls)).collect(); *l.items.borrow_mut() = v; List(l) }
            Snap::Back(id) => ls[id].clone(),
            Snap::Image { name, content, center, .. } => Img(Rc::new(MImg { name: name.clone(), content: content.clone(), center: *center })),
            Snap::Audio { name, content, .. } => Aud(Rc::new(MAud { name: name.clone(), content: content.clone() })),
            Snap::Closure(_) | Snap::Entity(_) => text("?"),
        }
    }
    go(s, &mut HashMap::new())
}

// ---------------------------------------------------------------- properties of entities
fn pen_hsvt(c: (u8, u8, u8, u8)) -> (f64, f64, f64, f64) {
    // single precision, as colours are kept by hosts
    let (r, g, b) = (c.0 as f32 / 255.0, c.1 as f32 / 255.0, c.2 as f32 / 255.0);
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let d = mx - mn;
    let h = if d == 0.0 { 0.0 } else if mx == b { 60.0 * ((r - g) / d + 4.0) } else if mx == g { 60.0 * ((b - r) / d + 2.0) } else { let x = (g - b) / d; 60.0 * if x < 0.0 { x + 6.0 } else { x } };
    (h as f64, if mx == 0.0 { 0.0 } else { (d / mx) as f64 * 100.0 }, mx as f64 * 100.0, (1.0 - (c.3 as f32 / 255.0) as f64) * 100.0)
}
pub fn init_props(e: &ast::Entity) -> BTreeMap<&'static str, PV> {
    let mut m = BTreeMap::new();
    for k in ["PenColorH", "PenColorS", "PenColorV", "PenColorT", "Balance", "ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"] { m.insert(k, PV::N(0.0)); }
    m.insert("XPos", PV::N(e.pos.0)); m.insert("YPos", PV::N(e.pos.1)); m.insert("Heading", PV::N(modulo(e.heading, 360.0)));
    m.insert("Visible", PV::B(e.visible)); m.insert("Size", PV::N(e.scale * 100.0)); m.insert("PenDown", PV::B(false)); m.insert("PenSize", PV::N(1.0));
    m.insert("Tempo", PV::N(60.0)); m.insert("Volume", PV::N(100.0));
    let (h, s, v, t) = pen_hsvt(e.color);
    m.insert("PenColorH", PV::N(h)); m.insert("PenColorS", PV::N(s)); m.insert("PenColorV", PV::N(v)); m.insert("PenColorT", PV::N(t));
    m
}
fn settle(p: &str, v: f64) -> MR<f64> {
    let v = match p {
        "Heading" | "PenColorH" | "ColorH" => modulo(v, 360.0),
        "Size" | "PenSize" => v.max(0.0),
        "PenColorS" | "PenColorV" | "PenColorT" | "ColorS" | "ColorV" | "ColorT" => v.clamp(0.0, 100.0),
        _ => v,
    };
    if v.is_finite() { Ok(nz(v)) } else { err("NumberError") }
}
pub fn set_prop(e: &MEnt, p: &'static str, v: &MVal, change: bool) -> MR<()> {
    if p == "PenColor" {
        if change { return Err(MErr::msg("RAW", "attempt to apply relative change to a color")) }
        let n = v.as_num()? as u32;
        let (h, s, v, t) = pen_hsvt(((n >> 16) as u8, (n >> 8) as u8, n as u8, (n >> 24) as u8));
        let mut m = e.props.borrow_mut();
        m.insert("PenColorH", PV::N(h)); m.insert("PenColorS", PV::N(s)); m.insert("PenColorV", PV::N(v)); m.insert("PenColorT", PV::N(t));
        return Ok(())
    }
    let old = e.props.borrow().get(p).cloned().unwrap();
    let new = match old {
        PV::B(o) => { let b = v.as_bool()?; PV::B(if change { o ^ b } else { b }) }
        PV::N(o) => { let x = v.as_num()?; let x = if change { o + x } else { x }; PV::N(settle(p, x)?) }
    };
    e.props.borrow_mut().insert(p, new);
    Ok(())
}
fn prop_num(e: &MEnt, p: &str) -> f64 { match e.props.borrow().get(p) { Some(PV::N(x)) => *x, _ => 0.0 } }
fn effect(k: &ast::EffectKind) -> &'static str {
    use ast::EffectKind::*;
    match k { Color => "ColorH", Saturation => "ColorS", Brightness => "ColorV", Ghost => "ColorT", Fisheye => "Fisheye", Whirl => "Whirl", Pixelate => "Pixelate", Mosaic => "Mosaic", Negative => "Negative" }
}
fn pen_attr(k: &ast::PenAttribute) -> &'static str {
    use ast::PenAttribute::*;
    match k { Size => "PenSize", Hue => "PenColorH", Saturation => "PenColorS", Brightness => "PenColorV", Transparency => "PenColorT" }
}

// ---------------------------------------------------------------- waiting
struct YieldOnce(bool);
impl Future for YieldOnce { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }
async fn host_yield() { YieldOnce(false).await }
async fn yield_now(cx: &Cx) { cx.w.stats.borrow_mut().loops += 1; if cx.p.warp.get() == 0 { host_yield().await } }

impl Cx {
    fn tick(&self) -> R<()> {
        let f = self.w.fuel.get();
        if f == 0 || broke() { return Err(Stop::Fuel) }
        self.w.fuel.set(f - 1);
        self.w.used.set(self.w.used.get() + 1);
        Ok(())
    }
    fn lookup(&self, k: &str) -> MR<VCell> {
        if let Some(c) = tab_get(&self.f.locals.borrow(), k) { return Ok(c) }
        if let Some(c) = tab_get(&self.f.ent.fields.borrow(), k) { return Ok(c) }
        if let Some(c) = tab_get(&self.w.globals.borrow(), k) { return Ok(c) }
        Err(MErr::msg("UndefinedVariable", k))
    }
    fn def(&self, k: &str, v: MVal) { tab_def(&mut self.f.locals.borrow_mut(), k, new_cell(v)); }
    fn set(&self, k: &str, v: MVal) -> MR<()> { let c = self.lookup(k)?; *c.borrow_mut() = v; Ok(()) }
    fn ev(&self, e: Ev) { self.w.trace.borrow_mut().push(e); }
    fn latency(&self) -> u32 { let i = self.w.issued.get(); self.w.issued.set(i + 1); self.w.latency[i % self.w.latency.len()] }
    fn ent(&self) -> u32 { self.f.ent.uid }
    fn snaps(&self, vs: &[MVal]) -> Vec<Snap> { let mut s = MSnap::default(); vs.iter().map(|v| s.snap(v)).collect() }
}
/// Where something from outside can come in between two steps of a running script: right after a call to the host.
async fn midway(cx: &Cx) {
    let n = cx.w.issued.get();
    if cx.w.mid.borrow().front().is_some_and(|a| a.0 <= n) { cx.w.mid_now.set(true); YieldOnce(false).await }
}
async fn wait_host(n: u32) { for _ in 0..n { host_yield().await } }

enum Ans { Ok(MVal), Soft(String) }
/// Issues a request to the host and waits for its answer.
async fn request(cx: &Cx, kind: &str, name: &str, args: &[MVal], rpc_names: &[String]) -> R<Ans> {
    cx.w.stats.borrow_mut().requests += 1;
    let mut s = MSnap::default();
    let mut a = vec![];
    for (i, v) in args.iter().enumerate() { if kind == "rpc" { a.push(Snap::Text(rpc_names[i].clone())); } a.push(s.snap(v)); }
    let seq = cx.w.issued.get();
    cx.ev(Ev::Request { ent: cx.ent(), name: format!("{kind}:{name}"), args: a.clone() });
    let ans = host_answer(kind, name, &a, seq);
    let res = match ans {
        HostAns::Unsupported => return Err(MErr::new("NotSupported").into()),
        HostAns::Hard(m) => return Err(MErr::msg("Custom", m).into()),
        HostAns::Val(v) => { let mut n = 0; Ans::Ok(from_snap(&simple_to_snap(&v, &mut n))) }
        HostAns::Native(x) => Ans::Ok(Native(Rc::new(x))),
        HostAns::Soft(m) => Ans::Soft(m),
        HostAns::MarkPush(v) => { cx.p.marks.borrow_mut().push(v); Ans::Ok(Num(cx.p.marks.borrow().len() as f64)) }
        HostAns::MarkCount => Ans::Ok(Num(cx.p.marks.borrow().len() as f64)),
        HostAns::Line => Ans::Ok(text(&cx.p.line)),
    };
    let n = cx.latency();
    midway(cx).await;
    wait_host(n).await;
    Ok(res)
}
fn promoted<T>(e: String) -> R<T> { Err(MErr::msg("Promoted", e).into()) }
async fn syscall(cx: &Cx, name: &str, args: &[MVal]) -> R<MVal> {
    match request(cx, "syscall", name, args, &[]).await? {
        Ans::Ok(v) => { *cx.p.sys_err.borrow_mut() = None; Ok(v) }
        Ans::Soft(e) if cx.w.set.soft_sys => { let v = text(&e); *cx.p.sys_err.borrow_mut() = Some(v.clone()); Ok(v) }
        Ans::Soft(e) => promoted(e),
    }
}
async fn rpc(cx: &Cx, host: &Option<ast_str>, service: &str, rpc: &str, args: &'static [(ast_str, Expr)]) -> R<MVal> {
    let mut vs = vec![];
    for (_, a) in args { vs.push(expr(cx.clone(), a).await?); }
    let names: Vec<String> = args.iter().map(|x| x.0.to_string()).collect();
    let host = host.as_deref().filter(|h| !h.is_empty());
    let name = format!("{}{service}.{rpc}", host.map(|h| format!("{h}/")).unwrap_or_default());
    // repeated argument names: the last value wins, in the place of the first
    let (mut n2, mut v2): (Vec<String>, Vec<MVal>) = (vec![], vec![]);
    for (n, v) in names.into_iter().zip(vs) { match n2.iter().position(|x| *x == n) { Some(i) => v2[i] = v, None => { n2.push(n); v2.push(v); } } }
    match request(cx, "rpc", &name, &v2, &n2).await? {
        Ans::Ok(v) => { *cx.p.rpc_err.borrow_mut() = None; Ok(v) }
        Ans::Soft(e) if cx.w.set.soft_rpc => { let v = text(&e); *cx.p.rpc_err.borrow_mut() = Some(v.clone()); Ok(v) }
        Ans::Soft(e) => promoted(e),
    }
}
#[allow(non_camel_case_types)]
pub type ast_str = netsblox_vm::compact_str::CompactString;
/// Issues a command and waits for it; `f` is the command's effect, and its failure becomes a hard error afterwards.
async fn command(cx: &Cx, ev: Ev, f: impl FnOnce(&MEnt) -> MR<()>) -> R<()> {
    cx.w.stats.borrow_mut().requests += 1;
    let n = cx.latency();
    cx.ev(ev);
    let r = f(&cx.f.ent);
    midway(cx).await;
    wait_host(n).await;
    match r {
        Ok(()) => Ok(()),
        Err(e) if e.kind == "RAW" => promoted(e.msg.unwrap()),
        Err(e) => promoted(e.caught()),
    }
}
fn cmd_ev(cx: &Cx, name: impl Into<String>, args: Vec<Snap>) -> Ev { Ev::Command { ent: cx.ent(), name: name.into(), args } }
async fn prop_cmd(cx: &Cx, p: &'static str, v: MVal, change: bool) -> R<()> {
    let ev = cmd_ev(cx, format!("{} {p}", if change { "change" } else { "set" }), vec![msnap1(&v)]);
    command(cx, ev, |e| set_prop(e, p, &v, change)).await
}
async fn get_prop(cx: &Cx, p: &'static str) -> R<MVal> {
    cx.w.stats.borrow_mut().requests += 1;
    let n = cx.latency();
    cx.ev(Ev::Request { ent: cx.ent(), name: format!("get {p}"), args: vec![] });
    let v = match cx.f.ent.props.borrow().get(p) { Some(PV::N(x)) => Num(*x), Some(PV::B(x)) => Bool(*x), None => unreachable!() };
    midway(cx).await;
    wait_host(n).await;
    Ok(v)
}
async fn print(cx: &Cx, style: &'static str, v: MVal) -> R<()> {
    let empty = matches!(&v, Text(s) if s.is_empty());
    let ev = Ev::Print { ent: cx.ent(), style, value: if empty { None } else { Some(msnap1(&v)) } };
    command(cx, ev, |_| Ok(())).await
}
fn now_ms(cx: &Cx) -> MR<u64> { if cx.w.clock.mode == crate::vm::TimeMode::Timeless { err("NotSupported") } else { Ok(cx.w.now.get()) } }
/// Year, month, day, day of the week, hour, minute, second and the moment itself.
pub fn civil(ms: i64, zone: i64) -> [f64; 8] {
    let local = ms.div_euclid(1000) + zone;
    let (days, sec) = (local.div_euclid(86400), local.rem_euclid(86400));
    // civil date from a day number (era arithmetic)
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (day, month) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let year = yoe + era * 400 + if month <= 2 { 1 } else { 0 };
    [year, month, day, (days + 4).rem_euclid(7) + 1, sec / 3600, sec / 60 % 60, sec % 60, ms].map(|x| x as f64)
}
async fn sleep(cx: &Cx, v: MVal) -> R<()> {
    let ms = v.as_num()? * 1000.0;
    if ms <= 0.0 { host_yield().await; return Ok(()) }
    let until = now_ms(cx)?.saturating_add(ms as u64);
    cx.w.stats.borrow_mut().waits += 1;
    while cx.w.now.get() < until { host_yield().await; }
    Ok(())
}
fn variadic(cx: Cx, e: &'static Expr) -> Fut<Vec<MVal>> {
    Box::pin(async move {
        match &e.kind {
            E::Value(ast::Value::List(vs, _)) => Ok(vs.iter().map(literal).collect()),
            E::MakeList { values } => { let mut r = vec![]; for v in values { r.push(expr(cx.clone(), v).await?); } Ok(r) }
            _ => { let v = expr(cx.clone(), e).await?; let l = v.as_list()?; let r = l.items.borrow().clone(); Ok(r) }
        }
    })
}
/// The list value itself is produced by evaluating; for fixed argument lists errors of the elements surface first.
fn literal(v: &ast::Value) -> MVal {
    match v {
        ast::Value::Bool(x) => Bool(*x), ast::Value::Number(x) => Num(nz(*x)), ast::Value::String(x) => text(x),
        ast::Value::Constant(ast::Constant::E) => Num(std::f64::consts::E), ast::Value::Constant(ast::Constant::Pi) => Num(std::f64::consts::PI),
        ast::Value::List(xs, _) => mlist(xs.iter().map(literal).collect()),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- calls
fn child_frame(f: &Rc<MFrame>, locals: Tab, ent: Rc<MEnt>) -> Rc<MFrame> { Rc::new(MFrame { locals: RefCell::new(locals), ent, parent: Some(f.clone()), depth: f.depth + 1 }) }
fn snap_tab(t: &RefCell<Tab>) -> Vec<(String, Snap)> { t.borrow().iter().map(|(k, v)| (k.clone(), msnap1(&v.borrow()))).collect() }
/// Records the frame an error passes through on its way out.
fn note_frame(w: &World, e: &mut MErr, f: &MFrame) {
    if e.trace.is_empty() { e.top = Some(Box::new(TopInfo { ent: f.ent.name.clone(), fields: snap_tab(&f.ent.fields), globals: snap_tab(&w.globals) })); }
    let l = e.loc.take();
    e.trace.push((l, snap_tab(&f.locals)));
}
fn snap_locals(f: &MFrame) -> Vec<(String, Snap)> { f.locals.borrow().iter().map(|(k, v)| (k.clone(), msnap1(&v.borrow()))).collect() }
/// Runs a body in a new frame; warp depth and marks are restored whichever way it ends.
async fn in_frame(cx: &Cx, locals: Tab, ent: Rc<MEnt>, stat: Option<usize>, upvars: Vec<String>, stmts: &'static [Stmt]) -> R<MVal> {
    let f = child_frame(&cx.f, locals, ent);
    { let mut st = cx.w.stats.borrow_mut(); st.maxdepth = st.maxdepth.max(f.depth); }
    let inner = Cx { w: cx.w.clone(), p: cx.p.clone(), f: f.clone(), stat };
    let (warp, marks) = (cx.p.warp.get(), cx.p.marks.borrow().len());
    let r = async {
        for u in &upvars {
            cx.w.stats.borrow_mut().upvars += 1;
            let target = inner.lookup(u)?.borrow().as_text()?;
            let cell = match tab_get(&cx.f.locals.borrow(), &target) { Some(c) => c, None => return Err(MErr::msg("UndefinedVariable", u.as_str()).into()) };
            tab_def(&mut inner.f.locals.borrow_mut(), u, cell);
        }
        block(inner.clone(), stmts).await
    }.await;
    match r {
        Ok(()) => { cx.p.warp.set(warp); cx.p.marks.borrow_mut().truncate(marks); Ok(text("")) }
        Err(Stop::Ret(v)) => { cx.p.warp.set(warp); cx.p.marks.borrow_mut().truncate(marks); Ok(v) }
        Err(Stop::Err(mut e)) => { if cx.w.want_trace { note_frame(&cx.w, &mut e, &f); } Err(Stop::Err(e)) }
        Err(x) => Err(x),
    }
}
async fn call_fn(cx: &Cx, function: &'static ast::FnRef, args: &'static [Expr], upvars: &'static [ast::VariableRef]) -> R<MVal> {
    for u in upvars { cx.def(&u.name, Num(0.0)); }
    let mut vs = vec![];
    for a in args { vs.push(expr(cx.clone(), a).await?); }
    cx.w.stats.borrow_mut().calls += 1;
    if cx.f.depth >= cx.w.set.max_call_depth { return Err(MErr::msg("CallDepthLimit", format!("{}", cx.w.set.max_call_depth)).into()) }
    let role = cx.w.role;
    let f = cx.stat.and_then(|i| role.entities[i].funcs.iter().find(|f| f.trans_name == function.trans_name)).or_else(|| role.funcs.iter().find(|f| f.trans_name == function.trans_name)).expect("function");
    let mut locals: Tab = vec![];
    for (p, v) in f.params.iter().zip(vs) { tab_def(&mut locals, &p.trans_name, new_cell(v)); }
    // the body belongs to the place that defines it
    let stat = if cx.stat.is_some_and(|i| role.entities[i].funcs.iter().any(|g| std::ptr::eq(g, f))) { cx.stat } else { None };
    in_frame(cx, locals, cx.f.ent.clone(), stat, f.upvars.iter().map(|u| u.name.to_string()).collect(), &f.stmts).await
}
fn ring_locals(cx: &Cx, f: &MVal, args: Vec<MVal>) -> MR<(Rc<MRing>, Tab)> {
    let ring = f.as_ring()?;
    if ring.params.len() != args.len() { return Err(MErr::msg("ClosureArgCount", format!("{}/{}", ring.params.len(), args.len()))) }
    let mut locals = ring.caps.clone();
    for (p, v) in ring.params.iter().zip(args) { tab_def(&mut locals, p, new_cell(v)); }
    cx.w.stats.borrow_mut().rings += 1;
    Ok((ring, locals))
}
async fn call_ring(cx: &Cx, f: &MVal, args: Vec<MVal>, ent: Option<MVal>) -> R<MVal> {
    if cx.f.depth >= cx.w.set.max_call_depth { return Err(MErr::msg("CallDepthLimit", format!("{}", cx.w.set.max_call_depth)).into()) }
    let (ring, locals) = ring_locals(cx, f, args)?;
    let ent = match ent { Some(e) => e.as_ent()?, None => cx.f.ent.clone() };
    in_frame(cx, locals, ent, ring.stat, vec![], ring.stmts).await
}

// ---------------------------------------------------------------- expressions
pub fn expr(cx: Cx, e: &'static Expr) -> Fut<MVal> {
    Box::pin(async move {
        cx.tick()?;
        match expr_inner(&cx, e).await {
            Err(Stop::Err(mut er)) => { if er.loc.is_none() { er.loc = e.info.location.as_ref().map(|x| x.to_string()); } Err(Stop::Err(er)) }
            r => r,
        }
    })
}
async fn un(cx: &Cx, op: Un, e: &'static Expr) -> R<MVal> { let v = expr(cx.clone(), e).await?; Ok(unary(op, &v)?) }
async fn bin(cx: &Cx, op: Bin, a: &'static Expr, b: &'static Expr) -> R<MVal> { let a = expr(cx.clone(), a).await?; let b = expr(cx.clone(), b).await?; Ok(binary(op, &a, &b)?) }
async fn rel(cx: &Cx, r: Rel, a: &'static Expr, b: &'static Expr) -> R<MVal> { let a = expr(cx.clone(), a).await?; let b = expr(cx.clone(), b).await?; Ok(Bool(relation(&a, &b, r)?)) }
async fn net_target(cx: &Cx, names: &[String], vs: Vec<MVal>, target: MVal) -> R<(Vec<(String, Snap)>, Vec<String>)> {
    let _ = cx;
    let one = |v: &MVal| match v { Text(s) => Ok(s.to_string()), _ => err("VariadicConversionError") };
    let targets = match &target { List(l) => l.items.borrow().iter().map(one).collect::<MR<Vec<_>>>()?, v => vec![one(v)?] };
    let mut vals: Vec<(String, Snap)> = vec![];
    for (n, v) in names.iter().zip(vs) {
        let j = crate::vm::json_snap(&to_json(&v, true)?);
        match vals.iter_mut().find(|x| x.0 == *n) { Some(x) => x.1 = j, None => vals.push((n.clone(), j)) }
    }
    Ok((vals, targets))
}
pub fn net_json(j: &Json) -> MR<MVal> { from_json(j).map_err(|_| MErr::new("FromNetsBloxJsonError")) }
async fn expr_inner(cx: &Cx, e: &'static Expr) -> R<MVal> {
    macro_rules! ev { ($e:expr) => { expr(cx.clone(), $e).await? } }
    Ok(match &e.kind {
        E::Value(v) => literal(v),
        E::Variable { var } => { let c = cx.lookup(&var.trans_name)?; let v = c.borrow().clone(); v }
        E::Sub { left, right } => bin(cx, Bin::Sub, left, right).await?,
        E::Div { left, right } => bin(cx, Bin::Div, left, right).await?,
        E::Mod { left, right } => bin(cx, Bin::Mod, left, right).await?,
        E::Pow { base, power } => bin(cx, Bin::Pow, base, power).await?,
        E::Log { base, value } => bin(cx, Bin::Log, base, value).await?,
        E::Atan2 { y, x } => bin(cx, Bin::Atan2, y, x).await?,
        E::Range { start, stop } => bin(cx, Bin::Range, start, stop).await?,
        E::StrGet { string, index } => bin(cx, Bin::StrGet, index, string).await?,
        E::Neg { value } => un(cx, Un::Neg, value).await?,
        E::Abs { value } => un(cx, Un::Abs, value).await?,
        E::Sqrt { value } => un(cx, Un::Sqrt, value).await?,
        E::Sin { value } => un(cx, Un::Sin, value).await?,
        E::Cos { value } => un(cx, Un::Cos, value).await?,
        E::Tan { value } => un(cx, Un::Tan, value).await?,
        E::Asin { value } => un(cx, Un::Asin, value).await?,
        E::Acos { value } => un(cx, Un::Acos, value).await?,
        E::Atan { value } => un(cx, Un::Atan, value).await?,
        E::Round { value } => un(cx, Un::Round, value).await?,
        E::Floor { value } => un(cx, Un::Floor, value).await?,
        E::Ceil { value } => un(cx, Un::Ceil, value).await?,
        E::Not { value } => un(cx, Un::Not, value).await?,
        E::StrLen { value } => un(cx, Un::StrLen, value).await?,
        E::UnicodeToChar { value } => un(cx, Un::UniToChar, value).await?,
        E::CharToUnicode { value } => un(cx, Un::CharToUni, value).await?,
        E::StrGetLast { string } => un(cx, Un::StrLast, string).await?,
        E::TextSplit { text, mode } => match mode {
            TextSplitMode::Letter => un(cx, Un::Letters, text).await?,
            TextSplitMode::Word => un(cx, Un::Words, text).await?,
            TextSplitMode::Tab => un(cx, Un::Tabs, text).await?,
            TextSplitMode::CR => un(cx, Un::Crs, text).await?,
            TextSplitMode::LF => un(cx, Un::Lines, text).await?,
            TextSplitMode::Csv => un(cx, Un::Csv, text).await?,
            TextSplitMode::Json => un(cx, Un::Json, text).await?,
            TextSplitMode::Custom(p) => bin(cx, Bin::SplitBy, text, p).await?,
        },
        E::Eq { left, right } => rel(cx, Rel::Eq, left, right).await?,
        E::Neq { left, right } => rel(cx, Rel::Ne, left, right).await?,
        E::Less { left, right } => rel(cx, Rel::Lt, left, right).await?,
        E::LessEq { left, right } => rel(cx, Rel::Le, left, right).await?,
        E::Greater { left, right } => rel(cx, Rel::Gt, left, right).await?,
        E::GreaterEq { left, right } => rel(cx, Rel::Ge, left, right).await?,
        E::Identical { left, right } => { let a = ev!(left); let b = ev!(right); Bool(identical(&a, &b)) }
        E::And { left, right } => { let a = ev!(left); if !a.as_bool()? { Bool(false) } else { Bool(ev!(right).as_bool()?) } }
        E::Or { left, right } => { let a = ev!(left); if a.as_bool()? { Bool(true) } else { Bool(ev!(right).as_bool()?) } }
        E::Conditional { condition, then, otherwise } => { if ev!(condition).as_bool()? { ev!(then) } else { ev!(otherwise) } }
        E::Add { values } => fold(variadic(cx.clone(), values).await?, Bin::Add, 0.0)?,
        E::Mul { values } => fold(variadic(cx.clone(), values).await?, Bin::Mul, 1.0)?,
        E::Min { values } => pick_by(variadic(cx.clone(), values).await?, Rel::Lt)?,
        E::Max { values } => pick_by(variadic(cx.clone(), values).await?, Rel::Gt)?,
        E::StrCat { values } => { let v = variadic(cx.clone(), values).await?; text(&v.iter().map(display).collect::<String>()) }
        E::ListCat { lists } => { let v = variadic(cx.clone(), lists).await?; let mut r = vec![]; for l in &v { r.extend(l.as_list()?.items.borrow().iter().cloned()); } mlist(r) }
        E::CopyList { list } => mlist(variadic(cx.clone(), list).await?),
        E::MakeList { values } => { let mut r = vec![]; for v in values { r.push(ev!(v)); } mlist(r) }
        E::ListGet { list, index } => { let i = ev!(index); let l = ev!(list); index_list(&l, &i)? }
        E::ListGetLast { list } => { let l = ev!(list).as_list()?; let r = l.items.borrow().last().cloned(); match r { Some(x) => x, None => return Err(MErr::new("IndexOutOfBounds").into()) } }
        E::ListLen { value } => { let l = ev!(value).as_list()?; let n = l.items.borrow().len(); Num(n as f64) }
        E::ListIsEmpty { value } => { let l = ev!(value).as_list()?; let n = l.items.borrow().is_empty(); Bool(n) }
        E::ListDims { value } => { let v = ev!(value); mlist(dims(&v)?.into_iter().map(|x| Num(x as f64)).collect()) }
        E::ListRank { value } => { let v = ev!(value); Num(dims(&v)?.len() as f64) }
        E::ListRev { value } => { let l = ev!(value).as_list()?; let mut v = l.items.borrow().clone(); v.reverse(); mlist(v) }
        E::ListFlatten { value } => { let v = ev!(value); mlist(flatten(&v)?) }
        E::ListCons { item, list } => { let i = ev!(item); let l = ev!(list).as_list()?; let mut v = vec![i]; v.extend(l.items.borrow().iter().cloned()); mlist(v) }
        E::ListCdr { value } => { let l = ev!(value).as_list()?; let v = l.items.borrow().clone(); if v.is_empty() { return Err(MErr::new("IndexOutOfBounds").into()) } mlist(v[1..].to_vec()) }
        E::ListFind { list, value } => { let v = ev!(value); let l = ev!(list); Num(find(&l, &v)?.map(|x| x + 1).unwrap_or(0) as f64) }
        E::ListContains { list, value } => { let l = ev!(list); let v = ev!(value); Bool(find(&l, &v)?.is_some()) }
        E::ListColumns { value } => { let v = ev!(value); columns(&v)? }
        E::ListLines { value } => { let l = ev!(value).as_list()?; let v = l.items.borrow().clone(); text(&v.iter().map(|x| Ok(x.as_raw_text()?.to_string())).collect::<MR<Vec<_>>>()?.join("\n")) }
        E::ListCsv { value } => { let v = ev!(value); text(&to_csv(&v)?) }
        E::ListJson { value } => { let v = ev!(value); text(&to_json(&v, false)?.to_string()) }
        E::ListReshape { value, dims } => { let v = ev!(value); let d = variadic(cx.clone(), dims).await?; reshape(&v, &d)? }
        E::ListCombinations { sources } => { let s = variadic(cx.clone(), sources).await?; combos(&s)? }
        E::TypeQuery { value, ty } => {
            let v = ev!(value);
            use ast::ValueType as T;
            Bool(matches!((ty, &v), (T::Number, Num(_)) | (T::Text, Text(_)) | (T::Bool, Bool(_)) | (T::List, List(_)) | (T::Sprite, Ent(_)) | (T::Costume, Img(_)) | (T::Sound, Aud(_))))
        }
        E::CallRpc { host, service, rpc: r, args } => rpc(cx, host, service, r, args).await?,
        E::CallFn { function, args, upvars } => call_fn(cx, function, args, upvars).await?,
        E::CallClosure { new_entity, closure, args } => ring_call(cx, new_entity, closure, args).await?,
        E::Closure { kind: _, params, captures, stmts } => {
            let mut caps: Tab = vec![];
            for c in captures { let cell = cx.lookup(&c.trans_name)?; tab_def(&mut caps, &c.trans_name, cell); cx.w.stats.borrow_mut().captures += 1; }
            Ring(Rc::new(MRing { params: params.iter().map(|p| p.trans_name.to_string()).collect(), caps, stmts, stat: cx.stat }))
        }
        E::UnknownBlock { name, args } => match name.as_str() {
            "nativeCallSyscall" => native_syscall(cx, &args[0], &args[1]).await?,
            "nativeSyscallError" => cx.p.sys_err.borrow().clone().unwrap_or(text("")),
            _ => unknown(cx, name, args).await?,
        },
        E::Map { f, list } => {
            let f = ev!(f); let l = ev!(list).as_list()?; let items = l.items.borrow().clone();
            let out = new_list(vec![]);
            for i in items { let v = call_ring(cx, &f, vec![i], None).await?; out.items.borrow_mut().push(v); yield_now(cx).await; }
            List(out)
        }
        E::Keep { f, list } => {
            let f = ev!(f); let l = ev!(list).as_list()?; let items = l.items.borrow().clone();
            let mut out = vec![];
            for i in items { if call_ring(cx, &f, vec![i.clone()], None).await?.as_bool()? { out.push(i); } yield_now(cx).await; }
            mlist(out)
        }
        E::FindFirst { f, list } => {
            let f = ev!(f); let l = ev!(list).as_list()?; let items = l.items.borrow().clone();
            for i in items { if call_ring(cx, &f, vec![i.clone()], None).await?.as_bool()? { return Ok(i) } yield_now(cx).await; }
            text("")
        }
        E::Combine { f, list } => {
            let l = ev!(list).as_list()?; let items = l.items.borrow().clone(); let f = ev!(f);
            let mut it = items.into_iter();
            match it.next() {
                None => Num(0.0),
                Some(mut acc) => { for i in it { acc = call_ring(cx, &f, vec![acc, i], None).await?; yield_now(cx).await; } acc }
            }
        }
        E::NetworkMessageReply { target, msg_type, values } => {
            let mut vs = vec![];
            for (_, v) in values { vs.push(ev!(v)); }
            let t = ev!(target);
            let names: Vec<String> = values.iter().map(|x| x.0.to_string()).collect();
            let (vals, targets) = net_target(cx, &names, vs, t).await?;
            cx.ev(Ev::Send { msg: msg_type.to_string(), values: vals, targets, wait: true });
            let i = cx.w.sent.get();
            cx.w.sent.set(i + 1);
            let (n, v) = if cx.w.replies.is_empty() { (0, None) } else { cx.w.replies[i % cx.w.replies.len()].clone() };
            wait_host(n).await;
            match v { None => text(""), Some(j) => net_json(&j)? }
        }
        E::This => Ent(cx.f.ent.clone()),
        E::Entity { trans_name, .. } => match cx.w.ents.iter().find(|e| e.name == trans_name.as_str()) { Some(e) => Ent(e.clone()), None => return Err(MErr::msg("UndefinedEntity", trans_name.as_str()).into()) },
        E::RpcError => cx.p.rpc_err.borrow().clone().unwrap_or(text("")),
        E::Answer => cx.p.answer.borrow().clone().unwrap_or(text("")),
        E::Message => cx.p.message.as_ref().map(|m| Text(m.clone())).unwrap_or(text("")),
        E::RealTime { query } => {
            use ast::TimeQuery as Q;
            if cx.w.clock.mode != crate::vm::TimeMode::Real { return Err(MErr::new("NotSupported").into()) }
            let i = match query { Q::Year => 0, Q::Month => 1, Q::Date => 2, Q::DayOfWeek => 3, Q::Hour => 4, Q::Minute => 5, Q::Second => 6, Q::UnixTimestampMs => 7 };
            Num(civil(cx.w.clock.base + cx.w.now.get() as i64, cx.w.clock.zone as i64)[i])
        }
        E::Timer => Num(now_ms(cx)?.saturating_sub(cx.w.timer.get()) as f64 / 1000.0),
        E::XPos => get_prop(cx, "XPos").await?,
        E::YPos => get_prop(cx, "YPos").await?,
        E::Heading => get_prop(cx, "Heading").await?,
        E::PenDown => get_prop(cx, "PenDown").await?,
        E::Size => get_prop(cx, "Size").await?,
        E::IsVisible => get_prop(cx, "Visible").await?,
        E::Effect { kind } => get_prop(cx, effect(kind)).await?,
        E::PenAttr { attr } => get_prop(cx, pen_attr(attr)).await?,
        E::Costume => cx.f.ent.costume.borrow().clone().map(Img).unwrap_or(text("")),
        E::CostumeNumber => { let c = cx.f.ent.costume.borrow().clone(); Num(c.and_then(|c| cx.f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))).map(|x| x + 1).unwrap_or(0) as f64) }
        E::CostumeList => mlist(cx.f.ent.costumes.iter().map(|x| Img(x.1.clone())).collect()),
        E::CostumeName { costume } => { let v = ev!(costume); text(&find_costume(cx, &v)?.map(|c| c.name.clone()).unwrap_or_default()) }
        E::SoundList => mlist(cx.f.ent.sounds.iter().map(|x| Aud(x.1.clone())).collect()),
        E::SoundName { sound } => {
            let v = ev!(sound);
            match &v {
                Aud(a) => text(&a.name),
                Text(s) => match cx.f.ent.sounds.iter().find(|x| x.0 == **s) { Some(x) => text(&x.1.name), None => return Err(MErr::msg("UndefinedSound", &**s).into()) },
                _ => return Err(MErr::new("ConversionError").into()),
            }
        }
        E::Clone { target } => { let v = ev!(target); clone_ent(cx, &v)? }
        k => panic!("model: unsupported expression {k:?}"),
    })
}
fn fold(vs: Vec<MVal>, op: Bin, empty: f64) -> MR<MVal> {
    let mut it = vs.iter();
    match (it.next(), it.next()) {
        (None, _) => Ok(Num(empty)),
        (Some(a), None) => unary(Un::ToNum, a),
        (Some(a), Some(b)) => { let mut acc = binary(op, a, b)?; for x in it { acc = binary(op, &acc, x)?; } Ok(acc) }
    }
}
fn pick_by(vs: Vec<MVal>, r: Rel) -> MR<MVal> {
    let mut it = vs.into_iter();
    let mut best = it.next().ok_or(MErr::new("EmptyList"))?;
    for x in it { if relation(&x, &best, r)? { best = x; } }
    Ok(best)
}
async fn ring_call(cx: &Cx, ent: &'static Option<Box<Expr>>, closure: &'static Expr, args: &'static [Expr]) -> R<MVal> {
    let e = match ent { Some(e) => Some(expr(cx.clone(), e).await?), None => None };
    let f = expr(cx.clone(), closure).await?;
    let mut vs = vec![];
    for a in args { vs.push(expr(cx.clone(), a).await?); }
    call_ring(cx, &f, vs, e).await
}
async fn native_syscall(cx: &Cx, name: &'static Expr, args: &'static Expr) -> R<MVal> {
    let n = expr(cx.clone(), name).await?;
    let a = variadic(cx.clone(), args).await?;
    let n = n.as_text()?;
    syscall(cx, &n, &a).await
}
async fn unknown(cx: &Cx, name: &str, args: &'static [Expr]) -> R<MVal> {
    let mut vs = vec![];
    for a in args { vs.push(expr(cx.clone(), a).await?); }
    match request(cx, "unknown", name, &vs, &[]).await? { Ans::Ok(v) => Ok(v), Ans::Soft(e) => promoted(e) }
}
fn find_costume(cx: &Cx, v: &MVal) -> MR<Option<Rc<MImg>>> {
    match v {
        Img(x) => Ok(Some(x.clone())),
        Text(s) if s.is_empty() => Ok(None),
        Text(s) => match cx.f.ent.costumes.iter().find(|x| x.0 == **s) { Some(x) => Ok(Some(x.1.clone())), None => Err(MErr::msg("UndefinedCostume", &**s)) },
        _ => err("ConversionError"),
    }
}
fn clone_ent(cx: &Cx, v: &MVal) -> MR<MVal> {
    let t = v.as_ent()?;
    let uid = cx.w.next_uid.get();
    cx.w.next_uid.set(uid + 1);
    let fields = t.fields.borrow().iter().map(|(k, v)| (k.clone(), new_cell(v.borrow().clone()))).collect();
    let c = Rc::new(MEnt {
        uid, name: t.name.clone(), sounds: t.sounds.clone(), costumes: t.costumes.clone(), costume: RefCell::new(t.costume.borrow().clone()), fields: RefCell::new(fields),
        props: RefCell::new(t.props.borrow().clone()), original: Some(t.original.clone().unwrap_or(t.clone())),
    });
    cx.w.stats.borrow_mut().clones += 1;
    cx.w.created((cx.p.line.clone(), cx.p.marks.borrow().len()), &c);
    Ok(Ent(c))
}

// ---------------------------------------------------------------- statements
fn block(cx: Cx, stmts: &'static [Stmt]) -> Fut<()> { Box::pin(async move { for s in stmts { stmt(cx.clone(), s).await?; } Ok(()) }) }
fn stmt(cx: Cx, s: &'static Stmt) -> Fut<()> {
    Box::pin(async move {
        cx.tick()?;
        match stmt_inner(&cx, s).await {
            Err(Stop::Err(mut er)) => { if er.loc.is_none() { er.loc = s.info.location.as_ref().map(|x| x.to_string()); } Err(Stop::Err(er)) }
            r => r,
        }
    })
}
async fn stmt_inner(cx: &Cx, s: &'static Stmt) -> R<()> {
    macro_rules! ev { ($e:expr) => { expr(cx.clone(), $e).await? } }
    macro_rules! body { ($s:expr) => { block(cx.clone(), $s).await? } }
    match &s.kind {
        S::Assign { var, value } => { let v = ev!(value); cx.set(&var.trans_name, v)?; }
        S::AddAssign { var, value } => { let b = ev!(value); let a = cx.lookup(&var.trans_name)?.borrow().clone(); let v = binary(Bin::Add, &a, &b)?; cx.set(&var.trans_name, v)?; }
        S::ShowVar { var } | S::HideVar { var } => {
            let c = cx.lookup(&var.trans_name)?;
            let v = c.borrow().clone();
            cx.w.stats.borrow_mut().watch += 1;
            cx.w.watched.borrow_mut().push((var.trans_name.to_string(), cx.ent(), c.clone()));
            cx.ev(Ev::Watch { create: matches!(s.kind, S::ShowVar { .. }), ent: Some(cx.ent()), name: var.trans_name.to_string(), value: Some(msnap1(&v)) });
        }
        S::Pause => cx.ev(Ev::Pause),
        S::DeclareLocals { vars } => for v in vars { cx.def(&v.trans_name, Num(0.0)); },
        S::Warp { stmts } => {
            cx.w.stats.borrow_mut().warps += 1;
            cx.p.warp.set(cx.p.warp.get() + 1);
            body!(stmts);
            cx.p.warp.set(cx.p.warp.get() - 1);
        }
        S::InfLoop { stmts } => loop { body!(stmts); cx.tick()?; yield_now(cx).await; },
        S::UntilLoop { condition, stmts } => loop { if ev!(condition).as_bool()? { break } body!(stmts); yield_now(cx).await; },
        S::WaitUntil { condition } => loop { if ev!(condition).as_bool()? { break } yield_now(cx).await; },
        S::Repeat { times, stmts } => {
            let mut n = ev!(times);
            while relation(&n, &Num(0.0), Rel::Gt)? { body!(stmts); n = binary(Bin::Sub, &n, &Num(1.0))?; cx.tick()?; yield_now(cx).await; }
        }
        S::ForLoop { var, start, stop, stmts } => {
            cx.def(&var.name, Num(0.0));
            let a = ev!(start).as_num()?;
            let b = ev!(stop).as_num()?;
            let d = if a > b { -1.0 } else { 1.0 };
            let mut left = match num((b - a).abs())? { Num(x) => x, _ => unreachable!() };
            let mut i = a;
            while !(left < 0.0) {
                cx.set(&var.trans_name, Num(nz(i)))?;
                body!(stmts);
                left -= 1.0;
                i += d;
                cx.tick()?;
                yield_now(cx).await;
            }
        }
        S::ForeachLoop { var, items, stmts } => {
            cx.def(&var.name, Num(0.0));
            let l = ev!(items).as_list()?;
            let items = l.items.borrow().clone();
            for i in items { cx.set(&var.trans_name, i)?; body!(stmts); cx.tick()?; yield_now(cx).await; }
        }
        S::If { condition, then } => if ev!(condition).as_bool()? { body!(then) },
        S::IfElse { condition, then, otherwise } => if ev!(condition).as_bool()? { body!(then) } else { body!(otherwise) },
        S::TryCatch { code, var, handler } => {
            let (warp, marks) = (cx.p.warp.get(), cx.p.marks.borrow().len());
            match block(cx.clone(), code).await {
                Err(Stop::Err(e)) => {
                    { let mut st = cx.w.stats.borrow_mut(); st.caught += 1; if cx.p.marks.borrow().len() > marks || cx.p.warp.get() != warp { st.unwinds += 1; } }
                    cx.p.warp.set(warp);
                    cx.p.marks.borrow_mut().truncate(marks);
                    cx.def(&var.trans_name, text(&e.caught()));
                    body!(handler);
                }
                r => r?,
            }
        }
        S::Throw { error } => { let v = ev!(error).as_raw_text()?; return Err(MErr::msg("Custom", &*v).into()) }
        S::ListInsert { list, value, index } => {
            let v = ev!(value); let i = ev!(index); let l = ev!(list).as_list()?;
            let n = l.items.borrow().len();
            let set = index_set(&i, n + 1)?;
            for k in set.into_iter().rev() { l.items.borrow_mut().insert(k, v.clone()); }
        }
        S::ListInsertLast { list, value } => { let v = ev!(value); let l = ev!(list).as_list()?; l.items.borrow_mut().push(v); }
        S::ListRemove { list, index } => {
            let i = ev!(index); let l = ev!(list).as_list()?;
            let n = l.items.borrow().len();
            let set = index_set(&i, n)?;
            for k in set.into_iter().rev() { l.items.borrow_mut().remove(k); }
        }
        S::ListRemoveLast { list } => { let l = ev!(list).as_list()?; if l.items.borrow_mut().pop().is_none() { return Err(MErr::new("IndexOutOfBounds").into()) } }
        S::ListRemoveAll { list } => { let l = ev!(list).as_list()?; l.items.borrow_mut().clear(); }
        S::ListAssign { list, value, index } => {
            let i = ev!(index); let l = ev!(list); let v = ev!(value); let l = l.as_list()?;
            let n = l.items.borrow().len();
            for k in index_set(&i, n)? { l.items.borrow_mut()[k] = v.clone(); }
        }
        S::ListAssignLast { list, value } => { let l = ev!(list); let v = ev!(value); let l = l.as_list()?; let ok = match l.items.borrow_mut().last_mut() { Some(x) => { *x = v; true } None => false }; if !ok { return Err(MErr::new("IndexOutOfBounds").into()) } }
        S::Return { value } => { let v = ev!(value); return Err(Stop::Ret(v)) }
        S::Sleep { seconds } => { let v = ev!(seconds); sleep(cx, v).await?; }
        S::Say { content, duration } => say(cx, "say", content, duration).await?,
        S::Think { content, duration } => say(cx, "think", content, duration).await?,
        S::Ask { prompt } => {
            let p = ev!(prompt);
            let empty = matches!(&p, Text(s) if s.is_empty());
            let args: Vec<MVal> = if empty { vec![] } else { vec![p] };
            match request(cx, "ask", "", &args, &[]).await? { Ans::Ok(v) => *cx.p.answer.borrow_mut() = Some(v), Ans::Soft(e) => return promoted(e) }
        }
        S::SendNetworkReply { value } => {
            let v = ev!(value);
            let j = to_json(&v, true)?;
            let k = cx.p.reply.borrow_mut().take();
            if let Some((src, req)) = k { cx.ev(Ev::Reply { src, req, value: crate::vm::json_snap(&j) }); }
        }
        S::SendNetworkMessage { target, msg_type, values } => {
            let mut vs = vec![];
            for (_, v) in values { vs.push(ev!(v)); }
            let t = ev!(target);
            let names: Vec<String> = values.iter().map(|x| x.0.to_string()).collect();
            let (vals, targets) = net_target(cx, &names, vs, t).await?;
            cx.ev(Ev::Send { msg: msg_type.to_string(), values: vals, targets, wait: false });
        }
        S::SetSize { value } => { let v = ev!(value); prop_cmd(cx, "Size", v, false).await? }
        S::ChangeSize { delta } => { let v = ev!(delta); prop_cmd(cx, "Size", v, true).await? }
        S::SetPenSize { value } => { let v = ev!(value); prop_cmd(cx, "PenSize", v, false).await? }
        S::ChangePenSize { delta } => { let v = ev!(delta); prop_cmd(cx, "PenSize", v, true).await? }
        S::SetEffect { kind, value } => { let v = ev!(value); prop_cmd(cx, effect(kind), v, false).await? }
        S::ChangeEffect { kind, delta } => { let v = ev!(delta); prop_cmd(cx, effect(kind), v, true).await? }
        S::SetPenAttr { attr, value } => { let v = ev!(value); prop_cmd(cx, pen_attr(attr), v, false).await? }
        S::ChangePenAttr { attr, delta } => { let v = ev!(delta); prop_cmd(cx, pen_attr(attr), v, true).await? }
        S::SetX { value } => { let v = ev!(value); prop_cmd(cx, "XPos", v, false).await? }
        S::SetY { value } => { let v = ev!(value); prop_cmd(cx, "YPos", v, false).await? }
        S::ChangeX { delta } => { let v = ev!(delta); prop_cmd(cx, "XPos", v, true).await? }
        S::ChangeY { delta } => { let v = ev!(delta); prop_cmd(cx, "YPos", v, true).await? }
        S::SetHeading { value } => { let v = ev!(value); prop_cmd(cx, "Heading", v, false).await? }
        S::TurnRight { angle } => { let v = ev!(angle); prop_cmd(cx, "Heading", v, true).await? }
        S::TurnLeft { angle } => { let v = ev!(angle); let v = unary(Un::Neg, &v)?; prop_cmd(cx, "Heading", v, true).await? }
        S::SetVisible { value } => prop_cmd(cx, "Visible", Bool(*value), false).await?,
        S::SetPenDown { value } => prop_cmd(cx, "PenDown", Bool(*value), false).await?,
        S::SetPenColor { color: (r, g, b, a) } => prop_cmd(cx, "PenColor", Num(u32::from_be_bytes([*a, *r, *g, *b]) as f64), false).await?,
        S::ClearEffects => command(cx, cmd_ev(cx, "clear effects", vec![]), |e| { for k in ["ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"] { e.props.borrow_mut().insert(k, PV::N(0.0)); } Ok(()) }).await?,
        S::PenClear => command(cx, cmd_ev(cx, "clear drawings", vec![]), |_| Ok(())).await?,
        S::GotoXY { x, y } => { let x = ev!(x); let y = ev!(y); let y = y.as_num()?; let x = x.as_num()?; goto(cx, x, y).await? }
        S::Goto { target } => { let t = ev!(target); match place(&t)? { Place::At(x, y) => goto(cx, x, y).await?, Place::Ent(t) => command(cx, cmd_ev(cx, "goto entity", vec![Snap::Entity(t.uid)]), |e| { let (x, y) = (prop_num(&t, "XPos"), prop_num(&t, "YPos")); e.props.borrow_mut().insert("XPos", PV::N(x)); e.props.borrow_mut().insert("YPos", PV::N(y)); Ok(()) }).await? } }
        S::PointTowardsXY { x, y } => { let x = ev!(x); let y = ev!(y); let y = y.as_num()?; let x = x.as_num()?; command(cx, cmd_ev(cx, "point", vec![Snap::Num(x), Snap::Num(y)]), |e| point(e, x, y)).await? }
        S::PointTowards { target } => { let t = ev!(target); match place(&t)? {
            Place::At(x, y) => command(cx, cmd_ev(cx, "point", vec![Snap::Num(x), Snap::Num(y)]), |e| point(e, x, y)).await?,
            Place::Ent(t) => command(cx, cmd_ev(cx, "point entity", vec![Snap::Entity(t.uid)]), |e| if t.uid == e.uid { Ok(()) } else { point(e, prop_num(&t, "XPos"), prop_num(&t, "YPos")) }).await?,
        } }
        S::Forward { distance } => {
            let d = ev!(distance).as_num()?;
            command(cx, cmd_ev(cx, "forward", vec![Snap::Num(d)]), |e| {
                let h = prop_num(e, "Heading").to_radians();
                let (x, y) = (prop_num(e, "XPos") + libm::sin(h) * d, prop_num(e, "YPos") + libm::cos(h) * d);
                if !x.is_finite() || !y.is_finite() { return err("NumberError") }
                e.props.borrow_mut().insert("XPos", PV::N(x)); e.props.borrow_mut().insert("YPos", PV::N(y));
                Ok(())
            }).await?
        }
        S::SetCostume { costume } => { let v = ev!(costume); let c = find_costume(cx, &v)?; wear(cx, c).await? }
        S::NextCostume => {
            let cur = cx.f.ent.costume.borrow().clone();
            if let Some(i) = cur.and_then(|c| cx.f.ent.costumes.iter().position(|x| Rc::ptr_eq(&x.1, &c))) {
                let next = cx.f.ent.costumes[(i + 1) % cx.f.ent.costumes.len()].1.clone();
                wear(cx, Some(next)).await?
            }
        }
        S::PlaySound { sound, blocking } => {
            let v = ev!(sound);
            let snd = match &v {
                Aud(a) => Some(a.clone()),
                Text(s) if s.is_empty() => None,
                Text(s) => match cx.f.ent.sounds.iter().find(|x| x.0 == **s) { Some(x) => Some(x.1.clone()), None => return Err(MErr::msg("UndefinedSound", &**s).into()) },
                _ => return Err(MErr::new("ConversionError").into()),
            };
            if let Some(s) = snd { command(cx, cmd_ev(cx, format!("play sound blocking={blocking}"), vec![Snap::Text(s.name.clone()), Snap::Num(s.content.len() as f64)]), |_| Ok(())).await? }
        }
        S::PlayNotes { notes, beats, blocking } => { let n = ev!(notes); let b = ev!(beats); play(cx, n, b, *blocking).await? }
        S::Rest { beats } => { let b = ev!(beats); play(cx, mlist(vec![]), b, true).await? }
        S::StopSounds => command(cx, cmd_ev(cx, "stop sounds", vec![]), |_| Ok(())).await?,
        S::ResetTimer => { let t = now_ms(cx)?; cx.w.timer.set(t) }
        S::CallRpc { host, service, rpc: r, args } => { rpc(cx, host, service, r, args).await?; }
        S::CallFn { function, args, upvars } => { call_fn(cx, function, args, upvars).await?; }
        S::CallClosure { new_entity, closure, args } => { ring_call(cx, new_entity, closure, args).await?; }
        S::ForkClosure { closure, args } => {
            let f = ev!(closure);
            let mut vs = vec![];
            for a in args { vs.push(ev!(a)); }
            let (ring, locals) = ring_locals(cx, &f, vs)?;
            cx.w.stats.borrow_mut().forks += 1;
            let ctx = MCtx { locals, barrier: None, reply: None, msg: None, from: Some((cx.p.line.clone(), cx.p.marks.borrow().len())) };
            let id = cx.w.spawn_body(ctx, cx.f.ent.clone(), ring.stat, ring.stmts);
            cx.w.consume_all();
            cx.w.sched.borrow_mut().queue.push_back(id);
        }
        S::Clone { target } => { let v = ev!(target); clone_ent(cx, &v)?; }
        S::DeleteClone => if cx.f.ent.original.is_some() { cx.w.deleted(&cx.f.ent); cx.die_if_killed().await },
        S::SendLocalMessage { target, msg_type, wait } => {
            let m = ev!(msg_type);
            let t = match target { Some(t) => Some(ev!(t)), None => None };
            let targets = match t { None => None, Some(List(l)) => Some(l.items.borrow().iter().map(|x| x.as_ent()).collect::<MR<Vec<_>>>()?), Some(x) => Some(vec![x.as_ent()?]) };
            let m = m.as_text()?;
            let barrier = wait.then(|| Rc::new(()));
            let cond: Option<Weak<()>> = barrier.as_ref().map(Rc::downgrade);
            cx.w.broadcast((cx.p.line.clone(), cx.p.marks.borrow().len()), m, barrier, targets);
            cx.die_if_killed().await;
            if let Some(c) = cond { cx.w.stats.borrow_mut().waits += 1; while c.strong_count() > 0 { host_yield().await } }
        }
        S::Stop { mode } => {
            use ast::StopMode as M;
            cx.w.stats.borrow_mut().aborts += 1;
            match mode {
                M::ThisBlock => return Err(Stop::Ret(text(""))),
                M::ThisScript => { cx.w.kill(cx.p.id); cx.die_if_killed().await }
                M::All => { cx.w.stop_everything(); cx.die_if_killed().await }
                M::AllButThisScript => { let ids: Vec<u64> = cx.w.sched.borrow().tasks.keys().copied().filter(|x| *x != cx.p.id).collect(); for i in ids { cx.w.kill(i); } }
                M::OtherScriptsInSprite => {
                    let ids: Vec<u64> = cx.w.sched.borrow().tasks.iter().filter(|(i, t)| **i != cx.p.id && Rc::ptr_eq(&t.0.root, &cx.f.ent)).map(|x| *x.0).collect();
                    for i in ids { cx.w.kill(i); }
                }
                _ => panic!("unsupported stop"),
            }
        }
        S::UnknownBlock { name, args } => match name.as_str() {
            "nativeRunSyscall" => { native_syscall(cx, &args[0], &args[1]).await?; }
            _ => { unknown(cx, name, args).await?; }
        },
        k => panic!("model: unsupported statement {k:?}"),
    }
    Ok(())
}
async fn say(cx: &Cx, style: &'static str, content: &'static Expr, duration: &'static Option<Box<Expr>>) -> R<()> {
    let v = expr(cx.clone(), content).await?;
    print(cx, style, v).await?;
    if let Some(d) = duration { let d = expr(cx.clone(), d).await?; sleep(cx, d).await?; print(cx, style, text("")).await?; }
    Ok(())
}
async fn goto(cx: &Cx, x: f64, y: f64) -> R<()> { command(cx, cmd_ev(cx, "goto", vec![Snap::Num(x), Snap::Num(y)]), |e| { e.props.borrow_mut().insert("XPos", PV::N(x)); e.props.borrow_mut().insert("YPos", PV::N(y)); Ok(()) }).await }
enum Place { At(f64, f64), Ent(Rc<MEnt>) }
fn place(v: &MVal) -> MR<Place> {
    match v {
        List(l) => { let l = l.items.borrow(); if l.len() != 2 { return err("InvalidListLength") } Ok(Place::At(l[0].as_num()?, l[1].as_num()?)) }
        Ent(e) => Ok(Place::Ent(e.clone())),
        _ => err("ConversionError"),
    }
}
fn point(e: &MEnt, x: f64, y: f64) -> MR<()> {
    let (dx, dy) = (x - prop_num(e, "XPos"), y - prop_num(e, "YPos"));
    let h = modulo(libm::atan2(dx, dy).to_degrees(), 360.0);
    if !h.is_finite() { return err("NumberError") }
    e.props.borrow_mut().insert("Heading", PV::N(h));
    Ok(())
}
async fn wear(cx: &Cx, c: Option<Rc<MImg>>) -> R<()> {
    let same = match (&c, &*cx.f.ent.costume.borrow()) { (None, None) => true, (Some(a), Some(b)) => Rc::ptr_eq(a, b), _ => false };
    if same { return Ok(()) }
    *cx.f.ent.costume.borrow_mut() = c.clone();
    command(cx, cmd_ev(cx, "costume", c.iter().map(|c| Snap::Text(c.name.clone())).collect()), |_| Ok(())).await
}
pub fn note_of(v: &MVal) -> MR<f64> {
    match v {
        Text(s) if parse_num(s).is_none() => crate::p_api::ref_note(s).map(|x| x as f64).ok_or(MErr::new("NoteNotMidi")),
        v => { let x = v.as_num()?; if x as i64 as f64 != x { return err("NoteNotInteger") } if !(0.0..=127.0).contains(&x) { return err("NoteNotMidi") } Ok(x) }
    }
}
async fn play(cx: &Cx, notes: MVal, beats: MVal, blocking: bool) -> R<()> {
    let b = beats.as_num()?;
    let ns = match &notes { List(l) => l.items.borrow().iter().map(note_of).collect::<MR<Vec<_>>>()?, v => vec![note_of(v)?] };
    if b <= 0.0 { return Ok(()) }
    let mut a = vec![Snap::Num(b)];
    a.extend(ns.into_iter().map(Snap::Num));
    command(cx, cmd_ev(cx, format!("play notes blocking={blocking}"), a), |_| Ok(())).await
}
impl Cx { async fn die_if_killed(&self) { if !self.p.alive.get() { std::future::pending::<()>().await } } }

// ---------------------------------------------------------------- world and scheduler
pub struct InitEnts { pub globals: Tab, pub ents: Vec<Rc<MEnt>> }
/// Initial state, straight from the project description.
pub fn instantiate(role: &ast::Role) -> InitEnts {
    struct B { lists: HashMap<usize, MVal>, imgs: HashMap<usize, MVal> }
    fn reg(b: &mut B, v: &ast::Value) { if let ast::Value::List(xs, id) = v { if let Some(id) = id { b.lists.entry(id.0).or_insert_with(|| mlist(vec![])); } for x in xs { reg(b, x); } } }
    fn val(b: &mut B, v: &ast::Value) -> MVal {
        match v {
            ast::Value::List(xs, id) => {
                let l = match id { Some(id) => b.lists[&id.0].clone(), None => mlist(vec![]) };
                let items: Vec<MVal> = xs.iter().map(|x| val(b, x)).collect();
                if let List(l) = &l { *l.items.borrow_mut() = items; }
                l
            }
            ast::Value::Ref(id) => b.lists[&id.0].clone(),
            ast::Value::Image(x) => b.imgs.entry(Rc::as_ptr(x) as usize).or_insert_with(|| Img(Rc::new(MImg { name: x.2.to_string(), content: x.0.clone(), center: x.1 }))).clone(),
            ast::Value::Audio(x) => b.imgs.entry(Rc::as_ptr(x) as usize).or_insert_with(|| Aud(Rc::new(MAud { name: x.1.to_string(), content: x.0.clone() }))).clone(),
            v => literal(v),
        }
    }
    let mut b = B { lists: HashMap::new(), imgs: HashMap::new() };
    for g in &role.globals { reg(&mut b, &g.init); }
    for e in &role.entities { for f in &e.fields { reg(&mut b, &f.init); } }
    let globals = role.globals.iter().map(|g| (g.def.trans_name.to_string(), new_cell(val(&mut b, &g.init)))).collect();
    let mut ents = vec![];
    for (i, e) in role.entities.iter().enumerate() {
        let fields = e.fields.iter().map(|g| (g.def.trans_name.to_string(), new_cell(val(&mut b, &g.init)))).collect();
        let costumes: Vec<_> = e.costumes.iter().filter_map(|c| match val(&mut b, &c.init) { Img(x) => Some((c.def.name.to_string(), x)), _ => None }).collect();
        let sounds = e.sounds.iter().filter_map(|c| match val(&mut b, &c.init) { Aud(x) => Some((c.def.name.to_string(), x)), _ => None }).collect();
        let costume = e.active_costume.and_then(|i| costumes.get(i)).map(|x| x.1.clone());
        ents.push(Rc::new(MEnt { uid: i as u32, name: e.trans_name.to_string(), sounds, costumes, costume: RefCell::new(costume), fields: RefCell::new(fields), props: RefCell::new(init_props(e)), original: None }));
    }
    InitEnts { globals, ents }
}
#[derive(Clone, Debug, PartialEq)]
pub enum MKey { Any, Up, Down, Left, Right, Enter, Char(char) }
pub fn parse_key(s: &str) -> Option<MKey> {
    Some(match s { "any key" => MKey::Any, "up arrow" => MKey::Up, "down arrow" => MKey::Down, "left arrow" => MKey::Left, "right arrow" => MKey::Right, "enter" => MKey::Enter, "space" => MKey::Char(' '),
        s => { let mut c = s.chars(); match (c.next(), c.next()) { (Some(c), None) => MKey::Char(c.to_ascii_lowercase()), _ => return None } } })
}
impl World {
    pub fn new(role: &'static ast::Role, set: MSettings, latency: Vec<u32>, replies: Vec<(u32, Option<Json>)>, now: u64, clock: crate::drive::HostClock, fuel: u64, want_trace: bool) -> Rc<World> {
        let InitEnts { globals, ents } = instantiate(role);
        let mut scripts = vec![];
        for (i, e) in role.entities.iter().enumerate() {
            for s in &e.scripts { if let Some(h) = &s.hat { scripts.push(MScript { hat: &h.kind, stmts: &s.stmts, ent: ents[i].clone(), stat: i, proc: None, queue: VecDeque::new() }); } }
        }
        let next_uid = ents.len() as u32;
        Rc::new(World {
            role, globals: RefCell::new(globals), ents, sched: RefCell::new(Sched { scripts, ..Default::default() }), trace: Default::default(), clock, now: Cell::new(now), timer: Cell::new(now), latency, issued: Cell::new(0),
            inbox: Default::default(), replies, sent: Cell::new(0), mid: Default::default(), mid_now: Cell::new(false), fuel: Cell::new(fuel), used: Cell::new(0), set, next_uid: Cell::new(next_uid), want_trace, errors: Default::default(), stats: Default::default(), watched: Default::default(),
        })
    }
    /// Work the scheduler does on behalf of a script counts against the budget as well.
    fn charge(&self, n: u64) { let f = self.fuel.get(); let n = n.min(f); self.fuel.set(f - n); self.used.set(self.used.get() + n); }
    fn spawn_body(self: &Rc<Self>, c: MCtx, ent: Rc<MEnt>, stat: Option<usize>, stmts: &'static [Stmt]) -> u64 {
        let id = { let mut s = self.sched.borrow_mut(); s.next += 1; s.next };
        let p = Rc::new(MProc { id, warp: Cell::new(0), answer: Default::default(), rpc_err: Default::default(), sys_err: Default::default(), message: c.msg, reply: RefCell::new(c.reply), marks: Default::default(), line: crate::vm::new_line(&ent.name, c.from.as_ref().map(|x| (x.0.as_str(), x.1))), barrier: RefCell::new(c.barrier), root: ent.clone(), alive: Cell::new(true) });
        let f = Rc::new(MFrame { locals: RefCell::new(c.locals), ent, parent: None, depth: 1 });
        let cx = Cx { w: self.clone(), p: p.clone(), f: f.clone(), stat };
        let want = self.want_trace;
        let fut: TaskFut = Box::pin(async move {
            match block(cx.clone(), stmts).await {
                Ok(()) => Ok(text("")),
                Err(Stop::Ret(v)) => Ok(v),
                Err(Stop::Err(mut e)) => { if want { note_frame(&cx.w, &mut e, &f); } Err(Stop::Err(e)) }
                Err(x) => Err(x),
            }
        });
        self.sched.borrow_mut().tasks.insert(id, (p, Some(fut)));
        id
    }
    fn kill(&self, id: u64) {
        let t = self.sched.borrow_mut().tasks.remove(&id);
        if let Some((p, fut)) = t { p.alive.set(false); *p.barrier.borrow_mut() = None; self.stats.borrow_mut().kills += 1; drop(fut); }
    }
    /// Starts the next queued execution of every script that is not running.
    fn consume_all(self: &Rc<Self>) { let n = self.sched.borrow().scripts.len(); for i in 0..n { self.consume(i); } }
    fn consume(self: &Rc<Self>, i: usize) {
        let ctx = {
            let mut s = self.sched.borrow_mut();
            if let Some(p) = s.scripts[i].proc { if s.tasks.contains_key(&p) { return } }
            match s.scripts[i].queue.pop_front() { None => return, Some(c) => c }
        };
        let (ent, stat, stmts) = { let s = self.sched.borrow(); let sc = &s.scripts[i]; (sc.ent.clone(), sc.stat, sc.stmts) };
        let id = self.spawn_body(ctx, ent, Some(stat), stmts);
        let mut s = self.sched.borrow_mut();
        s.queue.push_back(id);
        s.scripts[i].proc = Some(id);
    }
    fn stop_script(&self, i: usize) {
        let p = { let mut s = self.sched.borrow_mut(); let sc = &mut s.scripts[i]; (sc.proc.take(), std::mem::take(&mut sc.queue)) };
        if let Some(p) = p.0 { self.kill(p); }
    }
    fn schedule(self: &Rc<Self>, i: usize, c: MCtx, max_queue: usize) {
        self.sched.borrow_mut().scripts[i].queue.push_back(c);
        self.consume(i);
        let over = { let mut s = self.sched.borrow_mut(); let q = &mut s.scripts[i].queue; if q.len() > max_queue { q.pop_back() } else { None } };
        let n = self.sched.borrow().scripts[i].queue.len();
        let mut st = self.stats.borrow_mut();
        if over.is_some() { st.dropped += 1; } else if n > 0 { st.queued += 1; }
    }
    pub fn stop_everything(&self) {
        let n = self.sched.borrow().scripts.len();
        for i in 0..n { self.stop_script(i); }
        let ids: Vec<u64> = self.sched.borrow().tasks.keys().copied().collect();
        for i in ids { self.kill(i); }
        self.sched.borrow_mut().queue.clear();
    }
    fn hats(&self, f: impl Fn(&HatKind) -> bool) -> Vec<usize> { self.sched.borrow().scripts.iter().enumerate().filter(|x| f(x.1.hat)).map(|x| x.0).collect() }
    pub fn start(self: &Rc<Self>) {
        let is = self.hats(|h| matches!(h, HatKind::OnFlag));
        if !is.is_empty() { self.consume_all(); }
        for i in is { self.stop_script(i); self.schedule(i, MCtx { locals: vec![], barrier: None, reply: None, msg: None, from: None }, 0); }
    }
    pub fn key(self: &Rc<Self>, k: &MKey) {
        let is = self.hats(|h| match h { HatKind::OnKey { key } => { let f = parse_key(key).unwrap(); f == MKey::Any || f == *k } _ => false });
        if !is.is_empty() { self.consume_all(); }
        for i in is { self.schedule(i, MCtx { locals: vec![], barrier: None, reply: None, msg: None, from: None }, 0); }
    }
    fn field_locals(fields: &[ast::VariableRef], args: &[(String, Snap)]) -> Tab {
        let mut t: Tab = vec![];
        for f in fields { let v = args.iter().rev().find(|a| a.0 == f.trans_name.as_str()).map(|a| from_snap(&a.1)).unwrap_or(Num(0.0)); tab_def(&mut t, &f.trans_name, new_cell(v)); }
        t
    }
    pub fn custom(self: &Rc<Self>, name: &str, args: &[(String, Snap)], interrupt: bool, max_queue: usize) {
        let is = self.hats(|h| matches!(h, HatKind::Unknown { name: n, .. } if n.as_str() == name));
        if !is.is_empty() { self.consume_all(); }
        for i in is {
            let fields = match self.sched.borrow().scripts[i].hat { HatKind::Unknown { fields, .. } => fields, _ => unreachable!() };
            if interrupt { self.stop_script(i); }
            self.schedule(i, MCtx { locals: Self::field_locals(fields, args), barrier: None, reply: None, msg: None, from: None }, max_queue);
        }
    }
    fn receive(self: &Rc<Self>, m: MMsg) {
        let is = self.hats(|h| matches!(h, HatKind::NetworkMessage { msg_type, .. } if msg_type.as_str() == m.msg_type));
        if !is.is_empty() { self.consume_all(); }
        for i in is {
            let fields = match self.sched.borrow().scripts[i].hat { HatKind::NetworkMessage { fields, .. } => fields, _ => unreachable!() };
            self.stats.borrow_mut().netmsgs += 1;
            self.schedule(i, MCtx { locals: Self::field_locals(fields, &m.values), barrier: None, reply: m.reply.clone(), msg: None, from: None }, usize::MAX);
        }
    }
    fn broadcast(self: &Rc<Self>, from: (String, usize), m: Rc<str>, barrier: Option<Rc<()>>, targets: Option<Vec<Rc<MEnt>>>) {
        let is: Vec<usize> = self.sched.borrow().scripts.iter().enumerate().filter(|(_, s)| match s.hat {
            HatKind::LocalMessage { msg_type } => msg_type.as_deref().map(|x| *x == *m).unwrap_or(true) && targets.as_ref().map(|t| t.iter().any(|t| Rc::ptr_eq(t, &s.ent))).unwrap_or(true),
            _ => false,
        }).map(|x| x.0).collect();
        { let mut st = self.stats.borrow_mut(); st.bcasts += 1; st.received += is.len(); }
        self.charge(is.len() as u64 * 6 + self.sched.borrow().scripts.len() as u64 / 2);
        if !is.is_empty() { self.consume_all(); }
        for i in is { self.stop_script(i); self.schedule(i, MCtx { locals: vec![], barrier: barrier.clone(), reply: None, msg: Some(m.clone()), from: Some(from.clone()) }, 0); }
    }
    fn created(self: &Rc<Self>, from: (String, usize), c: &Rc<MEnt>) {
        let orig = c.original.as_ref().unwrap();
        let news: Vec<MScript> = self.sched.borrow().scripts.iter().filter(|s| Rc::ptr_eq(&s.ent, orig)).map(|s| MScript { hat: s.hat, stmts: s.stmts, ent: c.clone(), stat: s.stat, proc: None, queue: VecDeque::new() }).collect();
        let base = self.sched.borrow().scripts.len();
        self.charge(20 + base as u64);
        let on: Vec<usize> = news.iter().enumerate().filter(|s| matches!(s.1.hat, HatKind::OnClone)).map(|x| x.0 + base).collect();
        if !on.is_empty() { self.consume_all(); }
        self.sched.borrow_mut().scripts.extend(news);
        for i in on { self.schedule(i, MCtx { locals: vec![], barrier: None, reply: None, msg: None, from: Some(from.clone()) }, 0); }
    }
    fn deleted(&self, c: &Rc<MEnt>) {
        self.sched.borrow_mut().scripts.retain(|s| !Rc::ptr_eq(&s.ent, c));
        let ids: Vec<u64> = self.sched.borrow().tasks.iter().filter(|t| Rc::ptr_eq(&t.1.0.root, c)).map(|x| *x.0).collect();
        for i in ids { self.kill(i); }
    }
    pub fn act(self: &Rc<Self>, a: crate::drive::Act) {
        use crate::drive::Act;
        match a {
            Act::Start => self.start(), Act::Stop => self.stop_everything(), Act::Key(k) => self.key(&k), Act::KeyUp(_) => (),
            Act::Custom { name, args, interrupt, max_queue } => self.custom(&name, &args, interrupt, max_queue),
            Act::Msg { msg_type, values, reply } => self.receive(MMsg { msg_type, values, reply }),
        }
    }
    /// Runs until a script pauses for others, ends, or nothing is left to run.
    pub fn turn(self: &Rc<Self>) -> Turn {
        let m = self.inbox.borrow_mut().pop_front();
        if let Some(m) = m { self.receive(m); }
        loop {
            let id = self.sched.borrow_mut().queue.pop_front();
            let id = match id {
                Some(x) => x,
                None => { self.consume_all(); if self.sched.borrow().queue.is_empty() { return Turn::Idle } continue }
            };
            let (p, mut fut) = match self.sched.borrow_mut().tasks.get_mut(&id) { Some((p, f)) => (p.clone(), f.take().unwrap()), None => continue };
            let r = fut.as_mut().poll(&mut Context::from_waker(Waker::noop()));
            if self.fuel.get() == 0 || broke() { return Turn::Fuel }
            match r {
                Poll::Pending if self.mid_now.take() => {
                    // the script is the next to go on, unless what comes in ends it
                    { let mut sc = self.sched.borrow_mut(); sc.tasks.get_mut(&id).unwrap().1 = Some(fut); sc.queue.push_front(id); }
                    let n = self.issued.get();
                    while let Some(a) = { let mut m = self.mid.borrow_mut(); if m.front().is_some_and(|a| a.0 <= n) { m.pop_front() } else { None } } { self.stats.borrow_mut().midway += 1; self.act(a.1); }
                }
                Poll::Pending if p.alive.get() => {
                    self.sched.borrow_mut().tasks.get_mut(&id).unwrap().1 = Some(fut);
                    self.consume_all();
                    self.sched.borrow_mut().queue.push_back(id);
                    self.trace.borrow_mut().push(Ev::Yield);
                    self.stats.borrow_mut().yields += 1;
                    return Turn::Yield
                }
                Poll::Pending => { drop(fut); continue }
                Poll::Ready(r) => {
                    drop(fut);
                    p.alive.set(false);
                    *p.barrier.borrow_mut() = None;
                    self.sched.borrow_mut().tasks.remove(&id);
                    self.consume_all();
                    match r {
                        Ok(v) => { self.trace.borrow_mut().push(Ev::Done { ent: p.root.uid, result: msnap1(&v) }); self.stats.borrow_mut().done += 1; return Turn::Done }
                        Err(Stop::Err(e)) => { self.trace.borrow_mut().push(Ev::Fail { ent: p.root.uid, err: e.view() }); self.errors.borrow_mut().push((e, p.root.uid)); self.stats.borrow_mut().fail += 1; return Turn::Fail }
                        Err(_) => return Turn::Fuel,
                    }
                }
            }
        }
    }
    pub fn shutdown(&self) { let t = std::mem::take(&mut *self.sched.borrow_mut()); drop(t); self.watched.borrow_mut().clear(); clear_registry(); }
    pub fn live(&self) -> usize { self.sched.borrow().tasks.len() }
}
