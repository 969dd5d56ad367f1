//! A small deterministic host for the demonstrations, and builders for programs.
#![allow(dead_code)]
use netsblox_vm as nb;
pub use nb::ast;
use ast::*;
use nb::bytecode::{ByteCode, InitInfo, Locations};
use nb::compact_str::*;
use nb::gc::*;
pub use nb::json::{json, Json};
use nb::process::*;
use nb::project::{Input, Project, ProjectStep};
use nb::real_time::OffsetDateTime;
use nb::runtime::*;
use nb::runtime::{ErrorCause, Key};
use ast::{Entity};
use nb::vecmap::VecMap;
use rand::distr::uniform::{SampleRange, SampleUniform};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub type ExprK = ast::ExprKind;
pub type StmtK = ast::StmtKind;

// ------------------------------------------------------------ program builders
pub fn ex(kind: ExprKind) -> Expr { Expr { kind, info: BlockInfo::none() } }
pub fn bx(e: Expr) -> Box<Expr> { Box::new(e) }
pub fn st(kind: StmtKind) -> Stmt { Stmt { kind, info: BlockInfo::none() } }
pub fn at(mut s: Stmt, l: &str) -> Stmt { s.info = Box::new(BlockInfo { comment: None, location: Some(l.into()) }.into()); s }
pub fn num(x: f64) -> Expr { ex(ExprKind::Value(ast::Value::Number(x))) }
pub fn txt(x: &str) -> Expr { ex(ExprKind::Value(ast::Value::String(x.into()))) }
pub fn boolean(x: bool) -> Expr { ex(ExprKind::Value(ast::Value::Bool(x))) }
pub fn vref(x: &str) -> VariableRef { VariableRef { name: x.into(), trans_name: x.into(), location: VarLocation::Local } }
pub fn vdef(x: &str) -> VariableDef { VariableDef { name: x.into(), trans_name: x.into() } }
pub fn var(x: &str) -> Expr { ex(ExprKind::Variable { var: vref(x) }) }
pub fn list(xs: Vec<Expr>) -> Expr { ex(ExprKind::MakeList { values: xs }) }
pub fn assign(x: &str, e: Expr) -> Stmt { st(StmtKind::Assign { var: vref(x), value: bx(e) }) }
pub fn declare(xs: &[&str]) -> Stmt { st(StmtKind::DeclareLocals { vars: xs.iter().map(|x| vdef(x)).collect() }) }
pub fn log(args: Vec<Expr>) -> Stmt { st(StmtKind::UnknownBlock { name: "log".into(), args }) }
pub fn ret(e: Expr) -> Stmt { st(StmtKind::Return { value: bx(e) }) }
pub fn add(a: Expr, b: Expr) -> Expr { ex(ExprKind::Add { values: bx(list(vec![a, b])) }) }
pub fn repeat(n: Expr, stmts: Vec<Stmt>) -> Stmt { st(StmtKind::Repeat { times: bx(n), stmts }) }
pub fn wait(s: f64) -> Stmt { st(StmtKind::Sleep { seconds: bx(num(s)) }) }
pub fn try_catch(code: Vec<Stmt>, v: &str, handler: Vec<Stmt>) -> Stmt { st(StmtKind::TryCatch { code, var: vref(v), handler }) }
pub fn init(x: &str, v: ast::Value) -> VariableDefInit { VariableDefInit { def: vdef(x), init: v } }
pub fn fnref(x: &str) -> FnRef { FnRef { name: x.into(), trans_name: x.into(), location: FnLocation::Global } }
pub fn call(f: &str, args: Vec<Expr>) -> Expr { ex(ExprKind::CallFn { function: fnref(f), args, upvars: vec![] }) }
pub fn ring(params: &[&str], captures: &[&str], stmts: Vec<Stmt>) -> Expr { ex(ExprKind::Closure { kind: ClosureKind::Reporter, params: params.iter().map(|x| vdef(x)).collect(), captures: captures.iter().map(|x| vref(x)).collect(), stmts }) }
pub fn func(name: &str, params: &[&str], stmts: Vec<Stmt>) -> Function { Function { name: name.into(), trans_name: name.into(), params: params.iter().map(|x| vdef(x)).collect(), upvars: vec![], returns: true, stmts } }
pub fn script(kind: HatKind, stmts: Vec<Stmt>) -> Script { Script { hat: Some(Box::new(Hat { kind, info: BlockInfo::none() })), stmts } }
pub fn entity(name: &str, scripts: Vec<Script>) -> Entity { Entity { name: name.into(), trans_name: name.into(), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts, active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 } }
pub fn role(entities: Vec<Entity>) -> Role { Role { name: "role".into(), notes: "".into(), stage_size: (480, 360), globals: vec![], funcs: vec![], entities } }
pub fn flag(stmts: Vec<Stmt>) -> Role { role(vec![entity("Stage", vec![script(HatKind::OnFlag, stmts)])]) }
pub fn broadcast(m: &str, wait: bool) -> Stmt { st(StmtKind::SendLocalMessage { target: None, msg_type: bx(txt(m)), wait }) }
pub fn receive(m: &str, stmts: Vec<Stmt>) -> Script { script(HatKind::LocalMessage { msg_type: Some(m.into()) }, stmts) }

// ------------------------------------------------------------ the host
pub struct EState { pub id: u32, pub props: Properties }
thread_local! { static ENTS: Cell<u32> = const { Cell::new(0) }; }
fn next() -> u32 { ENTS.with(|x| { let v = x.get(); x.set(v + 1); v }) }
impl From<nb::runtime::EntityKind<'_, '_, C, Sys>> for EState {
    fn from(k: nb::runtime::EntityKind<'_, '_, C, Sys>) -> Self {
        EState { id: next(), props: match k { nb::runtime::EntityKind::Stage { props } | nb::runtime::EntityKind::Sprite { props } => props, nb::runtime::EntityKind::Clone { parent } => parent.state.props } }
    }
}
pub struct PState(pub Vec<u32>, /** the sprite whose script set this one off */ pub Option<String>);
impl From<ProcessKind<'_, '_, C, Sys>> for PState { fn from(k: ProcessKind<'_, '_, C, Sys>) -> Self { PState(vec![], k.dispatcher.map(|d| format!("{}*{}", d.get_call_stack()[0].entity.borrow().name, d.state.0.len()))) } }
impl Unwindable for PState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.0.len() }
    fn unwind_to(&mut self, p: &usize) { self.0.truncate(*p); }
}
#[derive(Debug)]
pub struct Nat;
impl GetType for Nat { type Output = NatT; fn get_type(&self) -> NatT { NatT } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct NatT;
impl From<NatT> for nb::runtime::Type<C, Sys> { fn from(t: NatT) -> Self { nb::runtime::Type::Native(t) } }
pub struct C;
impl CustomTypes<Sys> for C {
    type NativeValue = Nat;
    type Intermediate = SimpleValue;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> nb::runtime::Value<'gc, C, Sys> { nb::runtime::Value::from_simple(mc, v) }
}
pub struct ReqKey(Rc<RefCell<AsyncResult<Result<SimpleValue, CompactString>>>>, Cell<u32>);
impl Key<Result<SimpleValue, CompactString>> for ReqKey { fn complete(self, v: Result<SimpleValue, CompactString>) { assert!(self.0.borrow_mut().complete(v).is_ok()) } }
pub struct CmdKey(Rc<RefCell<AsyncResult<Result<(), CompactString>>>>, Cell<u32>);
impl Key<Result<(), CompactString>> for CmdKey { fn complete(self, v: Result<(), CompactString>) { assert!(self.0.borrow_mut().complete(v).is_ok()) } }

pub fn show<'gc>(v: &nb::runtime::Value<'gc, C, Sys>) -> String {
    use nb::runtime::Value as V;
    match v {
        V::Bool(x) => x.to_string(), V::Number(x) => x.to_string(), V::Text(x) => format!("{:?}", x.as_str()),
        V::List(x) => format!("[{}]", x.borrow().iter().map(show).collect::<Vec<_>>().join(" ")),
        V::Entity(x) => format!("<{}#{}>", x.borrow().name, x.borrow().state.id),
        V::Closure(_) => "<ring>".into(), V::Image(x) => format!("<image {}>", x.name), V::Audio(x) => format!("<sound {}>", x.name), V::Native(_) => "<native>".into(),
    }
}
pub struct Sys { pub log: RefCell<Vec<String>>, pub now: Cell<u64>, pub slow: Cell<u32>, pub inbox: RefCell<VecDeque<IncomingMessage>>, pub replies: RefCell<BTreeMap<String, Json>>, pub seed: Cell<u64>, pub fail: Cell<bool> }
impl Sys {
    fn say(&self, s: String) { self.log.borrow_mut().push(s) }
}
struct Lcg<'a>(&'a Cell<u64>);
impl rand::RngCore for Lcg<'_> {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.0.get().wrapping_add(0x9E3779B97F4A7C15); self.0.set(x); let mut z = x; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
}
type Cause = ErrorCause<C, Sys>;
impl System<C> for Sys {
    type RequestKey = ReqKey;
    type CommandKey = CmdKey;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { use rand::Rng; Lcg(&self.seed).random_range(range) }
    fn time(&self, _: Precision) -> SysTime { let _ = OffsetDateTime::UNIX_EPOCH; SysTime::Arbitrary { ms: self.now.get() } }
    fn perform_request<'gc>(&self, _: &Mutation<'gc>, r: Request<'gc, C, Self>, p: &mut Process<'gc, C, Self>) -> Result<ReqKey, Cause> {
        let e = p.get_call_stack().last().unwrap().entity;
        let key = |v| Ok(ReqKey(Rc::new(RefCell::new(AsyncResult::Completed(v))), Cell::new(self.slow.get())));
        let all = |a: &[nb::runtime::Value<'gc, C, Sys>]| a.iter().map(show).collect::<Vec<_>>().join(" ");
        match r {
            Request::Property { prop } => {
                let k = ReqKey(Rc::new(RefCell::new(AsyncResult::new())), Cell::new(self.slow.get()));
                let h = ReqKey(k.0.clone(), Cell::new(0));
                e.borrow().state.props.perform_get_property::<C, Sys>(h, prop);
                Ok(k)
            }
            Request::Input { prompt } => { let q = prompt.as_ref().map(show).unwrap_or_default(); self.say(format!("ask {q}")); if q.contains("refuse") { key(Err("refused".into())) } else { key(Ok(SimpleValue::Text("answer".into()))) } }
            Request::Syscall { name, args } => {
                self.say(format!("syscall {name} {}", all(&args)));
                match name.as_str() { "fail" => key(Err("refused".into())), "hard" => Err(ErrorCause::Custom { msg: "refused at once".into() }), "push" => { p.state.0.push(0); key(Ok(SimpleValue::Bool(true))) } "from" => { let t = p.state.1.clone().unwrap_or_default(); key(Ok(SimpleValue::Text(t.into()))) } "depth" => { let n = p.state.0.len(); key(Ok(SimpleValue::Number(nb::runtime::Number::new(n as f64).unwrap()))) } _ => key(Ok(SimpleValue::Text("ok".into()))) }
            }
            Request::Rpc { service, rpc, args, .. } => { self.say(format!("rpc {service}.{rpc} {}", args.as_slice().iter().map(|x| format!("{}={}", x.key, show(&x.value))).collect::<Vec<_>>().join(" "))); if rpc == "fail" { key(Err("refused".into())) } else { key(Ok(SimpleValue::Text("result".into()))) } }
            Request::UnknownBlock { name, args } => { if name == "log" { self.say(all(&args)); } else { self.say(format!("{name} {}", all(&args))); } key(Ok(SimpleValue::Text("".into()))) }
        }
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, k: &ReqKey, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<nb::runtime::Value<'gc, C, Self>, CompactString>>, Cause> {
        if k.1.get() > 0 { k.1.set(k.1.get() - 1); return Ok(AsyncResult::Pending) }
        Ok(match k.0.borrow_mut().poll() { AsyncResult::Completed(x) => AsyncResult::Completed(x.map(|x| C::from_intermediate(mc, x))), AsyncResult::Pending => AsyncResult::Pending, AsyncResult::Consumed => AsyncResult::Consumed })
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, c: Command<'gc, '_, C, Self>, p: &mut Process<'gc, C, Self>) -> Result<CmdKey, Cause> {
        let e = p.get_call_stack().last().unwrap().entity;
        let k = CmdKey(Rc::new(RefCell::new(AsyncResult::new())), Cell::new(self.slow.get()));
        let h = CmdKey(k.0.clone(), Cell::new(0));
        match c {
            Command::Print { style, value } => { self.say(format!("{style:?} {}", value.as_ref().map(show).unwrap_or_default())); h.complete(Ok(())); }
            Command::SetProperty { prop, value } => { e.borrow_mut(mc).state.props.perform_set_property::<C, Sys>(h, prop, value); }
            Command::ChangeProperty { prop, delta } => { e.borrow_mut(mc).state.props.perform_change_property::<C, Sys>(h, prop, delta); }
            Command::ClearEffects => { e.borrow_mut(mc).state.props.perform_clear_effects::<C, Sys>(h); }
            Command::SetCostume => { self.say(format!("costume {}", e.borrow().costume.as_ref().map(|c| c.name.to_string()).unwrap_or("none".into()))); h.complete(Ok(())); }
            Command::PlayNotes { notes, beats, blocking } => { self.say(format!("notes {:?} {} {blocking}", notes.iter().map(|n| n.get_midi().0).collect::<Vec<_>>(), beats)); h.complete(Ok(())); }
            Command::PlaySound { sound, blocking } => { self.say(format!("sound {} {blocking}", sound.name)); h.complete(Ok(())); }
            Command::GotoXY { x, y } => { e.borrow_mut(mc).state.props.perform_goto_xy::<C, Sys>(h, x, y); }
            Command::PointTowardsXY { x, y } => { e.borrow_mut(mc).state.props.perform_point_towards_xy::<C, Sys>(h, x, y); }
            Command::Forward { distance } => { e.borrow_mut(mc).state.props.perform_forward::<C, Sys>(h, distance); }
            Command::ClearDrawings => { self.say("clear".into()); h.complete(Ok(())); }
            Command::StopSounds => { self.say("stop sounds".into()); h.complete(Ok(())); }
            Command::GotoEntity { .. } | Command::PointTowardsEntity { .. } => { h.complete(Ok(())); }
        }
        Ok(k)
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, k: &CmdKey, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, Cause> {
        if k.1.get() > 0 { k.1.set(k.1.get() - 1); return Ok(AsyncResult::Pending) }
        Ok(k.0.borrow_mut().poll())
    }
    fn send_message(&self, m: CompactString, v: VecMap<CompactString, Json, false>, t: Vec<CompactString>, reply: bool) -> Result<Option<ExternReplyKey>, Cause> {
        self.say(format!("send {m} {} to {t:?} {reply}", v.as_slice().iter().map(|e| format!("{}={}", e.key, e.value)).collect::<Vec<_>>().join(" ")));
        Ok(if reply { Some(ExternReplyKey { request_id: m }) } else { None })
    }
    fn poll_reply(&self, k: &ExternReplyKey) -> AsyncResult<Option<Json>> { match self.replies.borrow_mut().remove(k.request_id.as_str()) { Some(v) => AsyncResult::Completed(Some(v)), None => AsyncResult::Pending } }
    fn send_reply(&self, k: InternReplyKey, v: Json) -> Result<(), Cause> { self.say(format!("reply {} {} {v}", k.src_id, k.request_id)); Ok(()) }
    fn receive_message(&self) -> Option<IncomingMessage> { self.inbox.borrow_mut().pop_front() }
}

// ------------------------------------------------------------ running
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, C, Sys>>> }
pub struct Run { pub arena: Arena<Rootable![Env<'_>]>, pub sys: Rc<Sys>, pub locs: Locations }
pub fn load(role: &Role, set: Settings) -> Run {
    let (code, initi, locs, _) = ByteCode::compile(role).unwrap();
    load_code(Rc::new(code), initi, locs, set)
}
pub fn load_code(code: Rc<ByteCode>, initi: InitInfo, locs: Locations, set: Settings) -> Run {
    ENTS.with(|x| x.set(0));
    let sys = Rc::new(Sys { log: Default::default(), now: Cell::new(1000), slow: Cell::new(0), inbox: Default::default(), replies: Default::default(), seed: Cell::new(7), fail: Cell::new(false) });
    let s = sys.clone();
    Run { arena: Arena::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &initi, code, set, s))) }), sys, locs }
}
impl Run {
    pub fn input<'a>(&mut self, f: impl FnOnce() -> Input) { self.arena.mutate(|mc, e| e.proj.borrow_mut(mc).input(mc, f())) }
    /// Steps until the project is idle, or the given number of turns (yields) is over; true = idle.
    pub fn turns(&mut self, n: usize) -> bool {
        let mut t = 0;
        for _ in 0..2_000_000 {
            let (sys, locs) = (self.sys.clone(), &self.locs);
            let r = self.arena.mutate(|mc, e| {
                let s = e.proj.borrow_mut(mc).step(mc);
                match s {
                    ProjectStep::Idle => 2, ProjectStep::Yield => { sys.now.set(sys.now.get() + 10); 1 }
                    ProjectStep::Error { error, proc } => { let x = ErrorSummary::extract(&error, &proc, locs); sys.say(format!("error {} at {:?}", x.cause, x.trace.iter().map(|t| t.location.to_string()).collect::<Vec<_>>())); 1 }
                    ProjectStep::ProcessTerminated { .. } => 1,
                    _ => 0,
                }
            });
            if r == 2 { return true }
            t += r;
            if t >= n { return false }
        }
        panic!("a turn does not end");
    }
    pub fn start(&mut self) { self.input(|| Input::Start) }
    pub fn log(&self) -> Vec<String> { self.sys.log.borrow().clone() }
    pub fn message(&mut self, msg: &str, values: &[(&str, SimpleValue)], reply: Option<(&str, &str)>) {
        self.sys.inbox.borrow_mut().push_back(IncomingMessage { msg_type: msg.into(), values: values.iter().map(|x| (x.0.into(), x.1.clone())).collect(), reply_key: reply.map(|x| InternReplyKey { src_id: x.0.into(), request_id: x.1.into() }) });
    }
}
/// What a project logs after its flag is clicked.
pub fn logs(role: &Role) -> Vec<String> { let mut r = load(role, Settings::default()); r.start(); r.turns(5000); r.log() }
pub fn expect(what: &str, got: &[String], want: &[&str]) {
    if got != want { eprintln!("{what}:\n got  {got:?}\n want {want:?}"); std::process::exit(1) }
}
