//! Runs one project on the VM and on the reference interpreter under the same schedule of host events, and compares.
use crate::model::{self, MKey, MMsg, MSettings, Stats, Turn, World, PV};
use crate::mval::{self, msnap1, norm_snap, MSnap};
use crate::tape::Rng;
use crate::vm::*;
use netsblox_vm as nb;
use nb::bytecode::*;
use nb::gc::*;
use nb::json::Json;
use nb::process::*;
use nb::project::*;
use nb::runtime::*;
use nb::compact_str::CompactString;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Act {
    Start, Stop, Key(MKey),
    Custom { name: String, args: Vec<(String, Snap)>, interrupt: bool, max_queue: usize },
    Msg { msg_type: String, values: Vec<(String, Snap)>, reply: Option<(String, String)> },
    KeyUp(MKey),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum GcMode { None, Default, EveryTurn, EveryStep, Random(u64) }
/// What the host knows of time: nothing, milliseconds from some start, or date and hour (base in ms since 1970, zone in seconds).
#[derive(Clone, Copy, Debug)]
pub struct HostClock { pub mode: TimeMode, pub base: i64, pub zone: i32 }
impl Default for HostClock { fn default() -> Self { HostClock { mode: TimeMode::Arbitrary, base: 1_600_000_000_000, zone: 0 } } }
#[derive(Clone)]
pub struct Setup {
    pub role: ast::Role,
    pub set: MSettings,
    pub latency: Vec<u32>,
    pub replies: Vec<(u32, Option<Json>)>,
    /// actions by turn number, in order
    pub acts: Vec<(usize, Act)>,
    /// actions between two steps, right after that many calls to the host; no two at the same place
    pub mid: Vec<(usize, Act)>,
    /// milliseconds added to the clock before each turn, cyclically
    pub ticks: Vec<u64>,
    pub clock: HostClock,
    pub max_turns: usize,
    pub fuel: u64,
}
impl Setup {
    pub fn new(role: ast::Role) -> Setup {
        Setup { role, set: MSettings { max_call_depth: 40, soft_rpc: false, soft_sys: false }, latency: vec![0], replies: vec![], acts: vec![(0, Act::Start)], mid: vec![], ticks: vec![10], clock: HostClock::default(), max_turns: 400, fuel: 8_000 }
    }
}
#[derive(Clone, Debug, Default)]
pub struct FailInfo { pub err: Option<Err>, pub ent: u32, pub trace: Vec<(Option<String>, Vec<(String, Snap)>)>, pub summary: Option<ErrorSummary>, pub fields: Vec<(String, String)>, pub globals: Vec<(String, String)>, pub top: Option<Box<mval::TopInfo>> }
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub trace: Vec<Ev>,
    pub finals: Vec<(String, Snap)>,
    pub fails: Vec<FailInfo>,
    pub turns: usize,
    pub idle: bool,
    pub steps: u64,
    pub stats: Stats,
    pub used: u64,
    pub max_alloc: usize,
}
pub const T0: u64 = 1_000_000;

pub const PROPS: &[&str] = &["XPos", "YPos", "Heading", "Visible", "Size", "PenDown", "PenSize", "PenColorH", "PenColorS", "PenColorV", "PenColorT", "Tempo", "Volume", "Balance", "ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"];
pub fn vm_prop(p: &Properties, k: &str) -> Snap {
    let n = |x: Number| Snap::Num(x.get());
    match k {
        "XPos" => n(p.pos.0), "YPos" => n(p.pos.1), "Heading" => n(p.heading), "Visible" => Snap::Bool(p.visible), "Size" => n(p.size), "PenDown" => Snap::Bool(p.pen_down), "PenSize" => n(p.pen_size),
        "PenColorH" => n(p.pen_color_h), "PenColorS" => n(p.pen_color_s), "PenColorV" => n(p.pen_color_v), "PenColorT" => n(p.pen_color_t), "Tempo" => n(p.tempo), "Volume" => n(p.volume), "Balance" => n(p.balance),
        "ColorH" => n(p.effects.color_h), "ColorS" => n(p.effects.color_s), "ColorV" => n(p.effects.color_v), "ColorT" => n(p.effects.color_t), "Fisheye" => n(p.effects.fisheye), "Whirl" => n(p.effects.whirl),
        "Pixelate" => n(p.effects.pixelate), "Mosaic" => n(p.effects.mosaic), "Negative" => n(p.effects.negative), _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- reference
/// The reference run; a run that exceeds its budget is cut off before the turn that does, by lowering `max_turns`.
/// `None`: not even one turn fits, and the case is discarded.
pub fn clipped_model(s: &mut Setup, want_trace: bool) -> Option<Out> {
    match run_model_once(s, want_trace) {
        Ok(_) if mval::WORDING.with(|w| w.get()) => None,
        Ok(o) => Some(o),
        Err(t) => { if t == 0 { return None } s.max_turns = t; run_model_once(s, want_trace).ok().filter(|_| !mval::WORDING.with(|w| w.get())) }
    }
}
/// Without cutting off.
pub fn run_model(s: &Setup) -> Option<Out> { run_model_once(s, false).ok() }
pub fn run_model_once(s: &Setup, want_trace: bool) -> Result<Out, usize> {
    let role: Box<ast::Role> = Box::new(s.role.clone());
    // the interpreter borrows the program for its whole life, which ends before the box is dropped
    let sref: &'static ast::Role = unsafe { &*(&*role as *const ast::Role) };
    mval::set_work(400_000);
    mval::WORDING.with(|w| w.set(false));
    let w = World::new(sref, s.set, s.latency.clone(), s.replies.clone(), T0, s.clock, s.fuel, want_trace);
    w.mid.borrow_mut().extend(s.mid.iter().cloned());
    let mut out = Out::default();
    let mut msgs: VecDeque<MMsg> = VecDeque::new();
    let mut next = 0;
    let mut t = 0;
    let mut dead = false;
    while t < s.max_turns {
        while next < s.acts.len() && s.acts[next].0 <= t {
            match &s.acts[next].1 {
                Act::Start => w.start(), Act::Stop => w.stop_everything(), Act::Key(k) => w.key(k), Act::KeyUp(_) => (),
                Act::Custom { name, args, interrupt, max_queue } => w.custom(name, args, *interrupt, *max_queue),
                Act::Msg { msg_type, values, reply } => msgs.push_back(MMsg { msg_type: msg_type.clone(), values: values.clone(), reply: reply.clone() }),
            }
            next += 1;
        }
        w.now.set(w.now.get() + s.ticks[t % s.ticks.len()]);
        if let Some(m) = msgs.pop_front() { w.inbox.borrow_mut().push_back(m); }
        match w.turn() {
            Turn::Fuel => { dead = true; break }
            Turn::Idle => {
                w.trace.borrow_mut().push(Ev::Mark(format!("idle {t}")));
                if msgs.is_empty() { if next >= s.acts.len() { out.idle = true; break } t = s.acts[next].0; continue }
            }
            _ => (),
        }
        t += 1;
    }
    out.turns = t;
    if !dead {
        let mut cx = MSnap::default();
        let mut f: Vec<(String, Snap)> = vec![];
        let mut gs: Vec<_> = w.globals.borrow().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        gs.sort_by(|a, b| a.0.cmp(&b.0));
        for (k, v) in &gs { f.push((format!("global {k}"), cx.snap(&v.borrow()))); }
        for e in &w.ents {
            let mut fs: Vec<_> = e.fields.borrow().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            fs.sort_by(|a, b| a.0.cmp(&b.0));
            for (k, v) in &fs { f.push((format!("e{} field {k}", e.uid), cx.snap(&v.borrow()))); }
            f.push((format!("e{} costume", e.uid), e.costume.borrow().as_ref().map(|c| cx.snap(&mval::MVal::Img(c.clone()))).unwrap_or(Snap::Text("".into()))));
            for p in PROPS { f.push((format!("e{} {p}", e.uid), match e.props.borrow().get(p) { Some(PV::N(x)) => Snap::Num(*x), Some(PV::B(x)) => Snap::Bool(*x), None => unreachable!() })); }
        }
        f.push(("live scripts".into(), Snap::Num(w.live() as f64)));
        f.push(("timer".into(), Snap::Num(if w.clock.mode == TimeMode::Timeless { 0.0 } else { (w.now.get() - w.timer.get()) as f64 })));
        // watched variables: what each watcher has to show, if its variable is a global or a field of an original
        let watched = w.watched.borrow();
        for (i, (name, _, cell)) in watched.iter().enumerate() {
            let rooted = gs.iter().any(|g| Rc::ptr_eq(&g.1, cell)) || w.ents.iter().any(|e| e.fields.borrow().iter().any(|g| Rc::ptr_eq(&g.1, cell)));
            f.push((format!("{} {i} {name}", if rooted { "watch!" } else { "watch?" }), msnap1(&cell.borrow())));
        }
        drop(watched);
        out.finals = f.into_iter().map(|(k, v)| (k, norm_snap(v))).collect();
        for (e, ent) in w.errors.borrow().iter() {
            let mut tr = e.trace.clone();
            tr.reverse();
            out.fails.push(FailInfo { err: Some(e.view()), ent: *ent, trace: tr, top: e.top.clone(), ..Default::default() });
        }
    }
    if mval::broke() { dead = true; }
    out.trace = std::mem::take(&mut *w.trace.borrow_mut());
    out.stats = w.stats.borrow().clone();
    out.used = w.used.get();
    w.shutdown();
    mval::set_work(i64::MAX);
    drop(w);
    drop(role);
    if dead { Err(out.turns) } else { Ok(out) }
}

// ---------------------------------------------------------------- VM
pub fn keycode(k: &MKey) -> KeyCode { match k { MKey::Any => KeyCode::Char('?'), MKey::Up => KeyCode::Up, MKey::Down => KeyCode::Down, MKey::Left => KeyCode::Left, MKey::Right => KeyCode::Right, MKey::Enter => KeyCode::Enter, MKey::Char(c) => KeyCode::Char(*c) } }
pub fn settings(s: MSettings) -> Settings {
    Settings { max_call_depth: s.max_call_depth, rpc_error_scheme: if s.soft_rpc { ErrorScheme::Soft } else { ErrorScheme::Hard }, syscall_error_scheme: if s.soft_sys { ErrorScheme::Soft } else { ErrorScheme::Hard } }
}
pub fn incoming(msg_type: &str, values: &[(String, Snap)], reply: &Option<(String, String)>) -> IncomingMessage {
    IncomingMessage { msg_type: msg_type.into(), values: values.iter().map(|(k, v)| (CompactString::from(k.as_str()), snap_to_simple(v))).collect(), reply_key: reply.as_ref().map(|(a, b)| InternReplyKey { src_id: a.as_str().into(), request_id: b.as_str().into() }) }
}
pub fn gc_point(arena: &mut EnvArena, r: &mut Rng) {
    match r.next() % 4 { 0 => arena.collect_all(), 1 => { arena.mark_all(); } 2 => arena.collect_debt(), _ => { arena.mark_debt(); } }
}
#[derive(Clone)]
pub struct VmOpts { pub gc: GcMode, pub budget: u64, pub want_trace: bool, /** host answers do not depend on how many calls came before */ pub plain_seq: bool }
impl Default for VmOpts { fn default() -> Self { VmOpts { gc: GcMode::None, budget: 5_000_000, want_trace: false, plain_seq: false } } }

pub fn compile(role: &ast::Role) -> Result<(ByteCode, InitInfo, Locations), String> {
    let (a, b, c, _) = ByteCode::compile(role).map_err(|e| format!("program does not compile: {e:?}"))?;
    Ok((a, b, c))
}
fn mark(st: &Rc<Sys>, e: Ev) { st.st.borrow_mut().trace.push(e); }

/// Runs the project; an error is a violation by itself (panic, endless turn, compile failure).
pub fn run_vm(s: &Setup, o: &VmOpts) -> Result<Out, String> {
    let (code, init, locs) = compile(&s.role)?;
    let set = settings(s.set);
    run_vm_code(s, o, Rc::new(code), &init, &locs, set)
}
pub fn run_vm_code(s: &Setup, o: &VmOpts, code: Rc<ByteCode>, init: &InitInfo, locs: &Locations, set: Settings) -> Result<Out, String> {
    reset_ids();
    let mut r = VmRun::new(s, o, code, init, set);
    while r.turn(s, o, locs)? { }
    r.idle_probe()?;
    Ok(r.finish())
}
/// One project on its way through the history of its setup.
pub struct VmRun {
    pub sys: Rc<Sys>,
    pub arena: EnvArena,
    pub out: Out,
    msgs: VecDeque<IncomingMessage>,
    r: Rng,
    next: usize,
    next_mid: usize,
    pub t: usize,
}
pub fn give_input<'gc>(p: &mut Project<'gc, C, Sys>, mc: &Mutation<'gc>, a: &Act) {
    match a {
        Act::Start => p.input(mc, Input::Start), Act::Stop => p.input(mc, Input::Stop), Act::Key(k) => p.input(mc, Input::KeyDown { key: keycode(k) }), Act::KeyUp(k) => p.input(mc, Input::KeyUp { key: keycode(k) }),
        Act::Custom { name, args, interrupt, max_queue } => p.input(mc, Input::CustomEvent { name: name.as_str().into(), args: args.iter().map(|(k, v)| (CompactString::from(k.as_str()), snap_to_simple(v))).collect(), interrupt: *interrupt, max_queue: *max_queue }),
        Act::Msg { .. } => unreachable!(),
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum End { Idle, Other, More }
/// The error summary, unless it would print values that share so much that their text has no bounds.
pub fn summary_of<'gc>(error: &ExecError<C, Sys>, proc: &Proc<'gc>, gcx: Gc<'gc, RefLock<GlobalContext<'gc, C, Sys>>>, locs: &Locations) -> Option<ErrorSummary> {
    let mut left = 20_000;
    let gcx = gcx.borrow();
    let top = proc.get_call_stack().last().unwrap().entity.borrow();
    let small = gcx.globals.iter().chain(top.fields.iter()).chain(proc.get_call_stack().iter().flat_map(|f| f.locals.iter())).all(|(_, v)| printable(&v.get(), &mut left, &mut vec![]));
    if small { Some(ErrorSummary::extract(error, proc, locs)) } else { None }
}
impl VmRun {
    pub fn host(s: &Setup, o: &VmOpts) -> Rc<Sys> {
        let sys = Rc::new(Sys::new(1));
        { let mut st = sys.st.borrow_mut(); st.now = T0; st.latency = s.latency.clone(); st.replies = s.replies.clone(); st.time_mode = s.clock.mode; st.utc_base_ms = s.clock.base; st.offset_s = s.clock.zone; if o.plain_seq { st.overrides.answer = Some(Box::new(|k, n, a, _| Some(host_answer(k, n, a, 0)))); } }
        sys
    }
    pub fn new(s: &Setup, o: &VmOpts, code: Rc<ByteCode>, init: &InitInfo, set: Settings) -> VmRun {
        let sys = Self::host(s, o);
        let mut arena = EnvArena::new(|_| unsafe { std::mem::transmute(empty_env()) });
        arena.mutate_root(|mc, root| { root.proj = Some(Gc::new(mc, RefLock::new(Project::from_init(mc, init, code, set, sys.clone())))); });
        VmRun { sys, arena, out: Out::default(), msgs: VecDeque::new(), r: Rng::new(match o.gc { GcMode::Random(x) => x, _ => 0 }), next: 0, next_mid: 0, t: 0 }
    }
    /// One step of the project, recorded in the trace.
    pub fn step_once<'gc>(mc: &Mutation<'gc>, root: &mut Env<'gc>, sys: &Rc<Sys>, out: &mut Out, t: usize, want_trace: bool, locs: &Locations) -> Result<End, String> {
        let step = root.proj.unwrap().borrow_mut(mc).step(mc);
        match step {
            ProjectStep::Idle => { mark(sys, Ev::Mark(format!("idle {t}"))); return Ok(End::Idle) }
            ProjectStep::Normal => (),
            ProjectStep::Yield => { mark(sys, Ev::Yield); return Ok(End::Other) }
            ProjectStep::Pause => mark(sys, Ev::Pause),
            ProjectStep::Watcher { create, watcher } => {
                let e = watcher.entity.upgrade(mc).map(|e| e.borrow().state.uid);
                let v = watcher.value.upgrade(mc).map(|v| snap1(&v.borrow()));
                mark(sys, Ev::Watch { create, ent: e, name: watcher.name.to_string(), value: v });
                root.watchers.push(WatchEnt { entity: watcher.entity, name: watcher.name.clone(), value: watcher.value });
            }
            ProjectStep::ProcessTerminated { result, proc } => {
                let ent = proc.get_call_stack().first().unwrap().entity.borrow().state.uid;
                if proc.is_running() { return Err("a finished script still claims to run".into()) }
                mark(sys, Ev::Done { ent, result: snap1(&result) });
                return Ok(End::Other)
            }
            ProjectStep::Error { error, proc } => {
                let ent = proc.get_call_stack().first().unwrap().entity.borrow().state.uid;
                if proc.is_running() { return Err("a failed script still claims to run".into()) }
                let err = Err::of(&error.cause);
                mark(sys, Ev::Fail { ent, err: err.clone() });
                let Some(summary) = summary_of(&error, &proc, root.proj.unwrap().borrow().get_global_context(), locs) else { out.fails.push(FailInfo { err: Some(err), ent, ..Default::default() }); return Ok(End::Other) };
                let trace: Vec<(Option<String>, Vec<(String, Snap)>)> = proc.get_call_stack().iter().map(|f| (None, f.locals.iter().map(|(k, v)| (k.to_string(), snap1(&v.get()))).collect())).collect();
                let (mut fields, mut globals) = (vec![], vec![]);
                if want_trace {
                    let top = proc.get_call_stack().last().unwrap().entity;
                    fields = top.borrow().fields.iter().map(|(k, v)| (k.to_string(), format!("{:?}", &*v.get()))).collect();
                    let gc = root.proj.unwrap().borrow().get_global_context();
                    globals = gc.borrow().globals.iter().map(|(k, v)| (k.to_string(), format!("{:?}", &*v.get()))).collect();
                }
                out.fails.push(FailInfo { err: Some(err), ent, trace, summary: Some(summary), fields, globals, top: None });
                return Ok(End::Other)
            }
        }
        Ok(End::More)
    }
    /// One turn; false when the history is over.
    pub fn turn(&mut self, s: &Setup, o: &VmOpts, locs: &Locations) -> Result<bool, String> {
        if self.t >= s.max_turns { return Ok(false) }
        let t = self.t;
        while self.next < s.acts.len() && s.acts[self.next].0 <= t {
            let a = &s.acts[self.next].1;
            if let Act::Msg { msg_type, values, reply } = a { self.msgs.push_back(incoming(msg_type, values, reply)); }
            else { self.arena.mutate(|mc, root| give_input(&mut root.proj.unwrap().borrow_mut(mc), mc, a)) }
            self.next += 1;
        }
        { let mut st = self.sys.st.borrow_mut(); st.now += s.ticks[t % s.ticks.len()]; if let Some(m) = self.msgs.pop_front() { st.inbox.push_back(m); } }
        let mut end;
        loop {
            let slice = match o.gc { GcMode::EveryStep => 1, GcMode::Random(_) => 1 + self.r.next() % 40, _ => u64::MAX };
            let (sys, out, next_mid) = (&self.sys, &mut self.out, &mut self.next_mid);
            let res: Result<End, String> = self.arena.mutate_root(|mc, root| {
                let mut n = 0;
                while n < slice {
                    n += 1;
                    out.steps += 1;
                    if out.steps > o.budget { return Err(TOO_LONG.into()) }
                    let e = Self::step_once(mc, root, sys, out, t, o.want_trace, locs)?;
                    if e != End::More { return Ok(e) }
                    while let Some((at, a)) = s.mid.get(*next_mid) && *at <= sys.st.borrow().issued {
                        *next_mid += 1;
                        if let Act::Msg { msg_type, values, reply } = a { sys.st.borrow_mut().inbox.push_back(incoming(msg_type, values, reply)); }
                        else { give_input(&mut root.proj.unwrap().borrow_mut(mc), mc, a); }
                    }
                }
                Ok(End::More)
            });
            end = res?;
            match o.gc { GcMode::EveryStep => self.arena.collect_all(), GcMode::Random(_) => gc_point(&mut self.arena, &mut self.r), _ => () }
            if end != End::More { break }
        }
        match o.gc { GcMode::EveryTurn => self.arena.collect_all(), GcMode::Default => self.arena.collect_debt(), _ => () }
        self.out.max_alloc = self.out.max_alloc.max(self.arena.metrics().total_gc_allocation());
        if end == End::Idle && self.msgs.is_empty() {
            if self.next >= s.acts.len() { self.out.idle = true; self.out.turns = self.t; return Ok(false) }
            self.t = s.acts[self.next].0; self.out.turns = self.t;
            return Ok(true)
        }
        self.t += 1;
        self.out.turns = self.t;
        Ok(true)
    }
    /// An idle project stays idle, whatever the clock says, until the next input.
    pub fn idle_probe(&mut self) -> Result<(), String> {
        if !self.out.idle { return Ok(()) }
        let was = self.sys.st.borrow().now;
        let n = self.sys.st.borrow().trace.len();
        for k in 0..4u64 {
            self.sys.st.borrow_mut().now += k * 100_000;
            let step = self.arena.mutate(|mc, root| { let p = root.proj.unwrap(); let r = matches!(p.borrow_mut(mc).step(mc), ProjectStep::Idle); r });
            if !step || self.sys.st.borrow().trace.len() != n { return Err("the project reported idle, but went on without any further input".into()) }
        }
        self.sys.st.borrow_mut().now = was;
        Ok(())
    }
    pub fn finish(mut self) -> Out {
        let sys = self.sys.clone();
        let mut out = std::mem::take(&mut self.out);
        out.finals = self.arena.mutate(|mc, root| {
            let mut cx = SnapCtx::default();
            let mut f = vec![];
            let p = root.proj.unwrap().borrow();
            let now = { let st = sys.st.borrow(); match st.time_mode { TimeMode::Timeless => 0, TimeMode::Arbitrary => st.now, TimeMode::Real => (st.utc_base_ms + st.now as i64) as u64 } };
            state_of(&p, &mut cx, &mut f, now);
            for (i, w) in root.watchers.iter().enumerate() { f.push((format!("watch {i} {}", w.name), w.value.upgrade(mc).map(|v| snap1(&v.borrow())).unwrap_or(Snap::Text("<gone>".into())))); }
            f.into_iter().map(|(k, v)| (k, norm_snap(v))).collect()
        });
        out.trace = std::mem::take(&mut sys.st.borrow_mut().trace);
        out
    }
}
pub const TOO_LONG: &str = "a turn of the VM does not come to an end although the reference does";
/// Everything a project holds, as named pictures.
pub fn state_of<'gc>(p: &Project<'gc, C, Sys>, cx: &mut SnapCtx, f: &mut Vec<(String, Snap)>, now: u64) {
    let gc = p.get_global_context();
    let gc = gc.borrow();
    let mut gs: Vec<_> = gc.globals.iter().map(|(k, v)| (k.to_string(), v)).collect();
    gs.sort_by(|a, b| a.0.cmp(&b.0));
    for (k, v) in gs { f.push((format!("global {k}"), cx.snap(&v.get()))); }
    for e in gc.entities.iter() {
        let e = e.1.borrow();
        let uid = e.state.uid;
        let mut fs: Vec<_> = e.fields.iter().map(|(k, v)| (k.to_string(), v)).collect();
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        for (k, v) in fs { f.push((format!("e{uid} field {k}"), cx.snap(&v.get()))); }
        f.push((format!("e{uid} costume"), e.costume.as_ref().map(|c| cx.snap(&Value::Image(c.clone()))).unwrap_or(Snap::Text("".into()))));
        for p in PROPS { f.push((format!("e{uid} {p}"), vm_prop(&e.state.props, p))); }
    }
    // how many scripts are left running is not visible from outside
    f.push(("live scripts".into(), Snap::Text("?".into())));
    f.push(("timer".into(), Snap::Num(now as f64 - gc.timer_start as f64)));
}
fn norm_ev(e: &Ev) -> Ev {
    let ns = |v: &Vec<Snap>| v.iter().cloned().map(norm_snap).collect();
    match e {
        Ev::Print { ent, style, value } => Ev::Print { ent: *ent, style, value: value.clone().map(norm_snap) },
        Ev::Request { ent, name, args } => Ev::Request { ent: *ent, name: name.clone(), args: ns(args) },
        Ev::Command { ent, name, args } => Ev::Command { ent: *ent, name: name.clone(), args: ns(args) },
        Ev::Done { ent, result } => Ev::Done { ent: *ent, result: norm_snap(result.clone()) },
        Ev::Watch { create, ent, name, value } => Ev::Watch { create: *create, ent: *ent, name: name.clone(), value: value.clone().map(norm_snap) },
        Ev::Send { msg, values, targets, wait } => Ev::Send { msg: msg.clone(), values: values.iter().map(|x| (x.0.clone(), norm_snap(x.1.clone()))).collect(), targets: targets.clone(), wait: *wait },
        Ev::Reply { src, req, value } => Ev::Reply { src: src.clone(), req: req.clone(), value: norm_snap(value.clone()) },
        e => e.clone(),
    }
}
pub fn diff_trace(a: &[Ev], b: &[Ev], an: &str, bn: &str) -> Result<(), String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map(norm_ev), b.get(i).map(norm_ev));
        if x != y {
            let from = i.saturating_sub(6);
            let show = |t: &[Ev]| t[from.min(t.len())..(i + 4).min(t.len())].iter().enumerate().map(|(k, e)| format!("   {} {e}\n", if from + k == i { ">" } else { " " })).collect::<String>();
            return Err(format!("event {i} differs:\n  {an}: {}\n  {bn}: {}\n  {an} around:\n{}  {bn} around:\n{}", x.map(|e| e.to_string()).unwrap_or("<end>".into()), y.map(|e| e.to_string()).unwrap_or("<end>".into()), show(a), show(b)));
        }
    }
    Ok(())
}
pub fn diff_finals(m: &[(String, Snap)], v: &[(String, Snap)]) -> Result<(), String> {
    if m.len() != v.len() { return Err(format!("final state has {} entries, expected {}", v.len(), m.len())) }
    for ((k, a), (l, b)) in m.iter().zip(v) {
        if k == "live scripts" { continue }
        if k.starts_with("watch") {
            if *b == Snap::Text("<gone>".into()) && k.starts_with("watch?") { continue }
        } else if k != l { return Err(format!("final state entry {l} where {k} was expected")) }
        if let (true, Snap::Num(x), Snap::Num(y)) = (k.contains(" PenColor"), a, b) { if (x - y).abs() < 1e-3 { continue } }
        if a != b { return Err(format!("final state: {k} is {b}, expected {a}")) }
    }
    Ok(())
}
pub fn diff(m: &Out, v: &Out) -> Result<(), String> {
    diff_trace(&m.trace, &v.trace, "expected", "vm")?;
    diff_finals(&m.finals, &v.finals)?;
    if m.idle != v.idle || m.turns != v.turns { return Err(format!("ended after {} turns idle={}, expected {} turns idle={}", v.turns, v.idle, m.turns, m.idle)) }
    Ok(())
}
/// Model vs VM. `Ok(None)` when the case was discarded.
pub fn differential(s: &Setup) -> Result<Option<(Out, Out)>, String> { differential_with(s, &VmOpts::default()) }
pub fn differential_with(s: &Setup, o: &VmOpts) -> Result<Option<(Out, Out)>, String> {
    let mut s = s.clone();
    let m = match clipped_model(&mut s, o.want_trace) { Some(m) => m, None => return Ok(None) };
    let s = &s;
    let mut o = o.clone();
    o.budget = m.used * 400 + 20_000;
    let v = run_vm(s, &o)?;
    diff(&m, &v)?;
    Ok(Some((m, v)))
}
