//! Properties decided by running generated projects on the VM and on the reference interpreter.
use crate::drive::*;
use crate::gprog::*;
use crate::runner::*;
use crate::tape::Gen;
use K::*;

pub fn run_diff(g: &mut Gen, cx: &mut Ctx, p: &Prof, nt: fn(&Out) -> bool) -> CheckResult {
    let s = project(g, p);
    run_setup(cx, &s, nt)
}
pub fn run_setup(cx: &mut Ctx, s: &Setup, nt: fn(&Out) -> bool) -> CheckResult {
    cx.sample(|| show(s));
    match differential(s)? {
        None => { cx.label("discarded (budget)"); Ok(()) }
        Some((m, _)) => {
            cx.nt_if(nt(&m));
            cx.label_if(m.idle, "ran to idle");
            cx.label_if(!m.fails.is_empty(), "with errors");
            if std::env::var("NBV_ERRS").is_ok() { for f in &m.fails { if let Some(e) = &f.err { eprintln!("ERR {} {}", e.kind, e.msg.clone().unwrap_or_default().chars().take(60).collect::<String>()); } } }
            if cx.verbose { for f in &m.fails { eprintln!("  fails with {:?}", f.err); } }
            let s = &m.stats;
            for (n, x) in [("calls", s.calls), ("rings", s.rings), ("caught", s.caught), ("clones", s.clones), ("broadcast runs", s.received), ("waits", s.waits), ("requests", s.requests), ("kills", s.kills), ("netmsgs", s.netmsgs), ("queued", s.queued), ("warps", s.warps), ("forks", s.forks), ("watchers", s.watch)] { cx.label_if(x > 0, n); }
            Ok(())
        }
    }
}
const FLAGKEY: &[(HK, usize)] = &[(HK::Flag, 8), (HK::Key, 2), (HK::Event, 3)];
const ALLHATS: &[(HK, usize)] = &[(HK::Flag, 10), (HK::Key, 2), (HK::Event, 3), (HK::Message, 4), (HK::AnyMessage, 1), (HK::Clone, 2), (HK::Net, 2), (HK::None, 1)];

/// Rings and higher-order blocks.
pub const RINGS: Prof = Prof {
    stmts: &[(Keep, 5), (Obs, 10), (Assign, 6), (AddAssign, 5), (RingDef, 9), (CallRing, 8), (ListMut, 4), (Declare, 4), (For, 2), (Foreach, 3), (Repeat, 2), (If, 2), (CallFn, 2), (Fork, 2), (Try, 1), (Return, 1), (Pause, 1)],
    ring: 14, hof: 14, call: 3, size: 12, wild: 2, ents: 1, ..BASE
};
/// Structured control flow.
pub const FLOW: Prof = Prof {
    stmts: &[(Watch, 1), (Keep, 1), (Obs, 12), (Assign, 5), (AddAssign, 6), (If, 6), (IfElse, 6), (Repeat, 6), (For, 6), (Foreach, 4), (Until, 5), (Forever, 1), (Declare, 3), (ListMut, 4), (CallFn, 5), (Return, 4), (StopBlock, 3), (StopThis, 1), (Warp, 2), (Try, 1)],
    call: 6, ring: 2, hof: 2, size: 18, nest: 4, depth: 2, host: 2, wild: 1, ..BASE
};
/// Names and scopes.
pub const SCOPE: Prof = Prof {
    stmts: &[(Keep, 4), (Obs, 8), (Assign, 12), (AddAssign, 8), (Declare, 8), (CallFn, 8), (RingDef, 5), (CallRing, 5), (Watch, 5), (If, 2), (Repeat, 3), (For, 4), (Foreach, 4), (Fork, 2), (Try, 2), (Fail, 1), (Return, 2), (Clone, 1), (Pause, 1)],
    call: 9, ring: 6, hof: 3, size: 15, wild: 12, sprites: (0, 2), fns: (1, 4), ents: 1, shared_vars: 40, hats: FLAGKEY, n_events: (0, 3), events: &[(EK::Start, 1), (EK::Key, 2), (EK::Event, 3)], ..BASE
};
/// Errors and handlers.
pub const ERRS: Prof = Prof {
    stmts: &[(Keep, 3), (Obs, 8), (Assign, 5), (AddAssign, 5), (Try, 14), (Throw, 4), (Fail, 6), (If, 3), (IfElse, 2), (Repeat, 4), (For, 3), (Foreach, 2), (CallFn, 6), (CallRing, 4), (Return, 3), (StopBlock, 2), (Declare, 2), (Warp, 2), (RingDef, 2), (Syscall, 2), (ListMut, 2), (BroadcastWait, 1), (Pause, 1), (SoftErr, 1)],
    call: 7, ring: 6, hof: 4, fail: 5, host: 4, size: 16, nest: 4, depth: 2, fns: (1, 3), wild: 4, soft: true, hats: &[(HK::Flag, 8), (HK::Message, 1)], ..BASE
};
/// Switching between scripts.
pub const SWITCH: Prof = Prof {
    stmts: &[(Watch, 1), (Obs, 12), (AddAssign, 8), (Assign, 4), (Repeat, 9), (For, 5), (Foreach, 4), (Until, 4), (Forever, 2), (Warp, 10), (CallFn, 5), (CallRing, 2), (Try, 3), (Fail, 2), (Return, 2), (StopBlock, 2), (If, 2), (Wait, 2), (WaitUntil, 1), (Pause, 1), (Fork, 1), (Broadcast, 1), (BroadcastWait, 1), (Rpc, 1), (Ask, 1), (Say, 1)],
    call: 5, ring: 3, hof: 2, size: 14, nest: 4, depth: 2, scripts: (1, 3), sprites: (0, 2), shared_vars: 80, latency: true, time: 1, wild: 1, fail: 1, turns: 400, hats: &[(HK::Flag, 8), (HK::Message, 1), (HK::Key, 1)], n_events: (0, 3), events: &[(EK::Key, 2), (EK::Start, 1)], ..BASE
};
pub const DEPTH: Prof = Prof {
    stmts: &[(Obs, 6), (AddAssign, 5), (CallFn, 12), (CallRing, 8), (RingDef, 6), (Try, 8), (If, 4), (Assign, 3), (Repeat, 2), (Return, 3), (Fork, 1), (Fail, 1)],
    call: 16, ring: 9, hof: 5, size: 10, depth: 2, fns: (2, 4), unguarded: true, small_depth: true, wild: 1, shared_vars: 60, ..BASE
};
pub const EVENTSP: Prof = Prof {
    stmts: &[(Watch, 1), (Obs, 12), (AddAssign, 6), (Assign, 4), (Repeat, 5), (Forever, 2), (Wait, 3), (If, 2), (Fail, 1), (Broadcast, 1), (Clone, 3), (DeleteClone, 1), (Say, 1), (Pause, 2), (StopThis, 1), (Warp, 1)],
    sprites: (0, 2), scripts: (1, 4), hats: &[(HK::Flag, 4), (HK::Key, 5), (HK::Event, 6), (HK::Message, 1), (HK::Clone, 2), (HK::None, 1)], events: &[(EK::Start, 3), (EK::Key, 6), (EK::Event, 6), (EK::Stop, 1), (EK::KeyUp, 1)], n_events: (2, 9), event_span: 10,
    size: 8, depth: 2, nest: 2, call: 2, ring: 1, hof: 1, wild: 1, shared_vars: 70, turns: 250, start_first: false, ..BASE
};
pub const BCAST: Prof = Prof {
    stmts: &[(Watch, 1), (Obs, 10), (AddAssign, 5), (Broadcast, 9), (BroadcastWait, 9), (Repeat, 4), (For, 2), (If, 2), (Wait, 3), (Pause, 2), (StopThis, 1), (StopOthers, 1), (Fail, 1), (Try, 2), (Clone, 2), (DeleteClone, 1), (Warp, 1), (CallFn, 1), (SoftErr, 2), (CallRing, 1)],
    sprites: (0, 2), scripts: (1, 4), hats: &[(HK::Flag, 5), (HK::Message, 9), (HK::AnyMessage, 2), (HK::Key, 1), (HK::Clone, 1)], events: &[(EK::Start, 2), (EK::Key, 2), (EK::Stop, 1)], n_events: (0, 3), event_span: 15,
    size: 8, depth: 2, nest: 2, call: 2, ring: 1, hof: 1, wild: 1, ents: 1, shared_vars: 60, turns: 250, ..BASE
};
pub const NET: Prof = Prof {
    stmts: &[(Obs, 10), (AddAssign, 5), (Send, 6), (Reply, 7), (Repeat, 4), (If, 2), (Wait, 2), (Pause, 2), (StopThis, 1), (StopOthers, 1), (Fail, 1), (Try, 2), (Assign, 3), (Broadcast, 1), (Warp, 1), (CallFn, 1), (ListMut, 2)],
    sprites: (0, 2), scripts: (1, 3), hats: &[(HK::Flag, 3), (HK::Net, 10), (HK::Message, 1), (HK::Key, 1)], events: &[(EK::Msg, 12), (EK::Start, 1), (EK::Key, 1), (EK::Stop, 1)], n_events: (2, 10), event_span: 6,
    size: 8, depth: 2, nest: 2, netreply: 8, latency: true, call: 2, ring: 1, hof: 1, wild: 1, shared_vars: 60, turns: 300, ..BASE
};
pub const STOPS: Prof = Prof {
    stmts: &[(Watch, 1), (Obs, 10), (AddAssign, 5), (StopThis, 3), (StopAll, 2), (StopOthers, 4), (StopSprite, 4), (Repeat, 6), (Forever, 2), (If, 6), (Wait, 3), (Broadcast, 3), (BroadcastWait, 3), (CallFn, 2), (CallRing, 1), (Warp, 2), (Try, 1), (Clone, 2), (DeleteClone, 1), (Ask, 1), (Pause, 1), (Fork, 1)],
    sprites: (0, 2), scripts: (1, 4), hats: ALLHATS, events: &[(EK::Start, 3), (EK::Key, 3), (EK::Stop, 2), (EK::Event, 3), (EK::Msg, 2)], n_events: (0, 6), event_span: 12,
    size: 9, depth: 2, nest: 3, call: 2, ring: 1, hof: 1, wild: 1, latency: true, shared_vars: 60, turns: 250, ..BASE
};
pub const CLONES: Prof = Prof {
    stmts: &[(Obs, 10), (AddAssign, 6), (Assign, 6), (Clone, 9), (DeleteClone, 3), (ListMut, 3), (Prop, 4), (Costume, 2), (Repeat, 3), (If, 3), (Wait, 1), (Broadcast, 3), (BroadcastWait, 1), (CallRing, 2), (Pause, 2), (Watch, 1), (Fail, 1), (StopThis, 1)],
    sprites: (1, 3), scripts: (1, 3), hats: &[(HK::Flag, 5), (HK::Clone, 5), (HK::Message, 3), (HK::Key, 2), (HK::Event, 1)], events: &[(EK::Key, 3), (EK::Event, 2), (EK::Start, 1)], n_events: (0, 4), event_span: 15,
    size: 9, depth: 2, nest: 2, call: 2, ring: 2, hof: 1, prop: 6, ents: 10, clone: 20, wild: 1, dump: true, shared_vars: 60, turns: 200, ..BASE
};
pub const HOSTP: Prof = Prof {
    stmts: &[(Watch, 1), (Obs, 10), (AddAssign, 4), (Assign, 6), (Rpc, 7), (Syscall, 6), (Ask, 5), (SoftErr, 6), (Say, 3), (Prop, 3), (Sound, 2), (Notes, 2), (Costume, 2), (Repeat, 3), (If, 2), (Try, 3), (Warp, 2), (CallFn, 2), (Foreach, 1), (Send, 1), (Clone, 1), (StopThis, 1)],
    sprites: (0, 2), scripts: (1, 3), host: 14, prop: 5, netreply: 1, size: 10, depth: 2, latency: true, soft: true, wild: 2, hats: FLAGKEY, events: &[(EK::Key, 2), (EK::Event, 2), (EK::Start, 1), (EK::Stop, 1)], n_events: (0, 4), event_span: 20, turns: 400, ..BASE
};
pub const CONC: Prof = Prof {
    stmts: &[(Watch, 1), (Keep, 2), (Obs, 8), (AddAssign, 6), (Assign, 6), (Declare, 5), (Repeat, 6), (For, 4), (Foreach, 3), (Fork, 7), (CallFn, 5), (CallRing, 3), (Try, 5), (Fail, 2), (Throw, 1), (Wait, 3), (Ask, 2), (Rpc, 2), (SoftErr, 3), (Syscall, 2), (Warp, 3), (ListMut, 3), (Broadcast, 1), (BroadcastWait, 1), (Clone, 1), (RingDef, 3), (Pause, 1)],
    sprites: (0, 2), scripts: (2, 4), call: 5, ring: 5, hof: 3, host: 4, size: 10, nest: 3, depth: 2, latency: true, soft: true, wild: 1, time: 1, shared_vars: 30, hats: &[(HK::Flag, 8), (HK::Key, 1), (HK::Event, 2), (HK::Message, 2)], events: &[(EK::Key, 2), (EK::Event, 2), (EK::Start, 1)], n_events: (0, 3), event_span: 20, turns: 400, ..BASE
};
pub const TIME: Prof = Prof {
    stmts: &[(Obs, 10), (AddAssign, 4), (Wait, 12), (WaitUntil, 5), (TimerReset, 4), (Say, 4), (Repeat, 5), (If, 2), (Warp, 3), (Notes, 3), (Fork, 1), (Broadcast, 1), (BroadcastWait, 1), (Try, 2), (Assign, 2), (Pause, 1)],
    sprites: (0, 1), scripts: (1, 4), time: 25, prop: 1, size: 9, depth: 2, wild: 2, call: 1, ring: 1, hof: 1, hats: &[(HK::Flag, 8), (HK::Key, 2), (HK::Message, 1)], events: &[(EK::Key, 3), (EK::Start, 1)], n_events: (0, 3), event_span: 20, turns: 500, shared_vars: 70, ..BASE
};
/// Everything at once.
pub const ALL: Prof = Prof {
    stmts: &[(Obs, 12), (Assign, 8), (AddAssign, 5), (Say, 2), (If, 4), (IfElse, 3), (Repeat, 5), (For, 3), (Foreach, 3), (Until, 2), (Forever, 1), (Warp, 3), (Try, 3), (Throw, 1), (CallFn, 3), (CallRing, 3), (Fork, 2), (Return, 2), (StopBlock, 1), (StopThis, 1), (StopAll, 1), (StopOthers, 1), (StopSprite, 1), (Wait, 2), (WaitUntil, 1), (Broadcast, 3), (BroadcastWait, 3), (Clone, 3), (DeleteClone, 1), (ListMut, 5), (Declare, 3), (Watch, 1), (Ask, 1), (Prop, 3), (Rpc, 2), (Syscall, 2), (Reply, 1), (Send, 1), (Costume, 1), (Sound, 1), (Notes, 1), (TimerReset, 1), (Pause, 1), (Fail, 1), (RingDef, 3), (SoftErr, 1)],
    sprites: (0, 2), scripts: (1, 3), fns: (0, 3), call: 4, ring: 4, hof: 4, host: 3, prop: 3, ents: 3, clone: 3, time: 1, netreply: 1, fail: 1, wild: 4, hats: ALLHATS, events: &[(EK::Start, 3), (EK::Key, 3), (EK::Stop, 1), (EK::Event, 3), (EK::Msg, 4), (EK::KeyUp, 1)], n_events: (0, 7), event_span: 15, latency: true, soft: true, shared_vars: 50, turns: 300, ..BASE
};
macro_rules! progs { ($($f:ident $p:ident $nt:expr;)*) => { $(pub fn $f(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_diff(g, cx, &$p, $nt) })* } }
progs! {
    rings RINGS |m| m.stats.rings > 1;
    flow FLOW |m| m.stats.loops > 0 && m.trace.len() > 5;
    scope SCOPE |m| m.stats.calls + m.stats.rings + m.stats.watch > 0;
    errs ERRS |m| m.stats.caught > 0;
    switch SWITCH |m| m.stats.yields > 3 && m.stats.warps > 0;
    depth DEPTH |m| m.stats.maxdepth > 3;
    events EVENTSP |m| m.stats.done > 1;
    bcast BCAST |m| m.stats.received > 0;
    net NET |m| m.stats.netmsgs > 0;
    stops STOPS |m| m.stats.kills > 0;
    clones CLONES |m| m.stats.clones > 0;
    host HOSTP |m| m.stats.requests > 1;
    conc CONC |m| m.stats.yields > 3 && m.stats.forks > 0;
    time TIME |m| m.stats.waits > 1;
    all ALL |m| m.trace.len() > 8;
}
/// Long bursts of one kind of message or event at a script that is still busy with the first of them.
pub fn bursts(g: &mut Gen, cx: &mut Ctx, net: bool) -> CheckResult {
    use netsblox_vm::ast::{HatKind as H, StmtKind as S};
    let mut ents = vec![entity("Stage")];
    if g.bool() { ents.push(entity("A")); }
    let names = if net { ["net1", "net2"] } else { ["ev1", "ev2"] };
    let n = 1 + g.below(3);
    for i in 0..n {
        let e = g.below(ents.len());
        let name = if i == 0 { names[0] } else { names[g.below(2)] };
        let fields = vec![vref("n1")];
        let kind = if net { H::NetworkMessage { msg_type: name.into(), fields } } else { H::Unknown { name: name.into(), fields } };
        let mut body = vec![];
        for _ in 0..1 + g.below(3) { body.push(match g.below(6) {
            0 => st(S::Sleep { seconds: Box::new(num(g.below(30) as f64 / 1000.0)) }),
            1 => st(S::Repeat { times: Box::new(num(g.below(4) as f64)), stmts: vec![st(S::AddAssign { var: vref("n9"), value: Box::new(num(1.0)) })] }),
            2 if net => st(S::SendNetworkReply { value: Box::new(var("n1")) }),
            3 => st(S::Sleep { seconds: Box::new(num(0.0)) }),
            _ => obs("log", vec![txt(&format!("s{i}")), var("n1"), var("n9")]),
        }) }
        body.push(obs("end", vec![var("n1")]));
        ents[e].scripts.push(script(kind, body));
    }
    let mut s = Setup::new({ let mut r = role(ents); r.globals.push(init("n9", netsblox_vm::ast::Value::Number(0.0))); r });
    s.acts.clear();
    s.ticks = vec![1 + g.below(20) as u64];
    let mut t = 0;
    let limit = g.pickc(&[usize::MAX, usize::MAX, 0, 1, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200]);
    let mut sent = 0;
    for _ in 0..1 + g.below(3) {
        let k = g.pickc(&[1, 3, 10, 20, 34, 70, 130, 260]);
        for _ in 0..k {
            let name = if g.chance(1, 12) { names[1] } else { names[0] };
            let values = vec![("n1".to_string(), crate::vm::Snap::Num(sent as f64))];
            s.acts.push((t, if net { Act::Msg { msg_type: name.into(), values, reply: if g.chance(1, 4) { Some((format!("src{sent}"), format!("req{sent}"))) } else { None } } }
                else { Act::Custom { name: name.into(), args: values, interrupt: g.chance(1, 60), max_queue: if g.chance(9, 10) { limit } else { g.pickc(&[0, 1, 20, usize::MAX]) } } }));
            sent += 1;
            if g.chance(1, 15) { t += 1; }
        }
        t += g.below(40);
        if g.chance(1, 20) { s.acts.push((t, Act::Stop)); }
    }
    s.max_turns = 6000;
    s.fuel = 2_000_000;
    cx.label_if(sent > 64, "more than 64 sent");
    run_setup(cx, &s, |m| m.stats.queued > 20)
}
fn net_bursts(g: &mut Gen, cx: &mut Ctx) -> CheckResult { bursts(g, cx, true) }
fn event_bursts(g: &mut Gen, cx: &mut Ctx) -> CheckResult { bursts(g, cx, false) }
/// As the other programs, but what comes in from outside also comes in between two steps of a running script.
pub fn midway(g: &mut Gen, cx: &mut Ctx, p: &Prof) -> CheckResult {
    let mut s = project(g, p);
    const ANY: &[(EK, usize)] = &[(EK::Start, 4), (EK::Key, 2), (EK::Stop, 2), (EK::Event, 5), (EK::Msg, 4), (EK::KeyUp, 1)];
    let events = if g.bool() { p.events } else { ANY };
    let mut at = 0;
    for i in 0..1 + g.len(6) { at += 1 + g.below(8); s.mid.push((at, one_act(g, events, 100 + i))); }
    run_setup(cx, &s, |m| m.stats.midway > 0)
}
/// Scripts that start others in every way, all of which ask the host who started them.
fn c24_launches(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    use netsblox_vm::ast::{ExprKind as E, HatKind as H, StmtKind as S, Stmt};
    const NAMES: [&str; 3] = ["Stage", "A", "B"];
    const MSGS: [&str; 4] = ["m0", "m1", "m2", "m3"];
    let n_ents = 1 + g.below(3);
    let mut ents: Vec<_> = NAMES[..n_ents].iter().map(|n| entity(n)).collect();
    fn line(g: &mut Gen) -> netsblox_vm::ast::Expr {
        if g.chance(1, 4) { ex(E::CallFn { function: netsblox_vm::ast::FnRef { name: "who".into(), trans_name: "who".into(), location: netsblox_vm::ast::FnLocation::Global }, args: vec![], upvars: vec![] }) } else { ex(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("line"), ex(E::MakeList { values: vec![] })] }) }
    }
    fn some(g: &mut Gen, at: usize, ents: usize, nest: usize, clone: bool) -> Stmt {
        match g.below(if nest == 0 { 8 } else { 12 }) {
            0..=2 => { let l = line(g); obs("line", vec![l]) }
            3 => st(S::Sleep { seconds: Box::new(num(g.pickc(&[0.0, 0.01, 0.05]))) }),
            4 | 5 if at < 4 => st(S::SendLocalMessage { target: if g.chance(2, 3) { None } else { let to = NAMES[g.below(ents)]; Some(Box::new(ex(E::Entity { name: to.into(), trans_name: to.into() }))) }, msg_type: Box::new(txt(MSGS[at + g.below(4 - at)])), wait: g.bool() }),
            6 | 7 if clone => { let to = NAMES[g.below(ents)]; st(S::Clone { target: Box::new(if g.bool() { ex(E::This) } else { ex(E::Entity { name: to.into(), trans_name: to.into() }) }) }) }
            8 | 9 => st(S::ForkClosure { closure: Box::new(ring(&[], &[], (0..1 + g.below(2)).map(|_| some(g, at, ents, 0, clone)).collect())), args: vec![] }),
            10 => st(S::Repeat { times: Box::new(num(g.below(3) as f64)), stmts: vec![some(g, at, ents, 0, clone)] }),
            11 => st(S::TryCatch { code: vec![some(g, at, ents, 0, clone), st(S::Throw { error: Box::new(txt("no")) })], var: vref("n1"), handler: vec![some(g, at, ents, 0, clone)] }),
            _ => { let l = line(g); obs("line", vec![l]) }
        }
    }
    for _ in 0..2 + g.below(6) {
        let e = g.below(n_ents);
        let (kind, at, clone) = match g.below(10) {
            0..=2 => (H::OnFlag, 0, true),
            3..=5 => { let k = g.below(4); (H::LocalMessage { msg_type: Some(MSGS[k].into()) }, k + 1, k == 0) }
            6 => (H::LocalMessage { msg_type: None }, 4, false),
            7 | 8 => (H::OnClone, 2, false),
            _ => if g.bool() { (H::Unknown { name: "ev1".into(), fields: vec![] }, 1, true) } else { (H::NetworkMessage { msg_type: "net1".into(), fields: vec![vref("n1")] }, 1, true) },
        };
        let body = (0..1 + g.below(4)).map(|_| some(g, at, n_ents, 1, clone)).collect();
        ents[e].scripts.push(script(kind, body));
    }
    let mut r = role(ents);
    r.funcs.push(func("who", &[], vec![st(S::Return { value: Box::new(ex(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("line"), ex(E::MakeList { values: vec![] })] })) })]));
    let mut s = Setup::new(r);
    s.latency = vec![g.below(3) as u32];
    for i in 0..g.below(5) { s.acts.push((g.below(12), match g.below(6) { 0 => Act::Start, 1 => Act::Stop, 2 | 3 => Act::Custom { name: "ev1".into(), args: vec![], interrupt: g.chance(1, 4), max_queue: g.pickc(&[usize::MAX, 1]) }, _ => Act::Msg { msg_type: "net1".into(), values: vec![("n1".into(), crate::vm::Snap::Num(i as f64))], reply: None } })); }
    s.acts.sort_by_key(|x| x.0);
    s.max_turns = 600;
    s.fuel = 60_000;
    run_setup(cx, &s, |m| m.stats.requests > 2 && (m.stats.clones > 0 || m.stats.received > 0))
}
/// Hundreds of scripts, sprites, clones and forks at once.
fn crowd(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    use netsblox_vm::ast::{ExprKind as E, HatKind as H, StmtKind as S, StopMode as M, Stmt};
    let n_ents = g.pickc(&[1usize, 2, 3, 20, 70, 130, 260]);
    let names: Vec<String> = (0..n_ents).map(|i| if i == 0 { "Stage".into() } else { format!("s{i}") }).collect();
    let mut ents: Vec<_> = names.iter().map(|n| entity(n)).collect();
    let who = |e: usize| { let n = &names[e]; Box::new(ex(E::Entity { name: n.as_str().into(), trans_name: n.as_str().into() })) };
    let small = |g: &mut Gen| -> Stmt { match g.below(9) {
        0 | 1 => st(S::AddAssign { var: vref("n9"), value: Box::new(num(1.0)) }),
        2 => st(S::Sleep { seconds: Box::new(num(g.pickc(&[0.0, 0.01, 0.03]))) }),
        3 => { let k = g.below(4); st(S::Repeat { times: Box::new(num(k as f64)), stmts: vec![st(S::AddAssign { var: vref("n9"), value: Box::new(num(1.0)) })] }) }
        4 => st(S::AddAssign { var: vref("f"), value: Box::new(num(1.0)) }),
        5 => st(S::If { condition: Box::new(ex(E::Eq { left: Box::new(ex(E::Mod { left: Box::new(var("n9")), right: Box::new(num(37.0)) })), right: Box::new(num(5.0)) })), then: vec![match g.below(6) { 0 => st(S::Stop { mode: M::OtherScriptsInSprite }), 1 => st(S::Stop { mode: M::AllButThisScript }), 2 => st(S::DeleteClone), 3 => st(S::Throw { error: Box::new(txt("no")) }), 4 => st(S::Stop { mode: M::All }), _ => st(S::Stop { mode: M::ThisScript }) }] }),
        _ => obs("log", vec![var("n9"), var("f")]),
    } };
    let many = |g: &mut Gen| g.pickc(&[20usize, 63, 65, 100, 129, 200, 257, 300]) as f64;
    // the scripts that make the crowd
    for _ in 0..1 + g.below(2) {
        let e = g.below(n_ents);
        let mut body = vec![];
        for _ in 0..1 + g.below(4) {
            body.push(match g.below(6) {
                0 | 1 => { let k = many(g); let to = if g.bool() { Box::new(ex(E::This)) } else { who(g.below(n_ents)) }; st(S::Repeat { times: Box::new(num(k)), stmts: vec![st(S::Clone { target: to })] }) }
                2 => { let k = many(g); let b = (0..1 + g.below(3)).map(|_| small(g)).collect(); st(S::Repeat { times: Box::new(num(k)), stmts: vec![st(S::ForkClosure { closure: Box::new(ring(&[], &[], b)), args: vec![] })] }) }
                3 | 4 => { let target = match g.below(4) { 0 => Some(who(g.below(n_ents))), 1 => { let k = many(g) as usize; Some(Box::new(list((0..k).map(|i| *who(i * 7 % n_ents)).collect()))) } _ => None }; st(S::SendLocalMessage { target, msg_type: Box::new(txt("go")), wait: g.bool() }) }
                _ => small(g),
            });
        }
        if g.bool() { body = vec![st(S::Warp { stmts: body })]; }
        body.push(obs("made", vec![var("n9")]));
        ents[e].scripts.push(script(H::OnFlag, body));
    }
    // and those of the crowd
    let total = g.pickc(&[2usize, 5, 40, 130, 270]);
    for i in 0..total {
        let kind = match g.below(8) { 0 => H::OnFlag, 1..=4 => H::LocalMessage { msg_type: if g.chance(1, 6) { None } else { Some("go".into()) } }, 5 | 6 => H::OnClone, _ => H::Unknown { name: "ev1".into(), fields: vec![] } };
        let mut body: Vec<Stmt> = (0..1 + g.below(3)).map(|_| small(g)).collect();
        if g.chance(1, 3) { body.push(obs("end", vec![num(i as f64), var("f")])); }
        let e = if g.bool() { i % n_ents } else { g.below(n_ents) };
        ents[e].scripts.push(script(kind, body));
    }
    for e in ents.iter_mut() { e.fields.push(init("f", netsblox_vm::ast::Value::Number(0.0))); }
    let mut s = Setup::new({ let mut r = role(ents); r.globals.push(init("n9", netsblox_vm::ast::Value::Number(0.0))); r });
    for _ in 0..g.below(4) { s.acts.push((g.below(900), match g.below(6) { 0 => Act::Start, 1 => Act::Stop, _ => Act::Custom { name: "ev1".into(), args: vec![], interrupt: g.chance(1, 4), max_queue: g.pickc(&[usize::MAX, 1]) } })); }
    s.acts.sort_by_key(|x| x.0);
    s.max_turns = 6000;
    s.fuel = 1_000_000;
    run_setup(cx, &s, |m| m.stats.done > 60)
}
macro_rules! crowds { ($($id:literal)*) => { vec![$(Claim { id: $id, rule: "crowd: hundreds of scripts, sprites, clones, forks and receivers at once (non-trivial = more than sixty runs ended)", assumptions: &[], subs: vec![Sub { name: "crowd", run: crowd, quick: 3_500, thorough: 200_000 }], probes: vec![] }),*] } }
/// Many short scripts for the same few events and messages, a dense history of them, and scripts that stop others: everything here waits in some queue.
pub fn traffic(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    use netsblox_vm::ast::{HatKind as H, StmtKind as S, StopMode as M};
    let mut ents = vec![entity("Stage")];
    for n in ["A", "B"] { if g.bool() { ents.push(entity(n)); } }
    let n = 2 + g.below(6);
    for i in 0..n {
        let e = g.below(ents.len());
        let fields = if g.chance(2, 3) { vec![vref("n1")] } else { vec![] };
        let kind = match g.below(12) {
            0..=3 => H::Unknown { name: g.pickc(&["ev1", "ev1", "ev2"]).into(), fields },
            4..=7 => H::NetworkMessage { msg_type: g.pickc(&["net1", "net1", "net2", "Net1"]).into(), fields },
            8 => H::OnKey { key: g.pickc(&["a", "any key"]).into() },
            9 => H::LocalMessage { msg_type: if g.chance(1, 3) { None } else { Some("go".into()) } },
            _ => H::OnFlag,
        };
        let mut body = vec![];
        fn some(g: &mut Gen, i: usize, ents: usize, nest: usize) -> netsblox_vm::ast::Stmt {
            match g.below(if nest == 0 { 13 } else { 16 }) {
                0 | 1 => st(S::Sleep { seconds: Box::new(num(g.pickc(&[0.0, 0.01, 0.02, 0.05]))) }),
                2 => st(S::Stop { mode: M::OtherScriptsInSprite }),
                3 => st(S::Stop { mode: M::AllButThisScript }),
                4 => st(S::Stop { mode: g.pickc(&[M::ThisScript, M::All, M::OtherScriptsInSprite, M::AllButThisScript]) }),
                5 => { let to = ["Stage", "A", "B"][g.below(ents)]; st(S::SendLocalMessage { target: if g.bool() { None } else { Some(Box::new(ex(netsblox_vm::ast::ExprKind::Entity { name: to.into(), trans_name: to.into() }))) }, msg_type: Box::new(txt("go")), wait: g.bool() }) }
                6 => st(S::SendNetworkReply { value: Box::new(num(i as f64)) }),
                7 => st(S::Throw { error: Box::new(txt("no")) }),
                8 => st(S::AddAssign { var: vref("n9"), value: Box::new(num(1.0)) }),
                9..=12 => obs("log", vec![txt(&format!("s{i}")), num(g.below(9) as f64), var("n9")]),
                13 => st(S::Repeat { times: Box::new(num(g.below(4) as f64)), stmts: (0..1 + g.below(2)).map(|_| some(g, i, ents, 0)).collect() }),
                14 => st(S::If { condition: Box::new(ex(netsblox_vm::ast::ExprKind::Greater { left: Box::new(var("n9")), right: Box::new(num(g.below(6) as f64)) })), then: vec![some(g, i, ents, 0)] }),
                _ => st(S::ForkClosure { closure: Box::new(ring(&[], &[], vec![some(g, i, ents, 0), some(g, i, ents, 0)])), args: vec![] }),
            }
        }
        for _ in 0..1 + g.below(4) { body.push(some(g, i, ents.len(), 1)); }
        body.push(obs("end", vec![txt(&format!("s{i}"))]));
        ents[e].scripts.push(script(kind, body));
    }
    let mut s = Setup::new({ let mut r = role(ents); r.globals.push(init("n9", netsblox_vm::ast::Value::Number(0.0))); r });
    s.acts.clear();
    s.ticks = vec![1 + g.below(20) as u64];
    s.latency = vec![g.below(2) as u32];
    let mut k = 0;
    let mut act = |g: &mut Gen| { k += 1; let values = vec![("n1".to_string(), crate::vm::Snap::Num(k as f64))]; match g.below(16) {
        0 => Act::Start, 1 => if g.chance(1, 3) { Act::Stop } else { Act::Key(key(g)) }, 2 => Act::Key(crate::model::MKey::Char('a')),
        3..=9 => Act::Custom { name: g.pickc(&["ev1", "ev1", "ev1", "ev2"]).into(), args: values, interrupt: g.chance(1, 8), max_queue: g.pickc(&[usize::MAX, usize::MAX, 0, 1, 2, 5]) },
        _ => Act::Msg { msg_type: g.pickc(&["net1", "net1", "net1", "net2", "Net1"]).into(), values, reply: if g.chance(1, 3) { Some((format!("src{k}"), format!("req{k}"))) } else { None } },
    } };
    let mut t = 0;
    for _ in 0..4 + g.below(20) { let a = act(g); s.acts.push((t, a)); if g.chance(1, 4) { t += 1 + g.below(6); } }
    if g.chance(2, 3) { let mut at = 0; for _ in 0..1 + g.below(10) { at += 1 + g.below(6); let a = act(g); s.mid.push((at, a)); } }
    s.max_turns = 1500;
    s.fuel = 100_000;
    cx.label_if(!s.mid.is_empty(), "with inputs between steps");
    run_setup(cx, &s, |m| m.stats.queued > 2 && m.stats.done > 3)
}
macro_rules! mids { ($($f:ident $p:ident;)*) => { $(fn $f(g: &mut Gen, cx: &mut Ctx) -> CheckResult { midway(g, cx, &$p) })* } }
mids! { mid_events EVENTSP; mid_bcast BCAST; mid_net NET; mid_stops STOPS; mid_all ALL; mid_conc CONC; mid_host HOSTP; mid_errs ERRS; mid_clones CLONES; }
macro_rules! mid { ($id:literal, $f:ident, $q:literal) => { Claim { id: $id, rule: "midway: projects of the same kind into which starts, stops, keys, events and messages also come between two steps of a running script, right after a chosen call to the host (non-trivial = one came in that way)", assumptions: &[], subs: vec![Sub { name: "midway", run: $f, quick: $q, thorough: $q * 20 }], probes: vec![] } } }
macro_rules! claim { ($id:literal, $rule:literal, $n:literal, $f:ident, $q:literal) => { Claim { id: $id, rule: $rule, assumptions: &[], subs: vec![Sub { name: $n, run: $f, quick: $q, thorough: $q * 20 }], probes: vec![] } } }
pub fn properties() -> Vec<Claim> {
    let mut all = vec![
        claim!("C07", "random projects whose scripts define, store, pass, nest and call rings with captures and run the higher-order blocks; non-trivial = at least two ring calls happened", "programs", rings, 300_000),
        claim!("C08", "random projects of nested ifs, loops, calls, report and stop-block around observable blocks; non-trivial = a loop ran and more than five events were observed", "programs", flow, 300_000),
        claim!("C09", "random projects where globals, fields, script variables, parameters, upvars, ring captures and event variables share names; non-trivial = a custom block or ring was called or a watcher opened", "programs", scope, 300_000),
        claim!("C10", "random projects full of failing blocks, throws and nested try blocks across calls and rings; non-trivial = at least one error was caught", "programs", errs, 300_000),
        claim!("C11", "random projects with several scripts of loops, waits, host calls and warp blocks, compared event by event including every point of giving up control; non-trivial = more than three switches and a warp block entered", "programs", switch, 300_000),
        claim!("C12", "random mutually recursive custom blocks and rings with small call depth limits and handlers; non-trivial = call depth above three reached", "programs", depth, 300_000),
        claim!("C19", "random projects of flag/key/custom event/clone scripts under random histories of start, stop, key and custom events with all queueing options; non-trivial = at least two script runs ended", "programs", events, 300_000),
        claim!("C20", "random projects of broadcasting and receiving scripts with explicit and implicit targets; non-trivial = a broadcast started a script", "programs", bcast, 300_000),
        claim!("C21", "random projects of network message scripts under random histories of incoming messages, with sends, replies and waits for replies at random latencies; non-trivial = a message started or queued a script", "programs", net, 300_000),
        claim!("C22", "random projects with every stop block and stop events among waiting, broadcasting and queued scripts; non-trivial = a script run was ended from outside", "programs", stops, 300_000),
        claim!("C23", "random projects that clone, delete and modify sprites and dump every field and property of every entity at the end; non-trivial = a clone was made", "programs", clones, 300_000),
        claim!("C24", "random projects calling the host (questions, RPCs, system calls, properties) under random per-call latencies, answers and error schemes; non-trivial = at least two host requests", "programs", host, 300_000),
        claim!("C25", "random projects with several concurrent runs, forks and host calls; non-trivial = more than three switches and a fork", "programs", conc, 300_000),
        claim!("C26", "random projects of waits, wait-untils, timed says and notes and timer use under random clock ticks; non-trivial = at least two waits", "programs", time, 300_000),
        claim!("C13", "random projects using every block, event and host answer together; non-trivial = more than eight events", "programs", all, 300_000),
        Claim { id: "C21", rule: "bursts: dozens to hundreds of messages in a row for slow handlers (non-trivial = more than twenty queued)", assumptions: &[], subs: vec![Sub { name: "bursts", run: net_bursts, quick: 60_000, thorough: 1_200_000 }], probes: vec![] },
        Claim { id: "C19", rule: "bursts: dozens to hundreds of custom events in a row with all queueing options (non-trivial = more than twenty queued)", assumptions: &[], subs: vec![Sub { name: "bursts", run: event_bursts, quick: 60_000, thorough: 1_200_000 }], probes: vec![] },
        claim!("C22", "traffic: up to seven short scripts for the same few events, messages and keys under a dense history of them, with stop blocks, broadcasts and inputs between steps (non-trivial = more than two runs had to queue and more than three ended)", "traffic", traffic, 150_000),
        claim!("C19", "traffic: up to seven short scripts for the same few events, messages and keys under a dense history of them, with stop blocks, broadcasts and inputs between steps (non-trivial = more than two runs had to queue and more than three ended)", "traffic", traffic, 150_000),
        claim!("C18", "traffic: up to seven short scripts for the same few events, messages and keys under a dense history of them, with stop blocks, broadcasts and inputs between steps (non-trivial = more than two runs had to queue and more than three ended)", "traffic", traffic, 150_000),
        claim!("C24", "launches: scripts started by flags, messages, broadcasts with and without waiting, clones, events and forks, each of which asks the host who it is and who started it (non-trivial = more than two requests and a broadcast or a clone)", "launches", c24_launches, 80_000),
        mid!("C19", mid_events, 100_000), mid!("C20", mid_bcast, 80_000), mid!("C21", mid_net, 80_000), mid!("C22", mid_stops, 100_000), mid!("C13", mid_all, 60_000),
        mid!("C25", mid_conc, 60_000), mid!("C24", mid_host, 60_000), mid!("C10", mid_errs, 60_000), mid!("C23", mid_clones, 60_000),
    ];
    all.extend(crowds!("C18" "C19" "C20" "C22" "C23" "C25"));
    all
}
