//! More relations: placement in the program, host speed, isolation, collection, registers, chance, clock.
use crate::drive::*;
use crate::gprog::*;
use crate::p_api::{change_prop, get_num, get_prop, set_prop};
use crate::p_prog::*;
use crate::p_rel::{bounded, same_out};
use crate::runner::*;
use crate::tape::{Gen, Rng};
use crate::vm::*;
use crate::mval;
use ast::{ExprKind as E, StmtKind as S, HatKind as H, Value as AV, Expr, Stmt};
use netsblox_vm as nb;
use nb::bytecode::*;
use nb::gc::*;
use nb::project::*;
use nb::process::*;
use nb::runtime::*;
use nb::compact_str::CompactString;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use K::*;

// ---------------------------------------------------------------- memory in use
/// Counts the bytes each thread holds.
pub struct Counter;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn note(n: i64) { let _ = LIVE.try_with(|x| x.set(x.get() + n)); }
unsafe impl std::alloc::GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size() as i64); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { note(-(l.size() as i64)); unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n as i64 - l.size() as i64); unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator]
static COUNTER: Counter = Counter;
pub fn live() -> i64 { LIVE.with(|x| x.get()) }

// ---------------------------------------------------------------- C14 placement
const PLACE: Prof = Prof { locs: true, event_span: 10, turns: 200, size: 12, ..ALL };
/// The same choices once more, with code that never runs in between.
fn twice(g: &mut Gen, p: &Prof) -> (Setup, impl FnOnce(Pad) -> Setup + use<>) {
    let start = g.pos;
    let s = project(g, p);
    let tape: Vec<u64> = g.tape[start.min(g.tape.len())..g.pos.min(g.tape.len())].to_vec();
    let p = *p;
    (s, move |pad| padded(pad, move || project(&mut Gen::replay(tape), &p)))
}
fn shuffle<T>(v: &mut Vec<T>, r: &mut Rng) { for i in (1..v.len()).rev() { let j = r.next() as usize % (i + 1); v.swap(i, j); } }
/// Blocks and scripts nothing refers to, anywhere; blocks in another order.
fn surround(r: &mut ast::Role, pad: &mut Pad) {
    let mut n = 0;
    let mut unused = |pad: &mut Pad| { n += 1; let k = pad.rng.next() % 6; let b = pad.dead(k); let w = pad.word(); func(&format!("{w} unused {n}"), if n % 2 == 0 { &["n1"] } else { &[] }, b) };
    for _ in 0..pad.rng.next() % 3 { let f = unused(pad); let i = pad.rng.next() as usize % (r.funcs.len() + 1); r.funcs.insert(i, f); }
    shuffle(&mut r.funcs, &mut pad.rng);
    for e in &mut r.entities {
        for _ in 0..pad.rng.next() % 3 { let f = unused(pad); let i = pad.rng.next() as usize % (e.funcs.len() + 1); e.funcs.insert(i, f); }
        shuffle(&mut e.funcs, &mut pad.rng);
        for _ in 0..pad.rng.next() % 4 {
            let k = pad.rng.next() % 6;
            let b = pad.dead(k);
            let s = match pad.rng.next() % 3 { 0 => ast::Script { hat: None, stmts: b }, 1 => script(H::Unknown { name: "never".into(), fields: vec![] }, b), _ => script(H::NetworkMessage { msg_type: "never".into(), fields: vec![] }, b) };
            let i = pad.rng.next() as usize % (e.scripts.len() + 1);
            e.scripts.insert(i, s);
        }
    }
}
pub fn c14_padding(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let (mut s, again) = twice(g, &PLACE);
    let seed = g.bits();
    let (often, size, left) = match g.weighted(&[4, 4, 3, 1]) { 0 => (30, 2, 10), 1 => (50, 12, 20), 2 => (60, 40, 40), _ => (25, 1600, 2) };
    cx.label(match size { 2 => "little padding", 12 => "some padding", 40 => "much padding", _ => "jumps across 16384 bytes" });
    let mut pad = Pad { rng: Rng::new(seed), often, size, left };
    let mut s2 = again(pad.clone());
    surround(&mut s2.role, &mut pad);
    cx.sample(|| format!("{}padding seed {seed} often {often} size {size}", show(&s)));
    let Some((m, mut o)) = bounded(&mut s, cx) else { return Ok(()) };
    s2.max_turns = s.max_turns;
    o.budget *= 3;
    let a = run_vm(&s, &o)?;
    let b = run_vm(&s2, &o)?;
    cx.nt_if(m.trace.len() > 8);
    same_out(&a, &b, "the project", "the project with unused code in between")
}
pub fn c14_huge(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let (mut s, again) = twice(g, &PLACE);
    let seed = g.bits();
    let mut s2 = again(Pad { rng: Rng::new(seed), often: 0, size: 1, left: 0 });
    // two megabytes of constants at some place
    let big = || assign("never", list((0..240_000).map(|i| num(i as f64 + 0.5)).collect()));
    let k = g.below(6);
    // ... or of one text, placed before all others
    if g.chance(1, 8) {
        s2.role.funcs.insert(0, func("unused", &[], vec![assign("never", txt(&"\u{1}".repeat(g.pickc(&[2_097_100, 2_097_152, 2_500_000, 16_380, 16_384, 270_000_000 / 100])))) ]));
        cx.sample(|| format!("{}a text of megabytes first", show(&s)));
        let Some((m, o)) = bounded(&mut s, cx) else { return Ok(()) };
        s2.max_turns = s.max_turns;
        let a = run_vm(&s, &o)?;
        let b = run_vm(&s2, &o)?;
        cx.nt_if(m.trace.len() > 8); cx.label("texts far apart");
        return same_out(&a, &b, "the project", "the project with megabytes of unused text")
    }
    let pick = |g: &mut Gen, n: usize| g.below(n + 1);
    fn deep<'a>(g: &mut Gen, v: &'a mut Vec<Stmt>) -> &'a mut Vec<Stmt> {
        // some body within a body
        let n = v.len();
        let spots: Vec<usize> = (0..n).filter(|i| matches!(&v[*i].kind, S::Warp { .. } | S::Repeat { .. } | S::ForLoop { .. } | S::ForeachLoop { .. } | S::UntilLoop { .. } | S::If { .. } | S::IfElse { .. } | S::TryCatch { .. })).collect();
        if spots.is_empty() || g.chance(1, 4) { return v }
        let i = g.pickc(&spots);
        let second = g.bool();
        match &mut v[i].kind { S::Warp { stmts } | S::Repeat { stmts, .. } | S::ForLoop { stmts, .. } | S::ForeachLoop { stmts, .. } | S::UntilLoop { stmts, .. } | S::If { then: stmts, .. } => deep(g, stmts), S::IfElse { then, otherwise, .. } => deep(g, if second { otherwise } else { then }), S::TryCatch { code, handler, .. } => deep(g, if second { handler } else { code }), _ => unreachable!() }
    }
    let never = |b: Vec<Stmt>| st(S::If { condition: Box::new(boolean(false)), then: b });
    let e = g.below(s2.role.entities.len());
    match k {
        0 => s2.role.funcs.insert(0, func("unused", &[], vec![big()])),
        1 => s2.role.entities[e].scripts.insert(0, ast::Script { hat: None, stmts: vec![big()] }),
        _ => { let sc = &mut s2.role.entities[e].scripts; if sc.is_empty() { return Ok(()) } let j = g.below(sc.len()); let v = deep(g, &mut sc[j].stmts); let i = pick(g, v.len()); v.insert(i, never(vec![big()])); }
    }
    cx.sample(|| format!("{}two megabytes at place {k}", show(&s)));
    let Some((m, o)) = bounded(&mut s, cx) else { return Ok(()) };
    s2.max_turns = s.max_turns;
    let a = run_vm(&s, &o)?;
    let b = run_vm(&s2, &o)?;
    cx.nt_if(m.trace.len() > 8);
    same_out(&a, &b, "the project", "the project with two megabytes of unused code")
}
/// How many: around every size at which a count could be stored differently.
fn many(g: &mut Gen, most: usize) -> usize {
    let n = match g.weighted(&[6, 3, 5, 3, 3, 2]) { 0 => g.below(20), 1 => 120 + g.below(16), 2 => 250 + g.below(12), 3 => 1018 + g.below(14), 4 => 4088 + g.below(18), _ => match g.below(5) { 0 | 1 => 16_378 + g.below(12), 2 | 3 => 65_530 + g.below(12), _ => 70_000 + g.below(200) } };
    if n > most { most - g.below(6) } else { n }
}
/// Blocks of very many inputs, blocks of very many parameters, projects of very many parts.
pub fn c14_wide(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let call = |f: &str, args: Vec<Expr>| ex(E::CallFn { function: fnref(f), args, upvars: vec![] });
    let wide = |xs: Vec<Expr>| Box::new(list(xs));
    let nums = |n: usize, k: usize| -> Vec<Expr> { (0..n).map(|i| num(((i * 7 + k) % 1000) as f64)).collect() };
    let mut r = one_script(vec![]);
    let mut out: Vec<Stmt> = vec![];
    let mut acts: Vec<(usize, Act)> = vec![(0, Act::Start)];
    // some of a list's items and its length
    let look = |g: &mut Gen, out: &mut Vec<Stmt>, n: usize| {
        out.push(obs("len", vec![ex(E::ListLen { value: Box::new(var("x")) })]));
        for _ in 0..3 { let i = 1 + g.below(n.max(1)); out.push(obs("item", vec![ex(E::ListGet { list: Box::new(var("x")), index: Box::new(num(i as f64)) })])); }
        out.push(obs("last", vec![ex(E::ListGetLast { list: Box::new(var("x")) })]));
    };
    let names = |n: usize, p: &str| -> Vec<String> { (0..n).map(|i| format!("{p}{i}")).collect() };
    fn refs(v: &[String]) -> Vec<&str> { v.iter().map(|x| x.as_str()).collect() }
    let rounds = 1 + g.below(3);
    let mut widest = 0;
    for round in 0..rounds {
        let k = g.below(22);
        let n = match k { 0 | 1 | 2 | 3 | 4 | 5 => many(g, 80_000), 6 | 12 | 13 | 18 => many(g, 4_100), 7 => 1 + g.below(40), 8 | 9 | 10 | 11 | 14 | 15 => many(g, 1_040), 16 | 17 | 19 | 20 => many(g, 530), _ => many(g, 17_000) };
        let n = if k == 7 { n } else { n.max(1) };
        widest = widest.max(n);
        let sh = g.below(1000);
        cx.label(["items", "fold", "product", "joined", "appended", "copied", "combined", "reshaped", "parameters", "ring parameters", "captures", "declared", "block inputs", "syscall inputs", "rpc arguments", "message fields", "sprites", "scripts", "custom blocks", "variables", "costumes", "statements"][k]);
        let tag = format!("r{round}x");
        match k {
            0 => { out.push(assign("x", list(nums(n, sh)))); look(g, &mut out, n); }
            1 => { let v = nums(n, sh); let b = Box::new(ex(E::MakeList { values: v })); out.push(obs("fold", vec![ex(match g.below(4) { 0 => E::Add { values: b }, 1 => E::Min { values: b }, 2 => E::Max { values: b }, _ => E::StrLen { value: Box::new(ex(E::StrCat { values: b })) } })])); }
            2 => { let v: Vec<Expr> = (0..n).map(|i| if i == sh * n / 1000 { num(2.5) } else { num(1.0) }).collect(); out.push(obs("product", vec![ex(E::Mul { values: wide(v) })])); }
            3 => { let v: Vec<Expr> = (0..n).map(|i| match (i + sh) % 5 { 0 => txt("a"), 1 => num(i as f64), 2 => boolean(true), 3 => txt(""), _ => txt("\u{1f600}") }).collect(); out.push(assign("y", ex(E::StrCat { values: wide(v) }))); out.push(obs("text", vec![ex(E::StrLen { value: Box::new(var("y")) }), ex(E::StrGet { string: Box::new(var("y")), index: Box::new(num((1 + g.below(n)) as f64)) })])); }
            4 => { let v: Vec<Expr> = (0..n).map(|i| match (i + sh) % 4 { 0 => list(vec![num(i as f64)]), 1 => list(vec![]), 2 => list(vec![num(i as f64), txt("q")]), _ => list(vec![boolean(false)]) }).collect(); out.push(assign("x", ex(E::ListCat { lists: wide(v) }))); look(g, &mut out, n); }
            5 => { out.push(assign("x", ex(E::CopyList { list: wide(nums(n, sh)) }))); look(g, &mut out, n); }
            6 => { let two = g.below(n); let v: Vec<Expr> = (0..n).map(|i| if i == two { list(vec![num(1.0), num(2.0)]) } else { list(vec![num(i as f64)]) }).collect(); out.push(assign("x", ex(E::ListCombinations { sources: wide(v) }))); look(g, &mut out, 2); out.push(assign("x", ex(E::ListGet { list: Box::new(var("x")), index: Box::new(num(2.0)) }))); look(g, &mut out, n); }
            7 => { let v: Vec<Expr> = (0..n).map(|i| num(if i % 13 == sh % 13 { 2.0 } else { 1.0 })).collect(); out.push(assign("x", ex(E::ListReshape { value: Box::new(list(vec![num(1.0), num(2.0), num(3.0)])), dims: wide(v) }))); out.push(obs("shape", vec![ex(E::ListDims { value: Box::new(var("x")) })])); }
            8 => { let ps = names(n, "p"); r.funcs.push(func(&format!("{tag}many"), &refs(&ps), vec![ret(list(vec![var(&ps[0]), var(&ps[sh * n / 1000]), var(&ps[n - 1])]))])); out.push(obs("call", vec![call(&format!("{tag}many"), nums(n, sh))])); }
            9 => { let ps = names(n, "p"); out.push(assign("q", ring_e(&refs(&ps), &[], list(vec![var(&ps[0]), var(&ps[sh * n / 1000]), var(&ps[n - 1])])))); let m = match g.below(4) { 0 => n + 1, 1 => n - 1, _ => n }; out.push(st(S::TryCatch { var: vref("err"), code: vec![obs("ring", vec![ex(E::CallClosure { new_entity: if g.bool() { Some(Box::new(ex(E::This))) } else { None }, closure: Box::new(var("q")), args: nums(m, sh) })])], handler: vec![obs("caught", vec![var("err")])] })); }
            10 => { let ps = names(n, "c"); let ds = refs(&ps); out.push(declare(&ds)); for i in [0, sh * n / 1000, n - 1] { out.push(assign(ds[i], num(i as f64 + 0.5))); } let caught: Vec<&str> = ds.iter().copied().collect(); out.push(obs("captured", vec![ex(E::CallClosure { new_entity: None, closure: Box::new(ring_e(&[], &caught, list(vec![var(ds[0]), var(ds[sh * n / 1000]), var(ds[n - 1])]))), args: vec![] })])); }
            11 => { let ps = names(n, "d"); let ds = refs(&ps); out.push(declare(&ds)); for i in [0, sh * n / 1000, n - 1] { out.push(assign(ds[i], num(i as f64))); } out.push(obs("declared", ds.iter().step_by((n / 9).max(1)).map(|x| var(x)).collect())); }
            12 => { out.push(obs("wide", nums(n, sh))); }
            13 => { out.push(obs("syscall", vec![ex(E::ListLen { value: Box::new(ex(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("echo"), list(nums(n, sh))] })) })])); }
            14 => { let ps = names(n, "a"); out.push(obs("rpc", vec![ex(E::Identical { left: Box::new(ex(E::CallRpc { host: None, service: "svc".into(), rpc: "echo".into(), args: ps.iter().zip(nums(n, sh)).map(|(k, v)| (k.as_str().into(), v)).collect() })), right: Box::new(num(1.0)) })])); }
            15 => { let ps = names(n, "f"); out.push(st(S::SendNetworkMessage { target: Box::new(txt("someone")), msg_type: "net1".into(), values: ps.iter().zip(nums(n, sh)).map(|(k, v)| (k.as_str().into(), v)).collect() }));
                r.entities[0].scripts.push(script(H::NetworkMessage { msg_type: format!("{tag}m").as_str().into(), fields: ps.iter().map(|x| vref(x)).collect() }, vec![obs("fields", vec![var(&ps[0]), var(&ps[sh * n / 1000]), var(&ps[n - 1])])]));
                acts.push((3 + round, Act::Msg { msg_type: format!("{tag}m"), values: ps.iter().enumerate().filter(|(i, _)| i % 17 != sh % 17).map(|(i, k)| (k.clone(), Snap::Num(i as f64))).collect(), reply: None })); }
            16 => { for i in 0..n { let mut e = entity(&format!("{tag}s{i}")); e.fields.push(init("mine", AV::Number(i as f64))); if i % 50 == sh % 50 || i + 1 == n { e.scripts.push(script(H::LocalMessage { msg_type: Some(format!("{tag}go").as_str().into()) }, vec![obs("sprite", vec![var("mine"), ex(E::This)])])); } r.entities.push(e); }
                out.push(st(S::SendLocalMessage { target: None, msg_type: Box::new(txt(&format!("{tag}go"))), wait: g.bool() }));
                out.push(obs("tell", vec![ex(E::CallClosure { new_entity: Some(Box::new(ex(E::Entity { name: format!("{tag}s{}", n - 1).as_str().into(), trans_name: format!("{tag}s{}", n - 1).as_str().into() }))), closure: Box::new(ring_e(&[], &[], var("mine"))), args: vec![] })])); }
            17 => { for i in 0..n { r.entities[0].scripts.push(script(H::LocalMessage { msg_type: Some(format!("{tag}go{}", i % 7).as_str().into()) }, vec![obs("script", vec![num(i as f64)])])); } out.push(st(S::SendLocalMessage { target: None, msg_type: Box::new(txt(&format!("{tag}go{}", sh % 7))), wait: true })); }
            18 => { for i in 0..n { r.funcs.push(func(&format!("{tag}f{i}"), &[], vec![ret(num(i as f64))])); } for i in [0, sh * n / 1000, n - 1] { out.push(obs("block", vec![call(&format!("{tag}f{i}"), vec![])])); } }
            19 => { for i in 0..n { r.globals.push(init(&format!("{tag}g{i}"), AV::Number(i as f64))); r.entities[0].fields.push(init(&format!("{tag}h{i}"), AV::Number(-(i as f64)))); } for i in [0, sh * n / 1000, n - 1] { out.push(obs("variable", vec![var(&format!("{tag}g{i}")), var(&format!("{tag}h{i}"))])); } }
            20 => { for i in 0..n { let look = format!("{tag}k{i}"); r.entities[0].costumes.push(init(&look, AV::Image(Rc::new((vec![i as u8, (i >> 8) as u8], None, look.as_str().into()))))); } for i in [0, sh * n / 1000, n - 1] { out.push(st(S::SetCostume { costume: Box::new(txt(&format!("{tag}k{i}"))) })); out.push(obs("costume", vec![ex(E::CostumeNumber)])); } out.push(st(S::NextCostume)); out.push(obs("costume", vec![ex(E::CostumeNumber)])); }
            _ => { let mut body: Vec<Stmt> = (0..n).map(|i| if i % 500 == sh % 500 { obs("step", vec![num(i as f64)]) } else { st(S::AddAssign { var: vref("n"), value: Box::new(num(1.0)) }) }).collect(); body.push(obs("end", vec![var("n")])); out.push(assign("n", num(0.0))); out.push(match g.below(4) { 0 => st(S::Repeat { times: Box::new(num(2.0)), stmts: body }), 1 => st(S::If { condition: Box::new(boolean(g.bool())), then: body }), 2 => st(S::IfElse { condition: Box::new(boolean(g.bool())), then: body, otherwise: vec![obs("otherwise", vec![])] }), _ => st(S::Warp { stmts: body }) }); }
        }
    }
    out.push(obs("done", vec![]));
    for v in ["x", "y", "q", "n", "err"] { r.globals.push(init(v, AV::Number(0.0))); }
    r.entities[0].scripts.insert(0, script(H::OnFlag, out));
    let mut s = Setup::new(r);
    s.acts = acts;
    s.fuel = 20_000_000;
    cx.sample(|| { let t = show(&s); if t.len() > 1500 { format!("{} ... ({} characters)", t.chars().take(1500).collect::<String>(), t.len()) } else { t } });
    match differential(&s)? {
        None => cx.label("discarded (budget)"),
        Some((m, _)) => { cx.nt_if(widest > 127 && m.trace.len() > 2); cx.label_if(widest > 4095, "more than 4095 of something"); cx.label_if(widest > 16_383, "more than 16383 of something"); }
    }
    Ok(())
}
const ALONE: Prof = Prof {
    stmts: &[(Obs, 10), (Assign, 8), (AddAssign, 6), (Say, 2), (If, 4), (IfElse, 3), (Repeat, 5), (For, 4), (Foreach, 3), (Until, 2), (Warp, 3), (Try, 4), (Throw, 1), (Fail, 2), (CallFn, 5), (CallRing, 4), (Return, 3), (StopBlock, 2), (StopThis, 1), (Wait, 2), (ListMut, 5), (Declare, 3), (Ask, 1), (Prop, 3), (Rpc, 2), (Syscall, 2), (Costume, 1), (Sound, 1), (Notes, 1), (TimerReset, 1), (RingDef, 3), (SoftErr, 2), (Send, 1)],
    sprites: (0, 2), scripts: (1, 3), fns: (0, 3), call: 5, ring: 4, hof: 4, host: 3, prop: 2, ents: 2, time: 1, fail: 2, wild: 5, locs: true, hats: &[(HK::Flag, 3), (HK::Key, 2), (HK::Message, 2), (HK::Clone, 1), (HK::Event, 1), (HK::None, 1)], events: &[], n_events: (0, 0), latency: true, soft: true, turns: 300, ..BASE
};
/// One script of a project run as a process of its own, and as the only script of the project.
pub fn c14_alone(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &ALONE);
    let e = g.below(s.role.entities.len());
    let k = g.below(s.role.entities[e].scripts.len());
    // event variables are supplied by the event
    if let Some(h) = &s.role.entities[e].scripts[k].hat { if let H::Unknown { fields, .. } = &h.kind { if !fields.is_empty() { return Ok(()) } } }
    let (code, initi, locs, info) = ByteCode::compile(&s.role).map_err(|e| format!("program does not compile: {e:?}"))?;
    let pos = info.entities[e].1.scripts[k].1;
    // the same project with only that script, under a flag
    let mut only = s.clone();
    for (i, x) in only.role.entities.iter_mut().enumerate() { let keep: Vec<_> = x.scripts.drain(..).enumerate().filter(|y| i == e && y.0 == k).map(|y| script(H::OnFlag, y.1.stmts)).collect(); x.scripts = keep; }
    cx.sample(|| show(&only));
    let Some((m, o)) = bounded(&mut only, cx) else { return Ok(()) };
    cx.nt_if(m.trace.len() > 5);
    let a = run_vm(&only, &o)?;
    // the process by itself
    reset_ids();
    s.acts.clear();
    let set = settings(s.set);
    let mut r = VmRun::new(&s, &o, Rc::new(code), &initi, set);
    r.arena.mutate_root(|mc, root| {
        let gcx = root.proj.unwrap().borrow().get_global_context();
        let ent = { let b = gcx.borrow(); let x = *b.entities.iter().find(|x| x.1.borrow().state.uid == e as u32).unwrap().1; x };
        let p = Process::new(ProcContext { global_context: gcx, entity: ent, locals: SymbolTable::default(), state: PState { pid: 0, marks: vec![], line: crate::vm::new_line(&ent.borrow().name, None) }, start_pos: pos, barrier: None, reply_key: None, local_message: None });
        root.procs.push(Gc::new(mc, RefLock::new(p)));
    });
    let sys = r.sys.clone();
    let (mut t, mut n, mut over) = (0usize, 0u64, false);
    let mark = |e: Ev| sys.st.borrow_mut().trace.push(e);
    while t < only.max_turns && !over {
        sys.st.borrow_mut().now += s.ticks[t % s.ticks.len()];
        let res: Result<bool, String> = r.arena.mutate(|mc, root| {
            let p = root.procs[0];
            loop {
                n += 1;
                if n > o.budget { return Err(TOO_LONG.into()) }
                let x = p.borrow_mut(mc).step(mc);
                match x {
                    Ok(ProcessStep::Normal) => (), Ok(ProcessStep::Yield) => return Ok(false), Ok(ProcessStep::Pause) => (),
                    Ok(ProcessStep::Terminate { result }) => { mark(Ev::Done { ent: e as u32, result: snap1(&result) }); return Ok(true) }
                    Ok(ProcessStep::Abort { .. }) => return Ok(true),
                    Ok(ProcessStep::Idle) => return Err("a running process is idle".into()),
                    Ok(_) => return Err("a process asks for something the script does not contain".into()),
                    Err(x) => {
                        mark(Ev::Fail { ent: e as u32, err: Err::of(&x.cause) });
                        let summary = summary_of(&x, &p.borrow(), root.proj.unwrap().borrow().get_global_context(), &locs);
                        r.out.fails.push(FailInfo { err: Some(Err::of(&x.cause)), ent: e as u32, summary, ..Default::default() });
                        return Ok(true)
                    }
                }
            }
        });
        over = res?;
        if over {
            // a finished process is not running and stays idle
            r.arena.mutate(|mc, root| { let p = root.procs[0]; if p.borrow().is_running() { return Err("a finished process still claims to run".to_string()) } let x = p.borrow_mut(mc).step(mc); match x { Ok(ProcessStep::Idle) => Ok(()), _ => Err("a finished process goes on".into()) } })?;
        }
        t += 1;
    }
    let b = r.finish();
    let strip = |v: &[Ev]| -> Vec<Ev> { v.iter().filter(|e| !matches!(e, Ev::Yield | Ev::Mark(_) | Ev::Pause)).cloned().collect() };
    diff_trace(&strip(&a.trace), &strip(&b.trace), "in the project", "standalone")?;
    let ended = a.idle || a.trace.iter().any(|e| matches!(e, Ev::Done { .. } | Ev::Fail { .. }));
    if over != ended { return Err(format!("standalone over={over}, in the project over={ended}")) }
    for ((k, x), (_, y)) in a.finals.iter().zip(&b.finals) { if x != y && k != "timer" { return Err(format!("final state {k}: {x} in the project, {y} standalone")) } }
    let sum = |o: &Out| o.fails.iter().map(|f| f.summary.as_ref().map(|s| format!("{} {:?}", s.entity, s.trace.iter().map(|t| t.location.to_string()).collect::<Vec<_>>()))).collect::<Vec<_>>();
    if sum(&a) != sum(&b) { return Err(format!("error summaries differ: {:?} in the project, {:?} standalone", sum(&a), sum(&b))) }
    cx.label_if(!a.fails.is_empty(), "ends in an error");
    Ok(())
}

// ---------------------------------------------------------------- C24 latency
const SLOW: Prof = Prof { sprites: (0, 0), scripts: (1, 1), hats: &[(HK::Flag, 1)], events: &[], n_events: (0, 0), netreply: 3, size: 14, turns: 300,
    stmts: &[(Obs, 10), (AddAssign, 4), (Assign, 6), (Rpc, 7), (Syscall, 6), (Ask, 5), (SoftErr, 6), (Say, 3), (Prop, 4), (Sound, 2), (Notes, 2), (Costume, 2), (Repeat, 4), (If, 2), (Try, 3), (Warp, 4), (CallFn, 3), (CallRing, 2), (Foreach, 2), (Send, 2), (Reply, 1), (ListMut, 2), (Fail, 1), (Wait, 1)], ..HOSTP };
pub fn c24_latency(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &SLOW);
    let mut t = s.clone();
    let n = 1 + g.below(5);
    t.latency = (0..n).map(|_| g.below(9) as u32).collect();
    for r in &mut t.replies { r.0 = g.below(9) as u32; }
    if s.replies.is_empty() { s.replies.push((0, None)); t.replies = vec![(g.below(5) as u32, None)]; }
    cx.sample(|| format!("{}other latency {:?}, replies {:?}", show(&s), t.latency, t.replies));
    let Some((m, o)) = bounded(&mut s, cx) else { return Ok(()) };
    let a = run_vm(&s, &o)?;
    if !a.idle { cx.label("did not end in time"); return Ok(()) }
    cx.nt_if(m.stats.requests > 1);
    let calls = a.trace.iter().filter(|e| matches!(e, Ev::Request { .. } | Ev::Command { .. } | Ev::Print { .. } | Ev::Send { .. })).count();
    t.max_turns = s.max_turns + 20 * calls + 50;
    let b = run_vm(&t, &VmOpts { budget: o.budget + 100_000, ..o })?;
    if !b.idle { return Err("a slower host keeps the script from ending".into()) }
    let strip = |v: &[Ev]| -> Vec<Ev> { v.iter().filter(|e| !matches!(e, Ev::Yield | Ev::Mark(_) | Ev::Pause)).cloned().collect() };
    diff_trace(&strip(&a.trace), &strip(&b.trace), "one host", "another host")?;
    for ((k, x), (_, y)) in a.finals.iter().zip(&b.finals) { if x != y && k != "timer" && !k.starts_with("watch") { return Err(format!("final state {k}: {x} with one host, {y} with another")) } }
    Ok(())
}

// ---------------------------------------------------------------- C25 isolation
const APART: Prof = Prof {
    stmts: &[(Obs, 8), (AddAssign, 6), (Assign, 6), (Declare, 5), (Repeat, 6), (For, 4), (Foreach, 3), (Fork, 4), (CallFn, 5), (CallRing, 3), (Try, 5), (Fail, 2), (Throw, 1), (Ask, 2), (Rpc, 2), (SoftErr, 3), (Syscall, 2), (Warp, 3), (ListMut, 4), (RingDef, 3), (Prop, 2), (StopThis, 1), (Return, 1), (StopBlock, 1), (Send, 1), (Costume, 1)],
    sprites: (1, 3), scripts: (1, 3), fns: (0, 3), call: 5, ring: 5, hof: 3, host: 4, prop: 2, ents: 0, size: 10, nest: 3, depth: 2, latency: true, soft: true, wild: 0, time: 0, shared_vars: 60, hats: &[(HK::Flag, 8), (HK::Key, 2)], events: &[(EK::Key, 2), (EK::Start, 1)], n_events: (0, 2), event_span: 4, turns: 500, ..BASE
};
/// Every sprite gets variables of its own, so that no two sprites share anything.
fn disjoint(s: &mut Setup) {
    fn plain(v: &mut AV) { if let AV::List(xs, id) = v { *id = None; for x in xs { plain(x); } } }
    let gs = std::mem::take(&mut s.role.globals);
    for e in &mut s.role.entities {
        for x in &gs { if !e.fields.iter().any(|f| f.def.name == x.def.name) { e.fields.push(x.clone()); } }
        for x in &mut e.fields { plain(&mut x.init); }
    }
    s.latency.truncate(1);
    s.replies.truncate(1);
}
/// The values under the given names, with identities numbered among themselves.
fn renumber(f: &[(String, Snap)], pre: &str) -> Vec<(String, Snap)> {
    fn go(x: &Snap, ids: &mut BTreeMap<usize, usize>) -> Snap {
        let mut id = |k: &usize| { let n = ids.len(); *ids.entry(*k).or_insert(n) };
        match x {
            Snap::Image { name, content, center, id: k } => Snap::Image { name: name.clone(), content: content.clone(), center: *center, id: id(k) },
            Snap::Audio { name, content, id: k } => Snap::Audio { name: name.clone(), content: content.clone(), id: id(k) },
            Snap::List(k, v) => { let n = id(k); Snap::List(n, v.iter().map(|y| go(y, ids)).collect()) }
            Snap::Back(k) => Snap::Back(id(k)),
            Snap::Closure(k) => Snap::Closure(id(k)),
            y => y.clone(),
        }
    }
    let mut ids = BTreeMap::new();
    f.iter().filter(|x| x.0.starts_with(pre)).map(|x| (x.0.clone(), go(&x.1, &mut ids))).collect()
}
fn of_ent(t: &[Ev], k: u32) -> Vec<Ev> { t.iter().filter(|e| match e { Ev::Print { ent, .. } | Ev::Request { ent, .. } | Ev::Command { ent, .. } | Ev::Done { ent, .. } | Ev::Fail { ent, .. } => *ent == k, _ => false }).cloned().collect() }
pub fn c25_apart(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &APART);
    disjoint(&mut s);
    // events would come at other moments of the shorter runs: only the first ones are given
    s.acts.retain(|a| a.0 == 0);
    cx.sample(|| show(&s));
    let Some((m, mut o)) = bounded(&mut s, cx) else { return Ok(()) };
    if !m.idle { cx.label("did not end in time"); return Ok(()) }
    o.plain_seq = true;
    let all = run_vm(&s, &o)?;
    if !all.idle { return Ok(()) }
    let with: Vec<usize> = (0..s.role.entities.len()).filter(|i| !of_ent(&all.trace, *i as u32).is_empty()).collect();
    cx.nt_if(with.len() > 1 && m.stats.yields > 2);
    for k in with {
        let mut t = s.clone();
        for (i, e) in t.role.entities.iter_mut().enumerate() { if i != k { e.scripts.clear(); } }
        let one = run_vm(&t, &o)?;
        if !one.idle { return Err(format!("alone, the scripts of sprite {k} do not end")) }
        diff_trace(&of_ent(&one.trace, k as u32), &of_ent(&all.trace, k as u32), "alone", "with the others").map_err(|e| format!("sprite {k}: {e}"))?;
        let pre = format!("e{k} ");
        for ((n, x), (_, y)) in renumber(&one.finals, &pre).iter().zip(&renumber(&all.finals, &pre)) { if x != y { return Err(format!("final state {n}: {x} alone, {y} with the others")) } }
    }
    Ok(())
}
/// Two projects in the same arena, from the same or different programs, in any interleaving: each does what it does alone.
pub fn c25_projects(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let p = Prof { turns: 120, ..ALL };
    let mut a = project(g, &p);
    let same = g.bool();
    let mut b = if same { let mut b = a.clone(); b.acts = history(g, &p); b } else { project(g, &p) };
    let (Some((_, oa)), Some((_, ob))) = (bounded(&mut a, cx), bounded(&mut b, cx)) else { return Ok(()) };
    // a third one that only starts
    let mut c = b.clone();
    c.acts = vec![(0, Act::Start)];
    let Some((_, oc)) = bounded(&mut c, cx) else { return Ok(()) };
    let cc = compile(&c.role)?;
    cx.sample(|| format!("{}\nand\n{}", show(&a), show(&b)));
    let (ca, cb) = (compile(&a.role)?, compile(&b.role)?);
    let (code_a, code_b) = { let x = Rc::new(ca.0); let y = if same { x.clone() } else { Rc::new(cb.0) }; (x, y) };
    let alone_a = run_vm_code(&a, &oa, code_a.clone(), &ca.1, &ca.2, settings(a.set))?;
    let alone_b = run_vm_code(&b, &ob, code_b.clone(), &cb.1, &cb.2, settings(b.set))?;
    cx.nt_if(alone_a.trace.len() > 6 && alone_b.trace.len() > 6);
    // interleaved; the numbers given to sprites and processes are kept apart
    let mut r = g.rng();
    let mut ids = [(0, 0), (0, 0)];
    set_ids((0, 0));
    let mut ra = VmRun::new(&a, &oa, code_a, &ca.1, settings(a.set));
    ids[0] = get_ids();
    set_ids((0, 0));
    let mut rb = VmRun::new(&b, &ob, code_b, &cb.1, settings(b.set));
    ids[1] = get_ids();
    // both live in one arena
    let one = g.bool();
    let sys_c = VmRun::host(&c, &oc);
    if one { ra.arena.mutate_root(|mc, root| { let p = Gc::new(mc, RefLock::new(Project::from_init(mc, &cc.1, Rc::new(cc.0), settings(c.set), sys_c.clone()))); p.borrow_mut(mc).input(mc, Input::Start); root.other = Some(p); }); }
    let mut tc = 0;
    let (mut ma, mut mb) = (true, true);
    while ma || mb {
        let first = ma && (!mb || r.next() % 2 == 0);
        if one && tc < c.max_turns && r.next() % 3 == 0 {
            set_ids((1000, 1000));
            sys_c.st.borrow_mut().now += c.ticks[tc % c.ticks.len()];
            tc += 1;
            let over: bool = ra.arena.mutate(|mc, root| { let o = root.other.unwrap(); for _ in 0..oc.budget { if !matches!(o.borrow_mut(mc).step(mc), ProjectStep::Normal | ProjectStep::Watcher { .. } | ProjectStep::Pause) { return true } } false });
            if !over { return Err(TOO_LONG.into()) }
        }
        let k = if first { 0 } else { 1 };
        set_ids(ids[k]);
        if first { ma = ra.turn(&a, &oa, &ca.2)?; if r.next() % 5 == 0 { gc_point(&mut ra.arena, &mut r); } } else { mb = rb.turn(&b, &ob, &cb.2)?; }
        ids[k] = get_ids();
    }
    same_out(&alone_a, &ra.finish(), "the first project alone", "the first project beside another")?;
    same_out(&alone_b, &rb.finish(), "the second project alone", "the second project beside another")
}

// ---------------------------------------------------------------- C27 collection
const GCP: Prof = Prof { turns: 150, size: 12, ring: 6, call: 5, clone: 4, wild: 4, ..ALL };
pub fn c27_same(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &GCP);
    let mut r = g.rng();
    cx.sample(|| show(&s));
    let Some((m, o)) = bounded(&mut s, cx) else { return Ok(()) };
    let a = run_vm(&s, &o)?;
    cx.nt_if(a.steps > 30 && m.trace.len() > 8);
    let modes = [if a.steps < 1500 { GcMode::EveryStep } else { GcMode::EveryTurn }, GcMode::Random(r.next())];
    for gc in modes {
        let b = run_vm(&s, &VmOpts { gc, ..o.clone() })?;
        same_out(&a, &b, "without collection", &format!("with collection {gc:?}"))?;
    }
    Ok(())
}
/// One piece of work that leaves garbage behind and keeps a bounded amount alive.
fn litter(g: &mut Gen, i: usize) -> Vec<Stmt> {
    let v = g.pickc(&["v1", "v2", "f1"]);
    let x = format!("x{i}");
    let k = g.below(32);
    let forked = |b: Vec<Stmt>| { let mut v = vec![declare(&["y"]), assign("y", list(vec![num(1.0), list(vec![txt("some text that is longer than the inline size")])]))]; v.extend(b); vec![st(S::ForkClosure { closure: Box::new(ring(&[], &[], v)), args: vec![] })] };
    let cyc = |x: &str| vec![declare(&[x]), assign(x, list(vec![num(1.0)])), st(S::ListInsertLast { list: Box::new(var(x)), value: Box::new(var(x)) })];
    match k {
        0 => vec![assign(v, list(vec![num(1.0), list(vec![txt("some text that is longer than the inline size"), num(2.0)])]))],
        1 => { let mut b = cyc(&x); b.push(assign(v, var(&x))); b }
        2 => cyc(&x),
        3 => vec![declare(&[&x]), assign(&x, num(1.0)), assign(v, ring_e(&["p"], &[&x], add(var(&x), var("p"))))],
        // a ring that captures the variable it is stored in
        4 => vec![declare(&[&x]), assign(&x, ring(&[], &[&x], vec![ret(var(&x))])), st(S::CallClosure { new_entity: None, closure: Box::new(var(&x)), args: vec![] })],
        5 => vec![declare(&[&x]), assign(&x, list(vec![])), st(S::ListInsertLast { list: Box::new(var(&x)), value: Box::new(ring_e(&[], &[&x], var(&x))) }), assign(v, var(&x))],
        6 => vec![st(S::Clone { target: Box::new(ex(E::This)) })],
        7 => vec![st(S::SendLocalMessage { target: None, msg_type: Box::new(txt("work")), wait: true })],
        8 => vec![st(S::SendLocalMessage { target: None, msg_type: Box::new(txt("work")), wait: false })],
        9 => vec![st(S::ForkClosure { closure: Box::new(ring(&[], &[], vec![declare(&["y"]), assign("y", list(vec![num(1.0)]))])), args: vec![] })],
        10 => vec![st(S::TryCatch { code: vec![declare(&[&x]), assign(&x, list(vec![num(3.0)])), st(S::Throw { error: Box::new(txt("oops")) })], var: vref("err"), handler: vec![] })],
        11 => vec![st(S::TryCatch { code: vec![st(S::CallFn { function: fnref("boom"), args: vec![num(5.0)], upvars: vec![] })], var: vref("err"), handler: vec![assign(v, var("err"))] })],
        12 => vec![assign(v, ex(E::CallRpc { host: None, service: "svc".into(), rpc: "echo".into(), args: vec![("a".into(), list(vec![num(1.0)]))] }))],
        13 => vec![st(S::Ask { prompt: Box::new(txt("what is it")) })],
        14 => vec![assign(v, ex(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt("echo"), list(vec![num(1.0)])] }))],
        15 => vec![assign(v, ex(E::Map { f: Box::new(ring_e(&["n"], &[], list(vec![var("n")]))), list: Box::new(ex(E::Range { start: Box::new(num(1.0)), stop: Box::new(num(5.0)) })) }))],
        16 => vec![st(S::Say { content: Box::new(list(vec![num(1.0)])), duration: None })],
        17 => vec![assign(v, ex(E::StrCat { values: Box::new(list(vec![txt("a long text that does not fit inline "), ex(E::StrCat { values: Box::new(list(vec![txt("another long text here "), num(7.0)])) })])) }))],
        18 => vec![st(S::Warp { stmts: vec![st(S::Repeat { times: Box::new(num(3.0)), stmts: vec![assign(v, list(vec![var(v)])), assign(v, num(1.0))] })] })],
        19 => vec![assign(v, ex(E::CallFn { function: fnref("make"), args: vec![num(3.0)], upvars: vec![] }))],
        20 => vec![st(S::SendNetworkMessage { target: Box::new(txt("someone")), msg_type: "net1".into(), values: vec![("a".into(), list(vec![num(1.0)]))] })],
        21 => vec![assign(v, list(vec![])), st(S::ListInsertLast { list: Box::new(var(v)), value: Box::new(list(vec![num(1.0)])) }), st(S::ListRemoveAll { list: Box::new(var(v)) }), st(S::ListInsertLast { list: Box::new(var(v)), value: Box::new(ex(E::This)) })],
        22 => vec![st(S::ForeachLoop { var: vref("it"), items: Box::new(list(vec![list(vec![num(1.0)]), list(vec![num(2.0)])])), stmts: vec![assign(v, var("it"))] })],
        23 => forked(vec![st(S::Stop { mode: ast::StopMode::ThisScript })]),
        24 => forked(vec![st(S::Throw { error: Box::new(var("y")) })]),
        25 => forked(vec![st(S::Sleep { seconds: Box::new(num(0.01)) }), if g.bool() { ret(var("y")) } else { st(S::Stop { mode: ast::StopMode::ThisScript }) }]),
        26 => forked(vec![st(S::Repeat { times: Box::new(num(2.0)), stmts: vec![st(S::Stop { mode: ast::StopMode::ThisBlock })] })]),
        27 => vec![st(S::SendLocalMessage { target: None, msg_type: Box::new(txt(g.pickc(&["stop", "fall"]))), wait: g.bool() })],
        28 => vec![assign(v, ex(E::CallFn { function: fnref("leave"), args: vec![list(vec![num(3.0)])], upvars: vec![] }))],
        29 => forked(vec![st(S::TryCatch { code: vec![st(S::Stop { mode: ast::StopMode::ThisScript })], var: vref("err"), handler: vec![] })]),
        30 => forked(vec![st(S::CallFn { function: fnref("quit"), args: vec![var("y")], upvars: vec![] })]),
        _ => vec![st(S::SetCostume { costume: Box::new(txt("c1")) }), st(S::SetX { value: Box::new(num(3.0)) }), st(S::PlaySound { sound: Box::new(txt("s1")), blocking: true })],
    }
}
pub fn c27_memory(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = 1 + g.below(4);
    let mut body: Vec<Stmt> = (0..n).flat_map(|i| litter(g, i)).collect();
    body.push(st(S::AddAssign { var: vref("n1"), value: Box::new(num(1.0)) }));
    let mut r = role(vec![entity("Stage"), entity("Ann")]);
    r.globals = vec![init("v1", AV::Number(0.0)), init("v2", AV::Number(0.0)), init("n1", AV::Number(0.0))];
    let work = vec![declare(&["y"]), assign("y", list(vec![num(1.0)])), st(S::ListInsertLast { list: Box::new(var("y")), value: Box::new(var("y")) })];
    // every received message is answered, or not
    let reply = g.bool();
    let fails = g.chance(1, 3);
    let stay = g.chance(1, 4);
    // rings launched for ever, ended from time to time by a stop event, or by a stop block of the script, which may end itself as well
    let stops = if g.chance(1, 3) { 1 + g.below(3) } else { 0 };
    if stops > 0 {
        body.retain(|x| !matches!(x.kind, S::Clone { .. })); // a clone whose scripts are stopped would stay
        let spin = if g.bool() { vec![] } else { vec![st(S::Sleep { seconds: Box::new(num(100.0)) })] };
        body.push(st(S::ForkClosure { closure: Box::new(ring(&[], &[], vec![declare(&["x"]), assign("x", list(vec![num(1.0); 9])), st(S::InfLoop { stmts: spin })])), args: vec![] }));
        if stops > 1 {
            let rest = ex(E::Mod { left: Box::new(var("n1")), right: Box::new(num(16.0)) });
            body.push(st(S::If { condition: Box::new(ex(E::Eq { left: Box::new(rest), right: Box::new(num(0.0)) })), then: vec![st(S::Stop { mode: if stops == 2 { ast::StopMode::AllButThisScript } else { ast::StopMode::All } })] }));
        }
    }
    for e in &mut r.entities {
        e.fields = vec![init("f1", AV::Number(0.0))];
        e.costumes = vec![init("c1", AV::Image(Rc::new((vec![1, 2, 3], None, "c1".into()))))];
        e.sounds = vec![init("s1", AV::Audio(Rc::new((vec![1, 2], "s1".into()))))];
        e.scripts.push(script(H::LocalMessage { msg_type: Some("work".into()) }, work.clone()));
        for (m, end) in [("stop", st(S::Stop { mode: ast::StopMode::ThisScript })), ("fall", st(S::Throw { error: Box::new(var("y")) }))] { let mut b = work.clone(); b.push(end); e.scripts.push(script(H::LocalMessage { msg_type: Some(m.into()) }, b)); }
        if stay { // clones that live for a while, with another script of theirs still running when they go
            e.scripts.push(script(H::OnClone, vec![st(S::InfLoop { stmts: vec![assign("f1", list(vec![ex(E::This)]))] })]));
            e.scripts.push(script(H::OnClone, vec![assign("v1", ex(E::This)), st(S::Sleep { seconds: Box::new(num(0.03)) }), st(S::DeleteClone)]));
        } else { e.scripts.push(script(H::OnClone, vec![assign("f1", list(vec![ex(E::This)])), assign("v1", ex(E::This)), st(S::DeleteClone)])); }
        let mut net = work.clone();
        if reply { net.push(st(S::SendNetworkReply { value: Box::new(num(1.0)) })); }
        if fails { net.push(st(S::Throw { error: Box::new(txt("no")) })); }
        e.scripts.push(script(H::NetworkMessage { msg_type: "net1".into(), fields: vec![vref("a")] }, net));
        e.scripts.push(script(H::OnKey { key: "a".into() }, if fails { vec![assign("v2", list(vec![num(1.0)])), st(S::Throw { error: Box::new(list(vec![])) })] } else { work.clone() }));
        e.scripts.push(script(H::Unknown { name: "ev".into(), fields: vec![vref("a")] }, vec![assign("v2", var("a")), st(S::Sleep { seconds: Box::new(num(0.02)) })]));
    }
    r.funcs.push(func("boom", &["p"], vec![declare(&["z"]), assign("z", list(vec![var("p")])), st(S::Throw { error: Box::new(txt("boom")) })]));
    r.funcs.push(func("quit", &["p"], vec![declare(&["z"]), assign("z", list(vec![var("p")])), st(S::Stop { mode: ast::StopMode::ThisScript })]));
    r.funcs.push(func("leave", &["p"], vec![st(S::ForeachLoop { var: vref("it"), items: Box::new(var("p")), stmts: vec![st(S::TryCatch { code: vec![st(S::Warp { stmts: vec![ret(list(vec![var("it")]))] })], var: vref("err"), handler: vec![] })] })]));
    r.funcs.push(func("make", &["p"], vec![declare(&["z"]), assign("z", ring_e(&[], &["p", "z"], list(vec![var("p"), var("z")]))), ret(var("z"))]));
    let first = g.below(2);
    r.entities[first].scripts.insert(0, script(H::OnFlag, vec![st(S::InfLoop { stmts: body })]));
    let mut s = Setup::new(r);
    let lat = g.below(3) as u32;
    s.latency = vec![lat];
    s.set.max_call_depth = 50;
    s.set.soft_rpc = g.bool();
    let (keys, evs, nets) = (g.chance(1, 3), g.below(3), g.chance(1, 3));
    let debt = stops != 1 && g.chance(1, 4);
    cx.sample(|| format!("{}keys {keys} events {evs} messages {nets} debt {debt} stops {stops}", show(&s)));
    let (code, initi, locs) = compile(&s.role)?;
    let o = VmOpts::default();
    s.acts.clear();
    reset_ids();
    let mut run = VmRun::new(&s, &o, Rc::new(code), &initi, settings(s.set));
    run.arena.mutate(|mc, root| root.proj.unwrap().borrow_mut(mc).input(mc, Input::Start));
    let (warm, total) = (1200usize, 6000usize);
    let (mut early, mut late) = (i64::MAX, i64::MAX);
    let (mut early_max, mut late_max) = (0, 0);
    let base = live();
    for t in 0..total {
        run.sys.st.borrow_mut().now += 10;
        let mut err = None;
        run.arena.mutate_root(|mc, root| {
            let p = root.proj.unwrap();
            let mut p = p.borrow_mut(mc);
            if keys && t % 7 == 0 { p.input(mc, Input::KeyDown { key: KeyCode::Char('a') }); }
            if evs > 0 && t % 5 == 0 { p.input(mc, Input::CustomEvent { name: "ev".into(), args: [("a".into(), SimpleValue::List(vec![SimpleValue::Bool(true)]))].into_iter().collect(), interrupt: evs == 2, max_queue: 3 }); }
            if nets && t % 20 == 0 { run.sys.st.borrow_mut().inbox.push_back(incoming("net1", &[("a".into(), Snap::List(0, vec![Snap::n(1.0)]))], &if reply { Some(("src".into(), "req".into())) } else { None })); }
            let mut idle = false;
            for k in 0..2000 { match p.step(mc) { ProjectStep::Normal => (), x => { idle = matches!(x, ProjectStep::Idle); break } } if k == 1999 { err = Some("a turn does not end".to_string()); } }
            if idle && stops == 3 { p.input(mc, Input::Start); }
            if stops == 1 && t % 40 == 0 { p.input(mc, Input::Stop); if !matches!(p.step(mc), ProjectStep::Idle) { err = Some("something still runs after a stop event".to_string()); } }
        });
        if let Some(e) = err { return Err(e) }
        { let mut st = run.sys.st.borrow_mut(); st.trace.clear(); st.pending_replies.clear(); }
        if debt { run.arena.collect_debt(); } else if t % 40 == 0 { run.arena.collect_all(); run.arena.collect_all(); }
        let (e, l) = (t >= warm / 2 && t < warm, t >= total - warm / 2);
        if debt { let x = live() - base; if e { early_max = early_max.max(x); } if l { late_max = late_max.max(x); } }
        else if t % 40 == 0 { let x = live() - base; if e { early = early.min(x); } if l { late = late.min(x); } }
        if stops == 1 && t % 40 == 0 { run.arena.mutate(|mc, root| root.proj.unwrap().borrow_mut(mc).input(mc, Input::Start)); }
    }
    let _ = locs;
    let turns = run.arena.mutate(|_, root| match root.proj.unwrap().borrow().get_global_context().borrow().globals.lookup("n1") { Some(v) => match &*v.get() { Value::Number(x) => x.get(), _ => 0.0 }, None => 0.0 });
    cx.nt_if(turns > 100.0);
    cx.label_if(debt, "paced collection");
    cx.label_if(stops > 0, "stopped again and again");
    cx.label_if(stay, "clones that stay for a while");
    if debt { if late_max > 3 * early_max + 300_000 { return Err(format!("the memory in use grows from at most {early_max} to at most {late_max} bytes after {turns} rounds that leave nothing behind")) } }
    else if late > early + if stops > 1 { 60_000 } else { 3000 } { return Err(format!("the memory in use after collection grows from {early} to {late} bytes after {turns} rounds that leave nothing behind")) }
    Ok(())
}

/// A literal with the given initial value.
fn literal(name: &str, v: &AV) -> Expr {
    fn go(v: &AV) -> Option<Expr> { Some(match v { AV::List(xs, None) => list(xs.iter().map(go).collect::<Option<Vec<_>>>()?), AV::Number(_) | AV::String(_) | AV::Bool(_) => ex(E::Value(v.clone())), _ => return None }) }
    go(v).unwrap_or_else(|| match ty_of(name) { Ty::L | Ty::M => list(vec![]), _ => num(0.0) })
}
pub const ENDLESS: Prof = Prof {
    stmts: &[(Obs, 6), (Assign, 8), (AddAssign, 3), (Say, 3), (If, 4), (IfElse, 4), (Repeat, 4), (For, 5), (Foreach, 5), (Until, 2), (Warp, 3), (Try, 5), (Throw, 1), (CallFn, 4), (CallRing, 5), (Wait, 1), (WaitUntil, 1), (Broadcast, 3), (BroadcastWait, 3), (ListMut, 5), (Declare, 4), (Watch, 2), (Ask, 3), (Prop, 4), (Rpc, 4), (Syscall, 4), (Send, 2), (Costume, 2), (Sound, 2), (Notes, 1), (TimerReset, 1), (Fail, 2), (RingDef, 3), (SoftErr, 1)],
    sprites: (0, 1), scripts: (1, 2), fns: (0, 2), size: 8, call: 4, ring: 4, hof: 4, host: 4, prop: 3, ents: 2, clone: 0, time: 1, netreply: 1, fail: 2, wild: 0, soft: true, latency: true, n_events: (0, 0), events: &[(EK::Start, 1)], hats: &[(HK::Flag, 8), (HK::Message, 4)], ..BASE
};
/// A random script body repeated for ever, everything it may write set back at the start of each round.
pub fn c27_endless(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &ENDLESS);
    // rounds that do not end soon or pile something up by themselves are left out
    if run_model(&Setup { fuel: 6_000, ..s.clone() }).is_none() { cx.label("discarded (budget)"); return Ok(()) }
    s.role.entities.push(entity("Plain"));
    let mut own = vec![st(S::ResetTimer)];
    for (name, vars) in s.role.entities.iter().map(|e| (e.name.clone(), &e.fields)).chain([("Plain".into(), &s.role.globals)]) {
        let body = vars.iter().map(|x| assign(&x.def.name, literal(&x.def.name, &x.init))).collect();
        own.push(st(S::CallClosure { new_entity: Some(Box::new(ex(E::Entity { name: name.clone(), trans_name: name }))), closure: Box::new(ring(&[], &[], body)), args: vec![] }));
    }
    s.role.globals.push(init("rounds", AV::Number(0.0)));
    let mut first = true;
    for e in &mut s.role.entities {
        for sc in &mut e.scripts {
            let mut body = own.clone();
            body.append(&mut sc.stmts);
            sc.stmts = body;
            if first && matches!(sc.hat.as_ref().map(|h| &h.kind), Some(H::OnFlag)) {
                first = false;
                let code = std::mem::take(&mut sc.stmts);
                sc.stmts = vec![st(S::InfLoop { stmts: vec![if g.chance(2, 3) { st(S::TryCatch { code, var: vref("err"), handler: vec![] }) } else { st(S::Repeat { times: Box::new(num(1.0)), stmts: code }) }, st(S::AddAssign { var: vref("rounds"), value: Box::new(num(1.0)) })] })];
            }
        }
    }
    cx.sample(|| show(&s));
    let (code, initi, locs) = compile(&s.role)?;
    let _ = locs;
    let o = VmOpts { plain_seq: true, ..VmOpts::default() };
    reset_ids();
    let mut run = VmRun::new(&s, &o, Rc::new(code), &initi, settings(s.set));
    run.sys.st.borrow_mut().overrides.answer = Some(Box::new(|kind, name, _, _| match (kind, name) { // nothing that piles up
        ("syscall", "mark") => Some(HostAns::Val(SimpleValue::List(vec![]))),
        ("ask", _) => Some(HostAns::Val(SimpleValue::Text("a text that is longer than fits inline".into()))),
        ("syscall", "fail") | ("rpc", "svc.fail") => Some(HostAns::Soft("a reason that is longer than fits inline".into())),
        _ => None,
    }));
    run.arena.mutate(|mc, root| root.proj.unwrap().borrow_mut(mc).input(mc, Input::Start));
    let rounds_of = |run: &VmRun| run.arena.mutate(|_, root| match root.proj.unwrap().borrow().get_global_context().borrow().globals.lookup("rounds") { Some(v) => match &*v.get() { Value::Number(x) => x.get(), _ => 0.0 }, None => 0.0 });
    let (early_from, early_to, late_from, late_to) = (150.0, 220.0, 600.0, 700.0);
    let (mut early, mut late) = (i64::MAX, i64::MAX);
    let base = live();
    let mut steps = 0usize;
    let mut t = 0usize;
    let (mut seen, mut rounds) = (0usize, 0.0);
    while rounds < late_to && steps < 1_500_000 && t < 40_000 && !(t == 3000 && rounds < 50.0) {
        t += 1;
        run.sys.st.borrow_mut().now += 10;
        let mut ended = false;
        run.arena.mutate_root(|mc, root| {
            let p = root.proj.unwrap();
            let mut p = p.borrow_mut(mc);
            loop { steps += 1; if steps > 1_500_000 { break } match p.step(mc) { ProjectStep::Normal | ProjectStep::Watcher { .. } => (), ProjectStep::Idle => { ended = true; break } _ => break } }
        });
        { let mut st = run.sys.st.borrow_mut(); st.trace = vec![]; let sent = st.sent; st.pending_replies.retain(|k, x| !x.2 && k.strip_prefix("out-").and_then(|n| n.parse::<usize>().ok()).is_none_or(|n| n + 30 > sent)); }
        if ended { break }
        if live() - base > 8_000_000 { cx.label("discarded (budget)"); return Ok(()) }
        rounds = rounds_of(&run);
        let (e, l) = (rounds >= early_from && rounds < early_to, rounds >= late_from);
        if (e || l) && (rounds as usize / 2 != seen || t % 16 == 0) { seen = rounds as usize / 2; run.arena.collect_all(); run.arena.collect_all(); let x = live() - base; if e { early = early.min(x) } else { late = late.min(x) } }
        else if t % 64 == 0 { run.arena.collect_all(); }
    }
    let full = rounds >= late_to;
    cx.nt_if(full);
    if full && late > early + 3000 { return Err(format!("the memory in use after collection grows from {early} to {late} bytes between rounds {early_from} and {late_to} of a loop that leaves nothing behind")) }
    Ok(())
}

// ---------------------------------------------------------------- C32 registers
const NUMS: &[Property] = &[Property::XPos, Property::YPos, Property::Heading, Property::Size, Property::PenSize, Property::PenColorH, Property::PenColorS, Property::PenColorV, Property::PenColorT, Property::Tempo, Property::Volume, Property::Balance, Property::ColorH, Property::ColorS, Property::ColorV, Property::ColorT, Property::Fisheye, Property::Whirl, Property::Pixelate, Property::Mosaic, Property::Negative];
/// What a register does to a value it is given.
fn settle(p: Property, v: f64) -> Option<f64> {
    use Property::*;
    if !v.is_finite() { return None }
    Some(match p {
        Heading | PenColorH | ColorH => { let r = v % 360.0; let r = if r < 0.0 { r + 360.0 } else { r }; if r >= 360.0 { 0.0 } else { r } }
        Size | PenSize => if v < 0.0 { 0.0 } else { v },
        PenColorS | PenColorV | PenColorT | ColorS | ColorV | ColorT => if v < 0.0 { 0.0 } else if v > 100.0 { 100.0 } else { v },
        _ => v,
    })
}
fn angle_near(a: f64, b: f64) -> bool { let d = (a - b).abs() % 360.0; d.min(360.0 - d) < 1e-6 }
fn hsv_rgb(h: f64, s: f64, v: f64) -> [f64; 3] { let f = |n: f64| { let k = (n + h / 60.0) % 6.0; v - v * s * k.min(4.0 - k).clamp(0.0, 1.0) }; [f(5.0) * 255.0, f(3.0) * 255.0, f(1.0) * 255.0] }
fn reg_value(g: &mut Gen) -> f64 { match g.below(8) { 0 => g.range(-800, 800) as f64, 1 => g.range(-4000, 4000) as f64 / 8.0, 2 => g.pickc(&[0.0, 360.0, -360.0, 359.999999, 360.000001, -1e-12, 1e-12, -1e-300, 100.0, 100.5, -0.5, 720.0, 90.0, 180.0, 270.0, 450.0]), 3 => crate::gens::finite(g), 4 => g.pickc(&[1e308, -1e308, f64::MAX, -f64::MAX, 1e17]), 5 => g.range(0, 100) as f64, 6 => g.range(-20, 20) as f64, _ => g.below(400) as f64 } }
pub fn c32_registers(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut p = Properties::default();
    let mut reg: BTreeMap<String, f64> = BTreeMap::new();
    for k in NUMS { reg.insert(format!("{k:?}"), get_num(&p, *k)?); }
    let flag = |p: &Properties, k| get_prop(p, k).map(|x| matches!(x, SimpleValue::Bool(true)));
    let (mut visible, mut pen) = (flag(&p, Property::Visible)?, flag(&p, Property::PenDown)?);
    let n = 1 + g.below(30);
    let mut log = vec![];
    for _ in 0..n {
        let name = |k: &Property| format!("{k:?}");
        let before = reg.clone();
        let mut loose: Vec<&str> = vec![];
        let (what, res, want): (String, Result<(), String>, bool);
        match g.below(12) {
            0..=2 => { let k = *g.pick(NUMS); let v = reg_value(g); let textual = g.chance(1, 6); what = format!("set {k:?} {v:?}"); let val: Val = if textual { Text::from(format!("{v:?}").as_str()).into() } else { Number::new(v).unwrap().into() }; res = set_prop(&mut p, k, val); match settle(k, v) { Some(x) => { reg.insert(name(&k), x); want = true } None => want = false } }
            3..=5 => { let k = *g.pick(NUMS); let v = reg_value(g); what = format!("change {k:?} {v:?}"); res = change_prop(&mut p, k, Number::new(v).unwrap().into()); match settle(k, reg[&name(&k)] + v) { Some(x) => { reg.insert(name(&k), x); want = true } None => want = false } }
            6 => { let b = g.bool(); let vis = g.bool(); let ch = g.bool(); what = format!("{} {} {b}", if ch { "change" } else { "set" }, if vis { "visible" } else { "pen down" }); let k = if vis { Property::Visible } else { Property::PenDown }; let r = if vis { &mut visible } else { &mut pen }; res = if ch { *r ^= b; change_prop(&mut p, k, b.into()) } else { *r = b; set_prop(&mut p, k, b.into()) }; want = true }
            7 => { // values that are not numbers or not truth values
                let k = if g.chance(1, 4) { g.pickc(&[Property::Visible, Property::PenDown]) } else { *g.pick(NUMS) };
                let flag = matches!(k, Property::Visible | Property::PenDown);
                let val: Val = if flag { g.pickc(&["", "x"]); Number::new(1.0).unwrap().into() } else { match g.below(3) { 0 => true.into(), 1 => Text::from("abc").into(), _ => Text::from("").into() } };
                what = format!("bad value for {k:?}"); res = if g.bool() { set_prop(&mut p, k, val) } else { change_prop(&mut p, k, val) }; want = false
            }
            8 => { let d = reg_value(g); what = format!("forward {d:?}"); res = motion(|c| p.perform_forward::<C, Sys>(c, Number::new(d).unwrap())); let h = before["Heading"].to_radians(); let (x, y) = (before["XPos"] + d * h.sin(), before["YPos"] + d * h.cos()); want = x.is_finite() && y.is_finite(); if want { reg.insert("XPos".into(), x); reg.insert("YPos".into(), y); loose = vec!["XPos", "YPos"]; } }
            9 => { let (x, y) = (reg_value(g), reg_value(g)); what = format!("go to {x:?} {y:?}"); res = motion(|c| p.perform_goto_xy::<C, Sys>(c, Number::new(x).unwrap(), Number::new(y).unwrap())); want = true; reg.insert("XPos".into(), x); reg.insert("YPos".into(), y); }
            10 => { // pointing, and going there
                let (x, y) = if g.chance(1, 8) { (before["XPos"], before["YPos"]) } else { (g.range(-300, 300) as f64, g.range(-300, 300) as f64) };
                what = format!("point to {x:?} {y:?}"); res = motion(|c| p.perform_point_towards_xy::<C, Sys>(c, Number::new(x).unwrap(), Number::new(y).unwrap())); want = true;
                let (dx, dy) = (x - before["XPos"], y - before["YPos"]);
                let h = dx.atan2(dy).to_degrees();
                if h.is_finite() && dx.is_finite() && dy.is_finite() { reg.insert("Heading".into(), if h < 0.0 { h + 360.0 } else { h }); loose = vec!["Heading"]; } else { let h = p.heading.get(); reg.insert("Heading".into(), h); }
                let d = dx.hypot(dy);
                if d.is_finite() && d < 1e6 {
                    let mut q = p; motion(|c| q.perform_forward::<C, Sys>(c, Number::new(d).unwrap()))?;
                    if (q.pos.0.get() - x).abs() > 1e-6 * (1.0 + d) || (q.pos.1.get() - y).abs() > 1e-6 * (1.0 + d) { return Err(format!("{log:?}: pointing from {:?} to {:?} and going forward {d} ends at {:?}", (before["XPos"], before["YPos"]), (x, y), q.pos)) }
                }
            }
            _ => { what = "clear effects".into(); res = motion(|c| p.perform_clear_effects::<C, Sys>(c)); want = true; for k in ["ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"] { reg.insert(k.into(), 0.0); } }
        }
        log.push(what.clone());
        if res.is_ok() != want { return Err(format!("{log:?}: {what} gave {res:?}")) }
        for k in NUMS {
            let (got, exp) = (get_num(&p, *k)?, reg[&name(k)]);
            let ok = if loose.contains(&name(k).as_str()) { if matches!(k, Property::Heading) { angle_near(got, exp) } else { (got - exp).abs() <= 1e-9 * (1.0 + exp.abs() + before[&name(k)].abs() + (got - before[&name(k)]).abs()) } } else { got == exp };
            if !ok { return Err(format!("{log:?}: {k:?} is {got:?}, expected {exp:?}")) }
            if !loose.is_empty() { reg.insert(name(k), got); }
            let inside = match k { Property::Heading | Property::PenColorH | Property::ColorH => (0.0..360.0).contains(&got), Property::Size | Property::PenSize => got >= 0.0, Property::PenColorS | Property::PenColorV | Property::PenColorT | Property::ColorS | Property::ColorV | Property::ColorT => (0.0..=100.0).contains(&got), _ => got.is_finite() };
            if !inside { return Err(format!("{log:?}: {k:?} is {got:?}, outside of its range")) }
        }
        for (k, e) in [(Property::Visible, visible), (Property::PenDown, pen)] { if !matches!(get_prop(&p, k)?, SimpleValue::Bool(x) if x == e) { return Err(format!("{log:?}: {k:?} is not {e}")) } }
        // the pen's colour is the one its components spell
        let c = get_num(&p, Property::PenColor)? as u32;
        let want = hsv_rgb(reg["PenColorH"], reg["PenColorS"] / 100.0, reg["PenColorV"] / 100.0);
        let got = [(c >> 16) as u8, (c >> 8) as u8, c as u8];
        for i in 0..3 { if (got[i] as f64 - want[i]).abs() > 1.01 { return Err(format!("{log:?}: pen colour {c:08x} for components {:?}", (reg["PenColorH"], reg["PenColorS"], reg["PenColorV"]))) } }
        if (((c >> 24) as f64) - (100.0 - reg["PenColorT"]) * 2.55).abs() > 1.01 { return Err(format!("{log:?}: pen colour {c:08x} for transparency {}", reg["PenColorT"])) }
    }
    cx.nt_if(n > 5);
    cx.sample(|| format!("{log:?}"));
    Ok(())
}
fn motion(f: impl FnOnce(CmdKey) -> CommandStatus<'static, 'static, C, Sys>) -> Result<(), String> {
    let cell = Rc::new(std::cell::RefCell::new(AsyncResult::new()));
    match f(CmdKey(cell.clone(), Cell::new(0))) { CommandStatus::Handled => (), _ => return Err("not handled".into()) }
    let r = match cell.borrow_mut().poll() { AsyncResult::Completed(r) => r.map_err(|e: CompactString| e.to_string()), _ => Err("pending".into()) };
    r
}
const MOVES: Prof = Prof { stmts: &[(Prop, 30), (Obs, 8), (Assign, 3), (Repeat, 3), (If, 1), (Try, 6), (Clone, 2), (CallFn, 1), (Warp, 1)], prop: 30, sprites: (1, 3), scripts: (1, 2), size: 16, depth: 2, call: 1, ring: 1, hof: 1, ents: 6, clone: 4, wild: 3, dump: true, hats: &[(HK::Flag, 6), (HK::Clone, 1), (HK::Key, 2)], events: &[(EK::Key, 1)], n_events: (0, 2), latency: true, ..BASE };
pub fn c32_programs(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_diff(g, cx, &MOVES, |m| m.trace.iter().filter(|e| matches!(e, Ev::Command { .. })).count() > 3) }

// ---------------------------------------------------------------- C23 generations
/// Sprites, clones and clones of clones that are made, told things, deleted, kept after that and cloned again.
pub fn c23_generations(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    const ES: &[&str] = &["e1", "e2", "e3", "e4"];
    let named = |n: &str| ex(E::Entity { name: n.into(), trans_name: n.into() });
    let mut ents = vec![entity("Stage")];
    for n in ["A", "B"] {
        let mut e = entity(n);
        e.fields.push(init("f", AV::Number(0.0)));
        e.pos = (g.range(-9, 9) as f64, 0.0);
        let go = |m: &str| H::LocalMessage { msg_type: Some(m.into()) };
        e.scripts.push(script(go("die"), vec![obs("dies", vec![ex(E::This)]), st(S::DeleteClone), obs("lives", vec![ex(E::This)])]));
        e.scripts.push(script(go("who"), vec![obs("here", vec![ex(E::This), var("f"), ex(E::XPos)])]));
        let mut born = vec![st(S::AddAssign { var: vref("f"), value: Box::new(num(1.0)) }), obs("born", vec![ex(E::This), var("f")])];
        if g.chance(1, 4) { born.push(assign("last", ex(E::This))); }
        if g.chance(1, 6) { born.push(st(S::DeleteClone)); }
        if g.chance(5, 6) { e.scripts.push(script(H::OnClone, born)); }
        let m = g.pickc(&["e1", "e2", "e4"]);
        e.scripts.push(script(go("own"), vec![assign(m, ex(E::Clone { target: Box::new(ex(E::This)) })), obs("own", vec![ex(E::This), var(m)])]));
        if g.chance(1, 3) { e.scripts.push(script(go("go"), vec![st(S::Sleep { seconds: Box::new(num(0.05)) }), obs("gone", vec![ex(E::This), var("f")])])); }
        ents.push(e);
    }
    let any = |g: &mut Gen| if g.chance(1, 5) { named(g.pickc(&["A", "B"])) } else { var(g.pickc(&["e1", "e2", "e3", "e4", "last"])) };
    let mut body: Vec<Stmt> = ES.iter().map(|x| assign(x, named(g.pickc(&["A", "B"])))).collect();
    body.push(assign("last", named("A")));
    for _ in 0..3 + g.below(16) {
        let m = |g: &mut Gen| Box::new(txt(g.pickc(&["die", "who", "own", "go", "die"])));
        let act = match g.weighted(&[8, 6, 2, 3, 2, 2]) {
            0 => assign(g.pickc(ES), ex(E::Clone { target: Box::new(any(g)) })),
            1 => { let target = any(g); st(S::SendLocalMessage { target: Some(Box::new(if g.chance(1, 4) { list(vec![target, any(g)]) } else { target })), msg_type: m(g), wait: g.bool() }) }
            2 => st(S::SendLocalMessage { target: None, msg_type: m(g), wait: g.bool() }),
            3 => { let inner = match g.below(4) {
                    0 => vec![st(S::DeleteClone), obs("after", vec![ex(E::This)])],
                    1 => vec![assign("f", add(var("f"), num(10.0))), st(S::ChangeX { delta: Box::new(num(100.0)) }), obs("told", vec![ex(E::This), var("f"), ex(E::XPos)])],
                    2 => vec![assign(g.pickc(ES), ex(E::Clone { target: Box::new(ex(E::This)) }))],
                    _ => vec![st(S::SendLocalMessage { target: None, msg_type: m(g), wait: g.bool() })],
                };
                st(S::CallClosure { new_entity: Some(Box::new(any(g))), closure: Box::new(ring(&[], &[], inner)), args: vec![] }) }
            4 => st(S::Clone { target: Box::new(any(g)) }),
            _ => assign(g.pickc(ES), any(g)),
        };
        body.push(if g.chance(4, 5) { st(S::TryCatch { code: vec![act], var: vref("err"), handler: vec![obs("failed", vec![var("err")])] }) } else { act });
        if g.chance(2, 3) { body.push(st(S::Sleep { seconds: Box::new(num(g.pickc(&[0.0, 0.03, 0.1]))) })); }
    }
    for x in ES { body.push(st(S::SendLocalMessage { target: Some(Box::new(var(x))), msg_type: Box::new(txt("who")), wait: true })); }
    body.push(st(S::SendLocalMessage { target: None, msg_type: Box::new(txt("who")), wait: true }));
    ents[g.below(3)].scripts.push(script(H::OnFlag, body));
    let mut r = role(ents);
    for x in ES.iter().chain(&["last"]) { r.globals.push(init(x, AV::Number(0.0))); }
    let mut s = Setup::new(r);
    s.ticks = vec![g.pickc(&[10, 1, 25])];
    s.latency = vec![g.below(3) as u32];
    s.max_turns = 300;
    if g.chance(1, 4) { s.acts.push((1 + g.below(30), Act::Start)); }
    crate::p_prog::run_setup(cx, &s, |m| m.stats.clones > 1)
}

// ---------------------------------------------------------------- C36 chance
fn rbox(e: Expr) -> Box<Expr> { Box::new(e) }
/// Runs a flag script with the given source of chance and hands back the arguments of its observations.
fn observe(role: &ast::Role, seed: u64, turns: usize, gc: GcMode) -> Result<(Vec<Vec<Snap>>, Vec<Err>), String> {
    let mut s = Setup::new(role.clone());
    s.max_turns = turns;
    let (code, initi, locs) = compile(role)?;
    reset_ids();
    let o = VmOpts { budget: 3_000_000, gc, ..Default::default() };
    let mut r = VmRun::new(&s, &o, Rc::new(code), &initi, settings(s.set));
    r.sys.st.borrow_mut().rng = Rng::new(seed);
    while r.turn(&s, &o, &locs)? { }
    let out = r.finish();
    if !out.idle { return Err("the script does not end".into()) }
    Ok((out.trace.iter().filter_map(|e| match e { Ev::Request { args, .. } => Some(args.clone()), _ => None }).collect(), out.fails.iter().filter_map(|f| f.err.clone()).collect()))
}
pub fn c36_numbers(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let integral = g.chance(2, 3);
    let (a, b): (f64, f64) = if integral {
        let a = match g.below(5) { 0 => g.range(-3, 3), 1 => g.range(-1000, 1000), 2 => g.range(-(1 << 52), 1 << 52), 3 => 0, _ => g.range(-20, 20) } as f64;
        match g.below(8) { 0 => (a, a), 1 => (a, a + g.range(-9, 9) as f64), 2 => (a, g.range(-(1 << 60), 1 << 60) as f64), 3 => (g.pickc(&[1e19, -1e19, 9223372036854775807.0, -9223372036854775808.0, 1e300, -f64::MAX, 1e18]), g.pickc(&[2e19, -3e19, 9223372036854775807.0, 1e17, 1e301, f64::MAX, 5.0])), _ => (a, a + g.range(-6, 12) as f64) }
    } else { (g.range(-400, 400) as f64 / 8.0 + 0.0625, match g.below(4) { 0 => crate::gens::finite(g), 1 => f64::MAX, _ => g.range(-400, 400) as f64 / 16.0 }) };
    let (lo, hi) = (a.min(b), a.max(b));
    let whole = a == a.round() && b == b.round();
    let span = if whole && hi - lo < 15.0 { Some((hi - lo) as usize + 1) } else { None };
    let wide = g.chance(1, 25);
    let span = span.or((wide && whole && hi - lo < 300.0).then(|| (hi - lo) as usize + 1));
    let draws = match span { Some(n) => 80 * n, None => 250 };
    let textual = g.chance(1, 6);
    let end = |x: f64| if textual { txt(&format!("{x}")) } else { num(x) };
    let lists = g.chance(1, 4);
    let one = ex(E::Random { a: rbox(if lists { list(vec![end(a), end(b)]) } else { end(a) }), b: rbox(if lists { list(vec![end(b), end(a)]) } else { end(b) }) });
    let r = one_script(vec![st(S::Warp { stmts: vec![st(S::Repeat { times: rbox(num(draws as f64)), stmts: vec![obs("draw", vec![one])] })] })]);
    let seed = g.bits();
    cx.sample(|| format!("random {a:?} to {b:?}, {draws} draws, lists {lists}"));
    cx.nt_if(a != b);
    cx.label_if(span.is_some(), "all values awaited");
    cx.label_if(!whole, "reals");
    let (got, fails) = observe(&r, seed, 4000, GcMode::None)?;
    if !fails.is_empty() { return Err(format!("random {a:?} to {b:?} failed: {:?}", fails[0])) }
    let mut seen = BTreeSet::new();
    let mut quarters = [0usize; 4];
    let mut fraction = false;
    for x in &got {
        let xs = match (&x[0], lists) { (Snap::List(_, v), true) if v.len() == 2 => v.clone(), (x, false) => vec![x.clone()], _ => return Err(format!("random over lists gives {}", x[0])) };
        for x in xs {
            let Snap::Num(x) = x else { return Err(format!("random {a:?} to {b:?} gives {x}")) };
            if !(x >= lo && x <= hi) || (whole && x != x.round()) { return Err(format!("random {a:?} to {b:?} gives {x:?}")) }
            fraction |= x != x.round();
            if lo < hi { quarters[(((x / 8.0 - lo / 8.0) / (hi / 8.0 - lo / 8.0) * 4.0) as usize).min(3)] += 1; }
            if span.is_some() { seen.insert((x - lo) as usize); }
        }
    }
    if let Some(n) = span { if seen.len() != n { return Err(format!("random {a:?} to {b:?} gave only {} of {n} values in {draws} draws", seen.len())) } }
    if !whole && hi - lo > 0.5 && hi.abs() < 1e6 && lo.abs() < 1e6 && !fraction { return Err(format!("random {a:?} to {b:?} gives whole numbers only")) }
    if hi - lo > 1e3 && (!whole && hi - lo > 1e-3 * hi.abs().max(lo.abs()) || hi.abs().max(lo.abs()) < 1e15) && quarters.contains(&0) { return Err(format!("{} draws from {a:?} to {b:?} fall into its quarters {quarters:?} times", got.len())) }
    // the source of chance decides everything, and is used
    let again = observe(&r, seed, 4000, GcMode::None)?.0;
    if again != got { return Err("the same source of chance gives another run".into()) }
    if hi - lo > 3.0 && hi - lo > 1e-3 * hi.abs().max(lo.abs()) { let other = observe(&r, seed ^ 0x5555, 4000, GcMode::None)?.0; if other == got { return Err("another source of chance gives the same run".into()) } }
    Ok(())
}
pub fn c36_items(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = g.below(7);
    let draws = 80 * n.max(1) + 40;
    let kind = g.below(5);
    let words = ["é", "a", "\u{1f468}\u{200d}\u{1f469}", "x", "Z", "9", "\r\n"];
    let items: Vec<Expr> = (0..n).map(|i| txt(&format!("i{i}"))).collect();
    let text: String = words[..n].concat();
    let run = |body: Vec<Stmt>| one_script(vec![declare(&["l"]), st(S::Warp { stmts: vec![st(S::Repeat { times: rbox(num(draws as f64)), stmts: body })] })]);
    let shown = |v: &Snap| match v { Snap::Text(x) => x.clone(), x => x.to_string() };
    let (role, name) = match kind {
        0 => (run(vec![obs("draw", vec![ex(E::ListGetRandom { list: rbox(list(items.clone())) })])]), "item any of list"),
        1 => (run(vec![obs("draw", vec![ex(E::StrGetRandom { string: rbox(txt(&text)) })])]), "letter any of text"),
        2 => (run(vec![assign("l", list(items.clone())), st(S::ListInsertRandom { list: rbox(var("l")), value: rbox(txt("new")) }), obs("draw", vec![var("l")])]), "insert at any"),
        3 => (run(vec![assign("l", list(items.clone())), st(S::ListAssignRandom { list: rbox(var("l")), value: rbox(txt("new")) }), obs("draw", vec![var("l")])]), "replace any"),
        // any of a list of texts
        _ => (run(vec![obs("draw", vec![ex(E::StrGetRandom { string: rbox(list(vec![txt(&text), txt("q"), list(vec![txt(&text)])])) })])]), "letter any of texts"),
    };
    let seed = g.bits();
    cx.sample(|| format!("{name}, {n} items, {draws} draws"));
    cx.nt_if(n > 1);
    let (got, fails) = observe(&role, seed, 4000, GcMode::None)?;
    if n == 0 && kind != 2 { return if fails.len() == 1 && got.is_empty() { Ok(()) } else { Err(format!("{name} of nothing did not fail")) } }
    if !fails.is_empty() { return Err(format!("{name} failed: {}", fails[0])) }
    let mut seen = BTreeSet::new();
    for d in &got {
        let bad = || Err(format!("{name} of {n} items gives {}", d[0]));
        match kind {
            0 => match (0..n).find(|i| shown(&d[0]) == format!("i{i}")) { Some(i) => { seen.insert(i); } None => return bad() },
            1 => match (0..n).find(|i| shown(&d[0]) == words[*i]) { Some(i) => { seen.insert(i); } None => return bad() },
            2 | 3 => {
                let Snap::List(_, xs) = &d[0] else { return bad() };
                let xs: Vec<String> = xs.iter().map(shown).collect();
                let Some(at) = xs.iter().position(|x| x == "new") else { return bad() };
                let mut want: Vec<String> = (0..n).map(|i| format!("i{i}")).collect();
                if kind == 2 { want.insert(at, "new".into()); } else { want[at] = "new".into(); }
                if xs != want { return bad() }
                seen.insert(at);
            }
            _ => match &d[0] { Snap::List(_, xs) if xs.len() == 3 && shown(&xs[1]) == "q" => match (&xs[0], &xs[2]) { (x, Snap::List(_, y)) if y.len() == 1 => match ((0..n).find(|i| shown(x) == words[*i]), (0..n).find(|i| shown(&y[0]) == words[*i])) { (Some(i), Some(_)) => { seen.insert(i); } _ => return bad() }, _ => return bad() }, _ => return bad() },
        }
    }
    let all = if kind == 2 { n + 1 } else { n };
    if seen.len() != all { return Err(format!("{name}: only {} of {all} places in {draws} draws", seen.len())) }
    if observe(&role, seed, 4000, GcMode::EveryTurn)?.0 != got { return Err("the same source of chance gives another run".into()) }
    if all > 2 && observe(&role, seed ^ 0x77, 4000, GcMode::None)?.0 == got { return Err("another source of chance gives the same run".into()) }
    Ok(())
}
/// Whole projects with blocks of chance all over: equal sources, equal runs.
/// Long lists and texts: places all over them are drawn
pub fn c36_long(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = match g.below(4) { 0 => 40 + g.below(300), 1 => 300 + g.below(3000), 2 => 1000 + g.below(9000), _ => 60_000 + g.below(20_000) };
    let kind = g.below(4);
    let n = if kind == 1 { n.min(20_000) } else { n };
    let draws = 260;
    let items = ex(E::Range { start: rbox(num(1.0)), stop: rbox(num(n as f64)) });
    let text: String = (0..n.min(20_000)).map(|i| char::from_u32(0x4E00 + i as u32).unwrap()).collect();
    let (before, one, name) = match kind {
        0 => (assign("l", items), vec![obs("draw", vec![ex(E::ListGetRandom { list: rbox(var("l")) })])], "item any of list"),
        1 => (assign("l", txt(&text)), vec![obs("draw", vec![ex(E::StrGetRandom { string: rbox(var("l")) })])], "letter any of text"),
        2 => (assign("l", items), vec![st(S::ListInsertRandom { list: rbox(var("l")), value: rbox(txt("new")) }), obs("draw", vec![ex(E::ListFind { list: rbox(var("l")), value: rbox(txt("new")) })]), st(S::ListRemove { list: rbox(var("l")), index: rbox(ex(E::ListFind { list: rbox(var("l")), value: rbox(txt("new")) })) })], "insert at any"),
        _ => (assign("l", items), vec![st(S::ListAssignRandom { list: rbox(var("l")), value: rbox(txt("new")) }), assign("k", ex(E::ListFind { list: rbox(var("l")), value: rbox(txt("new")) })), obs("draw", vec![var("k")]), st(S::ListAssign { list: rbox(var("l")), index: rbox(var("k")), value: rbox(var("k")) })], "replace any"),
    };
    let n = if kind >= 2 { n.min(4000) } else { n };
    let before = if kind >= 2 { assign("l", ex(E::Range { start: rbox(num(1.0)), stop: rbox(num(n as f64)) })) } else { before };
    let r = one_script(vec![declare(&["l", "k"]), before, st(S::Warp { stmts: vec![st(S::Repeat { times: rbox(num(draws as f64)), stmts: one })] })]);
    let seed = g.bits();
    cx.sample(|| format!("{name}, {n} items, {draws} draws"));
    cx.nt();
    let (got, fails) = observe(&r, seed, 4000, GcMode::None)?;
    if !fails.is_empty() || got.len() != draws { return Err(format!("{name} of {n} failed: {:?} after {} draws", fails.first().map(|x| x.to_string()), got.len())) }
    let mut quarters = [0usize; 4];
    let all = if kind == 2 { n + 1 } else { n };
    for d in &got {
        let at = match (&d[0], kind) { (Snap::Text(x), 1) if x.chars().count() == 1 => (x.chars().next().unwrap() as u32).wrapping_sub(0x4E00) as usize + 1, (Snap::Num(x), 0 | 2 | 3) if *x == x.round() && *x >= 1.0 => *x as usize, (x, _) => return Err(format!("{name} of {n} gives {x}")) };
        if at < 1 || at > all { return Err(format!("{name} of {n} picks place {at}")) }
        quarters[(at - 1) * 4 / all] += 1;
    }
    if quarters.contains(&0) { return Err(format!("{name} of {n}: {draws} draws fall into its quarters {quarters:?} times")) }
    Ok(())
}
pub fn c36_runs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &ALL);
    let at = g.below(s.role.entities.len());
    if s.role.entities[at].scripts.is_empty() { return Ok(()) }
    let k = g.below(s.role.entities[at].scripts.len());
    let i = g.below(s.role.entities[at].scripts[k].stmts.len() + 1);
    s.role.entities[at].scripts[k].stmts.insert(i, obs("log", vec![num(1.0)]));
    let Some((_, o)) = bounded(&mut s, cx) else { return Ok(()) };
    s.role.entities[at].scripts[k].stmts[i] = obs("log", vec![ex(E::Random { a: rbox(num(1.0)), b: rbox(num(1000.0)) })]);
    cx.sample(|| show(&s));
    let (a, b) = (run_vm(&s, &o)?, run_vm(&s, &VmOpts { gc: GcMode::Random(3), ..o })?);
    cx.nt_if(a.trace.len() > 5);
    same_out(&a, &b, "one run", "another run with the same source of chance")
}

// ---------------------------------------------------------------- C26 clock reporters
pub fn c26_clock(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    use ast::TimeQuery as Q;
    // some moment between 1902 and 2200, in some zone
    let ms = match g.below(3) { 0 => g.range(-2_100_000_000, 7_200_000_000) * 1000 + g.range(0, 999), 1 => g.pickc(&[0, 951_782_399_999, 951_782_400_000, 946_684_799_999, 1_709_164_800_000, -1, -86_400_000]), _ => g.range(1_000_000_000, 2_000_000_000) * 1000 };
    let off = match g.below(3) { 0 => 0, 1 => g.range(-12, 14) * 3600, _ => g.range(-40_000, 40_000) };
    let qs = [Q::Year, Q::Month, Q::Date, Q::DayOfWeek, Q::Hour, Q::Minute, Q::Second, Q::UnixTimestampMs];
    let args: Vec<Expr> = qs.iter().map(|q| ex(E::RealTime { query: q.clone() })).collect();
    let mut s = Setup::new(one_script(vec![obs("now", args.clone()), st(S::Sleep { seconds: rbox(num(0.0)) }), obs("now", args)]));
    let tick = g.below(100_000) as u64;
    s.ticks = vec![tick];
    s.latency = vec![g.below(3) as u32];
    cx.sample(|| format!("{ms} ms, offset {off} s, tick {tick} ms"));
    cx.nt();
    let (code, initi, locs) = compile(&s.role)?;
    reset_ids();
    let o = VmOpts::default();
    s.clock = HostClock { mode: TimeMode::Real, base: ms - T0 as i64, zone: off as i32 };
    let mut r = VmRun::new(&s, &o, Rc::new(code), &initi, settings(s.set));
    let mut at = vec![];
    loop {
        let before = r.sys.st.borrow().trace.iter().filter(|e| matches!(e, Ev::Request { .. })).count();
        let more = r.turn(&s, &o, &locs)?;
        let st = r.sys.st.borrow();
        let after = st.trace.iter().filter(|e| matches!(e, Ev::Request { .. })).count();
        for _ in before..after { at.push(st.utc_base_ms + st.now as i64); }
        drop(st);
        if !more { break }
    }
    let out = r.finish();
    let got: Vec<Vec<f64>> = out.trace.iter().filter_map(|e| match e { Ev::Request { args, .. } => Some(args.iter().map(|x| if let Snap::Num(x) = x { *x } else { f64::NAN }).collect()), _ => None }).collect();
    if got.len() != 2 { return Err(format!("{} observations: {:?}", got.len(), out.fails.iter().map(|f| &f.err).collect::<Vec<_>>())) }
    for (x, ms) in got.iter().zip(at) {
        let want = crate::model::civil(ms, off);
        if x[..] != want[..] { return Err(format!("at {ms} ms with offset {off} s the clock reporters give {x:?}, expected {want:?}")) }
    }
    Ok(())
}
/// Hundreds to thousands of calls inside one another, with warp blocks, handlers, loops and pending values at every level, next to another script.
fn nested(g: &mut Gen, cx: &mut Ctx, warp: usize, handle: usize, near: usize) -> CheckResult {
    use ast::{ExprKind as E, StmtKind as S};
    let depth = g.pickc(&[40usize, 64, 127, 128, 130, 200, 255, 256, 258, 300, 512, 514, 700, 1023, 1024, 1026, 1200]).saturating_sub(g.below(4));
    let blocks = 1 + g.below(3);
    let mut r = one_script(vec![]);
    let mut per = 0;
    for i in 0..blocks {
        let next = format!("go{}", (i + 1) % blocks);
        let call = ex(E::CallFn { function: fnref(&next), args: vec![sub(var("n"), num(1.0))], upvars: vec![] });
        let way = g.below(5);
        per += if way < 2 { 2 } else { 1 };
        let e = match way {
            0 => ex(E::CallClosure { new_entity: None, closure: Box::new(ring_e(&[], &["n"], call)), args: vec![] }),
            1 => { let to = g.pickc(&["Sprite", "Stage"]); ex(E::CallClosure { new_entity: Some(Box::new(ex(E::Entity { name: to.into(), trans_name: to.into() }))), closure: Box::new(ring_e(&[], &["n"], call)), args: vec![] }) }
            2 => add(num(1.0), call),
            _ => call,
        };
        let local = g.bool();
        let show = |w: &str| { let at = g_mod(var("n"), num(97.0)); st(S::If { condition: Box::new(ex(E::Eq { left: Box::new(at), right: Box::new(num(0.0)) })), then: vec![obs(w, if local { vec![var("n"), var("w")] } else { vec![var("n")] })] }) };
        let mut body = vec![];
        if local { body.push(declare(&["w"])); body.push(assign("w", var("n"))); }
        body.push(declare(&["t"]));
        let bottom = match g.below(6) {
            0 => vec![st(S::Throw { error: Box::new(txt("bottom")) })],
            1 => vec![st(S::Sleep { seconds: Box::new(num(0.0)) }), obs("bottom", vec![var("n")])],
            2 => vec![assign("never heard of", num(1.0))],
            _ => { let k = 2 + g.below(4); vec![st(S::Repeat { times: Box::new(num(k as f64)), stmts: vec![obs("bottom", vec![var("n")])] })] }
        };
        let mut down = vec![assign("t", e)];
        if g.chance(1, 3) { down.push(show("back")) }
        if g.chance(1, 5) { down = vec![st(S::Repeat { times: Box::new(num(1.0)), stmts: down })] }
        if g.chance(handle, 6) {
            let mut handler = vec![show("caught")];
            if g.chance(2, 3) { handler.push(st(S::Throw { error: Box::new(var("err")) })) }
            down = vec![st(S::TryCatch { var: vref("err"), code: down, handler })];
        }
        if g.chance(warp, 6) { down = vec![st(S::Warp { stmts: down })] }
        if g.chance(handle, 9) { down = vec![st(S::TryCatch { var: vref("err"), code: down, handler: vec![show("caught"), st(S::Return { value: Box::new(num(5.0)) })] })] }
        let enough = ex(E::Less { left: Box::new(var("n")), right: Box::new(num(0.5)) });
        body.push(st(S::IfElse { condition: Box::new(enough), then: bottom, otherwise: down }));
        if local { body.push(st(S::AddAssign { var: vref("w"), value: Box::new(num(1.0)) })); body.push(show("end")); }
        body.push(ret(num(3.0)));
        r.funcs.push(func(&format!("go{i}"), &["n"], body));
    }
    let mut top = vec![obs("result", vec![ex(E::CallFn { function: fnref("go0"), args: vec![num(depth as f64)], upvars: vec![] })])];
    if g.chance(2, 3) { top = vec![st(S::TryCatch { var: vref("err"), code: top, handler: vec![obs("caught", vec![var("err")])] })] }
    if g.chance(1, 3) { top = vec![st(S::Warp { stmts: top })] }
    top.push(st(S::Repeat { times: Box::new(num(3.0)), stmts: vec![obs("after", vec![])] }));
    if g.chance(1, 3) { top.push(obs("again", vec![ex(E::CallFn { function: fnref("go0"), args: vec![num((depth / 2) as f64)], upvars: vec![] })])); }
    let k = 3 + g.below(5);
    let other = vec![st(S::Repeat { times: Box::new(num(k as f64)), stmts: vec![obs("other", vec![])] })];
    r.entities[0].scripts = vec![script(ast::HatKind::OnFlag, top), script(ast::HatKind::OnFlag, other)];
    r.entities.push(entity("Sprite"));
    let mut s = Setup::new(r);
    // one frame for the script, one for every call
    let need = 1 + (0..=depth).count() + (depth / blocks) * (per - blocks);
    s.set.max_call_depth = if g.chance(near, 6) { need + 3 - g.below(7).min(need) } else { g.pickc(&[1024, 4000, 4000, 300]) };
    s.fuel = 600_000;
    cx.sample(|| format!("depth {depth} limit {}\n{}", s.set.max_call_depth, show(&s)));
    match differential(&s)? {
        None => cx.label("discarded (budget)"),
        Some((m, _)) => {
            cx.nt_if(m.stats.maxdepth > 100);
            cx.label_if(m.stats.maxdepth > 256, "deeper than 256");
            cx.label_if(m.stats.maxdepth > 1024, "deeper than 1024");
            cx.label_if(m.stats.caught > 0, "with a caught error");
            cx.evals += m.trace.len() as u64;
        }
    }
    Ok(())
}
fn g_mod(a: Expr, b: Expr) -> Expr { ex(ast::ExprKind::Mod { left: Box::new(a), right: Box::new(b) }) }
fn c09_nested(g: &mut Gen, cx: &mut Ctx) -> CheckResult { nested(g, cx, 1, 1, 1) }
fn c10_nested(g: &mut Gen, cx: &mut Ctx) -> CheckResult { nested(g, cx, 2, 5, 2) }
fn c11_nested(g: &mut Gen, cx: &mut Ctx) -> CheckResult { nested(g, cx, 5, 1, 1) }
fn c12_nested(g: &mut Gen, cx: &mut Ctx) -> CheckResult { nested(g, cx, 1, 2, 4) }

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C14", rule: "random projects with and without dead code, unused blocks and scripts, and reordered blocks in between (up to two megabytes), and scripts run standalone; non-trivial = more than five to eight events; wide: blocks of up to 70000 inputs, parameters, fields, captures and statements and projects of hundreds of sprites, scripts, blocks, variables and costumes against the reference (non-trivial = more than 127 of something)", assumptions: &[],
            subs: vec![Sub { name: "padding", run: c14_padding, quick: 100_000, thorough: 1_000_000 }, Sub { name: "huge", run: c14_huge, quick: 800, thorough: 2_000 }, Sub { name: "wide", run: c14_wide, quick: 12_000, thorough: 300_000 }, Sub { name: "alone", run: c14_alone, quick: 150_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C09", rule: "nested: recursion of hundreds to more than a thousand calls with warp blocks, handlers, loops, local variables and pending values at every level, next to another script, with limits close to the depth or far from it (non-trivial = deeper than 100)", assumptions: &[], subs: vec![Sub { name: "nested", run: c09_nested, quick: 7_000, thorough: 300_000 }], probes: vec![] },
        Claim { id: "C10", rule: "nested: recursion of hundreds to more than a thousand calls with warp blocks, handlers, loops, local variables and pending values at every level, next to another script, with limits close to the depth or far from it (non-trivial = deeper than 100)", assumptions: &[], subs: vec![Sub { name: "nested", run: c10_nested, quick: 7_000, thorough: 300_000 }], probes: vec![] },
        Claim { id: "C11", rule: "nested: recursion of hundreds to more than a thousand calls with warp blocks, handlers, loops, local variables and pending values at every level, next to another script, with limits close to the depth or far from it (non-trivial = deeper than 100)", assumptions: &[], subs: vec![Sub { name: "nested", run: c11_nested, quick: 7_000, thorough: 300_000 }], probes: vec![] },
        Claim { id: "C12", rule: "nested: recursion of hundreds to more than a thousand calls with warp blocks, handlers, loops, local variables and pending values at every level, next to another script, with limits close to the depth or far from it (non-trivial = deeper than 100)", assumptions: &[], subs: vec![Sub { name: "nested", run: c12_nested, quick: 7_000, thorough: 300_000 }], probes: vec![] },
        Claim { id: "C23", rule: "generations of clones made, told things, deleted, kept and cloned again (non-trivial = more than one clone made)", assumptions: &[], subs: vec![Sub { name: "generations", run: c23_generations, quick: 80_000, thorough: 1_500_000 }], probes: vec![] },
        Claim { id: "C24", rule: "latency: the same program run with two random delays per host call, its effects compared (non-trivial = more than one request)", assumptions: &[], subs: vec![Sub { name: "latency", run: c24_latency, quick: 300_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C25", rule: "apart: each script of a project on data of its own, all together and each alone (non-trivial = at least two scripts with effects); projects: two projects in one arena against each alone", assumptions: &[], subs: vec![Sub { name: "apart", run: c25_apart, quick: 80_000, thorough: 2_000_000 }, Sub { name: "projects", run: c25_projects, quick: 80_000, thorough: 1_000_000 }], probes: vec![] },
        Claim { id: "C26", rule: "clock: date and time reporters at random moments and zones against an own calendar (every case non-trivial)", assumptions: &[], subs: vec![Sub { name: "clock", run: c26_clock, quick: 200_000, thorough: 1_000_000 }], probes: vec![] },
        Claim { id: "C27", rule: "random projects run without and with collections at every or random points (non-trivial = more than 30 steps and eight events), and endless scripts that leave garbage of every kind, bytes in use compared early and late (non-trivial = more than 100 rounds), and random script bodies repeated for ever with everything they write set back each round (non-trivial = 700 rounds run)", assumptions: &[],
            subs: vec![Sub { name: "same", run: c27_same, quick: 120_000, thorough: 1_500_000 }, Sub { name: "memory", run: c27_memory, quick: 6_000, thorough: 20_000 }, Sub { name: "endless", run: c27_endless, quick: 8_000, thorough: 200_000 }], probes: vec![] },
        Claim { id: "C32", rule: "random sequences of set, change, read and motion on the register API with the whole double range against an own register file (non-trivial = more than five operations), and random projects of motion, pen and effect blocks against the reference (non-trivial = more than three commands)", assumptions: &[],
            subs: vec![Sub { name: "registers", run: c32_registers, quick: 600_000, thorough: 6_000_000 }, Sub { name: "programs", run: c32_programs, quick: 200_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C36", rule: "random ranges, lists and texts drawn from until every value is due, with equal and different sources (non-trivial = more than one possible outcome)", assumptions: &["a fair draw misses one of n values in 80 n draws with probability below 1e-32"],
            subs: vec![Sub { name: "numbers", run: c36_numbers, quick: 20_000, thorough: 100_000 }, Sub { name: "items", run: c36_items, quick: 20_000, thorough: 100_000 }, Sub { name: "long", run: c36_long, quick: 800, thorough: 20_000 }, Sub { name: "runs", run: c36_runs, quick: 80_000, thorough: 600_000 }], probes: vec![] },
    ]
}
