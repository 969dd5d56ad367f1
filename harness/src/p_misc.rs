//! Properties decided by relations between runs, by probing the host interface or by looking at compiled artefacts.
use crate::drive::*;
use crate::gprog::*;
use crate::p_prog::*;
use crate::runner::*;
use crate::tape::{Gen, Rng};
use ast::{ExprKind as E, StmtKind as S, HatKind as H};
use crate::vm::*;
use crate::mval::{self, norm_text};
use K::*;

// ---------------------------------------------------------------- C15 error summaries
fn dbg_text(s: &Snap, o: &mut String, ents: &dyn Fn(u32) -> String, open: &mut Vec<usize>) {
    match s {
        Snap::Bool(x) => *o += &x.to_string(), Snap::Num(x) => *o += &format!("{x}"), Snap::Text(x) => *o += &format!("{x:?}"),
        Snap::Entity(u) => *o += &format!("Entity \"{}\"", ents(*u)),
        Snap::List(id, xs) => { open.push(*id); *o += "["; for (i, x) in xs.iter().enumerate() { if i > 0 { *o += ","; } dbg_text(x, o, ents, open); } *o += "]"; open.pop(); }
        Snap::Back(id) if open.contains(id) => *o += "[...]",
        // a list shown twice is repeated in full; rings and media show addresses
        _ => *o += "\u{1}",
    }
}
/// Same text, numbers within rounding; a \u{1} in the expectation stands for anything.
fn text_matches(expected: &str, got: &str) -> bool {
    if expected == got || expected.contains('\u{1}') || norm_text(expected) != *expected || expected.contains("{}") || got.contains("{ ") { return true }
    let toks = |s: &str| { let mut v: Vec<String> = vec![]; let mut num = false; for c in s.chars() { let n = c.is_ascii_digit() || c == '.' || c == '-'; if v.is_empty() || n != num { v.push(String::new()); num = n; } v.last_mut().unwrap().push(c); } v };
    let (a, b) = (toks(expected), toks(got));
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || matches!((x.parse::<f64>(), y.parse::<f64>()), (Ok(x), Ok(y)) if num_eq(x, y)))
}
fn vars_match(what: &str, exp: &[(String, Snap)], got: &[netsblox_vm::process::VarEntry], ents: &dyn Fn(u32) -> String) -> CheckResult {
    let mut names: Vec<&str> = got.iter().map(|x| x.name.as_str()).collect();
    names.sort();
    let mut want: Vec<&str> = exp.iter().map(|x| x.0.as_str()).collect();
    want.sort();
    if names != want { return Err(format!("{what}: variables {names:?} listed, {want:?} in scope")) }
    for (k, v) in exp {
        let mut t = String::new();
        dbg_text(v, &mut t, ents, &mut vec![]);
        let g = got.iter().find(|x| x.name == *k).unwrap();
        if !text_matches(&t, &g.value) { return Err(format!("{what}: variable {k} is listed as {:?}, its value was {t:?}", g.value)) }
    }
    Ok(())
}
pub fn check_summaries(s: &Setup, m: &Out, v: &Out) -> Result<usize, String> {
    let names: Vec<String> = s.role.entities.iter().map(|e| e.name.to_string()).collect();
    let ents = |u: u32| names.get(u as usize).cloned().unwrap_or("\u{1}".into());
    let mut n = 0;
    for (a, b) in m.fails.iter().zip(&v.fails) {
        let Some(sum) = b.summary.as_ref() else { continue };
        let exp: Vec<&(Option<String>, Vec<(String, Snap)>)> = a.trace.iter().filter(|x| x.0.is_some()).collect();
        let (el, gl): (Vec<&str>, Vec<&str>) = (exp.iter().map(|x| x.0.as_deref().unwrap()).collect(), sum.trace.iter().map(|x| x.location.as_str()).collect());
        if el != gl { return Err(format!("error {:?}: reported trace {gl:?}, active blocks were {:?}", a.err, a.trace.iter().map(|x| x.0.as_deref()).collect::<Vec<_>>())) }
        for (e, g) in exp.iter().zip(&sum.trace) { vars_match(&format!("error {:?}, trace entry {}", a.err, g.location), &e.1, &g.locals, &ents)?; }
        let top = a.top.as_ref().unwrap();
        if top.ent != sum.entity.as_str() && !top.ent.is_empty() { return Err(format!("error {:?} reported for entity {:?}, it happened in {:?}", a.err, sum.entity, top.ent)) }
        vars_match("globals", &top.globals, &sum.globals, &ents)?;
        vars_match("fields", &top.fields, &sum.fields, &ents)?;
        n += el.len();
    }
    Ok(n)
}
pub const LOCS: Prof = Prof {
    stmts: &[(Obs, 6), (Assign, 5), (AddAssign, 5), (Try, 5), (Throw, 3), (Fail, 8), (If, 4), (IfElse, 3), (Repeat, 4), (For, 3), (Foreach, 3), (Until, 2), (CallFn, 7), (CallRing, 5), (Return, 3), (Declare, 3), (Warp, 2), (RingDef, 3), (Syscall, 2), (ListMut, 4), (BroadcastWait, 1), (Pause, 1), (Rpc, 1), (Ask, 1), (Say, 1), (Wait, 1), (Prop, 1), (Clone, 1), (StopBlock, 1)],
    call: 9, ring: 5, hof: 8, fail: 14, host: 2, size: 10, nest: 3, depth: 3, fns: (1, 3), wild: 14, scripts: (1, 3), locs: true, hats: &[(HK::Flag, 8), (HK::Message, 1)], turns: 120, ..BASE
};
pub fn c15_programs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let s = project(g, &LOCS);
    cx.sample(|| show(&s));
    let o = VmOpts { want_trace: true, ..Default::default() };
    match differential_with(&s, &o)? {
        None => cx.label("discarded (budget)"),
        Some((m, v)) => {
            let n = check_summaries(&s, &m, &v)?;
            cx.nt_if(n > 0);
            cx.label_if(m.fails.iter().any(|f| f.trace.iter().filter(|x| x.0.is_some()).count() > 1), "trace of several blocks");
            cx.label_if(m.fails.iter().any(|f| f.trace.iter().any(|x| x.0.is_none())), "frame without location");
        }
    }
    Ok(())
}

/// Errors below very many active blocks: recursion through custom blocks, rings and told sprites.
pub fn c15_deep(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let depth = match g.below(6) { 0 => g.below(8), 1 | 2 => 5 + g.below(40), 3 | 4 => 20 + g.below(100), _ => 100 + g.below(200) };
    let limit = match g.below(5) { 0 => 5 + g.below(60), _ => 400 };
    let some = g.below(4);
    let mut k = 0;
    let mut located = |g: &mut Gen| -> Box<ast::BlockInfo> { k += 1; if some > 0 && g.below(4) < some { Box::new(ast::BlockInfo { comment: None, location: Some(format!("loc_{k}").as_str().into()) }) } else { ast::BlockInfo::none() } };
    let blocks = 1 + g.below(3);
    let mut r = one_script(vec![]);
    let mut other = entity("Sprite");
    other.fields.push(init("mine", ast::Value::Number(3.0)));
    for i in 0..blocks {
        let next = format!("go{}", (i + 1) % blocks);
        let less = sub(var("n"), num(1.0));
        let mut bottom = match g.below(5) {
            0 => st(S::Throw { error: Box::new(txt("bottom")) }),
            1 => assign("never heard of", num(1.0)),
            2 => obs("log", vec![ex(E::ListGet { list: Box::new(var("n")), index: Box::new(num(1.0)) })]),
            3 => obs("log", vec![ex(E::CallClosure { new_entity: None, closure: Box::new(num(4.0)), args: vec![] })]),
            _ => ret(ex(E::CallFn { function: fnref(&format!("go{i}")), args: vec![num(-1.0), txt("x")], upvars: vec![] })),
        };
        bottom.info = located(g);
        let mut call = ex(E::CallFn { function: fnref(&next), args: vec![less, match g.below(3) { 0 => var("u"), 1 => list(vec![var("n")]), _ => txt("w") }], upvars: vec![] });
        call.info = located(g);
        let mut e = match g.below(6) {
            0 => ex(E::CallClosure { new_entity: None, closure: Box::new(ring_e(&[], &["n", "u"], call)), args: vec![] }),
            1 => ex(E::CallClosure { new_entity: Some(Box::new(ex(E::Entity { name: g.pickc(&["Sprite", "Stage"]).into(), trans_name: "".into() }))), closure: Box::new(ring_e(&[], &["n", "u"], call)), args: vec![] }),
            2 => ex(E::ListGet { list: Box::new(ex(E::Map { f: Box::new(ring_e(&["z"], &["n", "u"], call)), list: Box::new(list(vec![num(1.0), num(2.0)])) })), index: Box::new(num(1.0)) }),
            3 => add(num(1.0), call),
            _ => call,
        };
        if let E::CallClosure { new_entity: Some(w), .. } = &mut e.kind { if let E::Entity { name, trans_name } = &mut w.kind { *trans_name = name.clone() } }
        if e.info.location.is_none() { e.info = located(g) }
        let mut down = match g.below(5) {
            0 => st(S::Return { value: Box::new(e) }),
            1 => assign("t", e),
            2 => obs("deeper", vec![e]),
            3 => st(S::CallFn { function: fnref(&next), args: vec![sub(var("n"), num(1.0)), txt("v")], upvars: vec![] }),
            _ => st(S::If { condition: Box::new(boolean(true)), then: vec![st(S::Return { value: Box::new(e) })] }),
        };
        down.info = located(g);
        if g.chance(1, 6) { down = st(S::Repeat { times: Box::new(num(1.0)), stmts: vec![down] }) }
        if g.chance(1, 6) { down = st(S::Warp { stmts: vec![down] }) }
        let mut body = vec![];
        if g.bool() { body.push(declare(&["t", "w"])) }
        let enough = ex(E::Less { left: Box::new(var("n")), right: Box::new(num(0.5)) });
        body.push(st(S::IfElse { condition: Box::new(enough), then: vec![bottom, ret(num(7.0))], otherwise: vec![down, ret(num(8.0))] }));
        r.funcs.push(func(&format!("go{i}"), &["n", "u"], body));
    }
    let mut first = obs("result", vec![ex(E::CallFn { function: fnref("go0"), args: vec![num(depth as f64), txt("top")], upvars: vec![] })]);
    first.info = located(g);
    let mut body = vec![first];
    if g.chance(1, 4) { let mut again = st(S::Throw { error: Box::new(var("err")) }); again.info = located(g); body = vec![st(S::TryCatch { var: vref("err"), code: body, handler: vec![obs("caught", vec![var("err")]), again] })] }
    body.insert(0, declare(&["t"]));
    r.globals.push(init("t", ast::Value::Number(0.0)));
    r.entities[0].scripts = vec![script(H::OnFlag, body)];
    r.entities.push(other);
    let mut s = Setup::new(r);
    s.set.max_call_depth = limit;
    s.fuel = 300_000;
    cx.sample(|| show(&s));
    let o = VmOpts { want_trace: true, ..Default::default() };
    match differential_with(&s, &o)? {
        None => cx.label("discarded (budget)"),
        Some((m, v)) => {
            let n = check_summaries(&s, &m, &v)?;
            cx.nt_if(n > 1);
            cx.label_if(n > 16, "more than 16 locations");
            cx.label_if(n > 64, "more than 64 locations");
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C15", rule: "random projects full of failing blocks whose blocks carry locations or none, each error summary compared with the reference; non-trivial = a located error was reported; deep: errors below up to 300 active blocks (non-trivial = more than one location)", assumptions: &[],
            subs: vec![Sub { name: "programs", run: c15_programs, quick: 300_000, thorough: 6_000_000 }, Sub { name: "deep", run: c15_deep, quick: 20_000, thorough: 600_000 }], probes: vec![] },
    ]
}
