//! Fixed inputs: the defects found in the repository, each with the property it broke.
use crate::drive::*;
use crate::gprog::*;
use crate::runner::*;
use crate::vm::*;
use ast::{ExprKind as E, HatKind as H, StmtKind as S, Value as V};
use netsblox_vm::runtime::{Note, SimpleValue};
use netsblox_vm::json::json;

/// The run agrees with the reference.
fn agrees(stmts: Vec<ast::Stmt>) -> CheckResult { agrees_role(one_script(stmts), vec![(0, Act::Start)]) }
fn agrees_role(role: ast::Role, acts: Vec<(usize, Act)>) -> CheckResult {
    let mut s = Setup::new(role);
    s.acts = acts;
    match differential_with(&s, &VmOpts { want_trace: true, ..Default::default() })? { Some(_) => Ok(()), None => Err("the fixed input exceeds the budget of the reference".into()) }
}
fn l(xs: &[f64]) -> ast::Expr { list(xs.iter().map(|x| num(*x)).collect()) }
fn at(mut s: ast::Stmt, loc: &str) -> ast::Stmt { s.info = Box::new(ast::BlockInfo { comment: None, location: Some(loc.into()) }); s }

fn modulus() -> CheckResult {
    let mut v = vec![];
    for (a, b) in [(-6.0, 3.0), (0.0, -5.0), (0.0, 5.0), (-1e-20, 5.0), (7.0, -3.0), (-7.0, 3.0)] { v.push(obs("log", vec![bin(|left, right| E::Mod { left, right }, num(a), num(b))])); }
    agrees(v)
}
fn headings() -> CheckResult {
    let mut e = entity("S"); e.scripts.push(script(H::OnFlag, vec![st(S::SetHeading { value: Box::new(num(-360.0)) }), obs("log", vec![ex(E::Heading)])]));
    agrees_role(role(vec![entity("Stage"), e]), vec![(0, Act::Start)])
}
fn notes() -> CheckResult {
    for (t, m) in [("C4", Some(60)), ("A4", Some(69)), ("B3", Some(59)), ("C-1", Some(0)), ("A0", Some(21)), ("G9", Some(127)), ("G#9", None), ("A25", None), ("Cb4", Some(59)), ("B#4", Some(72))] {
        let n = Note::from_name(t).map(|n| n.get_midi().0);
        // names with a sign in the octave may be taken or refused
        if n != m && !(t.contains(['+', '-']) && n.is_none()) { return Err(format!("note {t} is read as {n:?}, it is {m:?}")) }
    }
    agrees(vec![st(S::TryCatch { var: vref("v1"), code: vec![st(S::PlayNotes { notes: Box::new(num(300.0)), beats: Box::new(num(1.0)), blocking: false })], handler: vec![obs("log", vec![txt("refused")])] })])
}
fn media_names() -> CheckResult {
    let v = SimpleValue::Image(netsblox_vm::runtime::Image { name: "a<&\"'>b".into(), content: vec![1, 2, 3], center: None });
    let j = v.clone().into_netsblox_json();
    match SimpleValue::from_netsblox_json(j) { Ok(SimpleValue::Image(i)) if i.name == "a<&\"'>b" => Ok(()), x => Err(format!("an image called a<&\"'>b comes back as {x:?}")) }
}
fn index_is_list() -> CheckResult {
    let mut v = vec![];
    for k in 0..3 {
        v.push(assign("l1", l(&[1.0, 2.0])));
        v.push(match k { 0 => st(S::ListRemove { list: Box::new(var("l1")), index: Box::new(var("l1")) }), 1 => st(S::ListAssign { list: Box::new(var("l1")), index: Box::new(list(vec![var("l1")])), value: Box::new(num(9.0)) }), _ => st(S::ListInsert { list: Box::new(var("l1")), index: Box::new(var("l1")), value: Box::new(num(9.0)) }) });
        v.push(obs("log", vec![var("l1")]));
    }
    let mut r = one_script(v);
    r.globals.push(init("l1", V::Number(0.0)));
    agrees_role(r, vec![(0, Act::Start)])
}
fn ring_depth() -> CheckResult {
    let call = ex(E::CallClosure { new_entity: None, closure: Box::new(var("q1")), args: vec![add(var("n1"), num(1.0))] });
    let mut r = one_script(vec![assign("q1", ring_e(&["n1"], &["q1"], call)), st(S::TryCatch { var: vref("v1"), code: vec![obs("log", vec![ex(E::CallClosure { new_entity: None, closure: Box::new(var("q1")), args: vec![num(0.0)] })])], handler: vec![obs("log", vec![txt("deep")])] })]);
    r.globals.push(init("q1", V::Number(0.0)));
    agrees_role(r, vec![(0, Act::Start)])
}
fn own_broadcast() -> CheckResult {
    let send = st(S::SendLocalMessage { target: None, msg_type: Box::new(txt("go")), wait: true });
    let mut e = entity("Stage");
    e.scripts.push(script(H::LocalMessage { msg_type: Some("go".into()) }, vec![st(S::AddAssign { var: vref("n1"), value: Box::new(num(1.0)) }), st(S::If { condition: bin(|left, right| E::Less { left, right }, var("n1"), num(3.0)).into(), then: vec![send.clone()] }), obs("log", vec![var("n1")])]));
    e.scripts.push(script(H::LocalMessage { msg_type: None }, vec![obs("log", vec![txt("any")])]));
    e.scripts.push(script(H::OnFlag, vec![send]));
    let mut r = role(vec![e]);
    r.globals.push(init("n1", V::Number(0.0)));
    agrees_role(r, vec![(0, Act::Start)])
}
fn key_up() -> CheckResult {
    agrees_role(one_script(vec![obs("log", vec![txt("a")])]), vec![(0, Act::Start), (1, Act::KeyUp(crate::model::MKey::Char('a')))])
}
fn stranded() -> CheckResult {
    // runs queued in the very step their predecessor ends in, or behind one that fails, stops itself or is stopped
    let w = || st(S::Sleep { seconds: Box::new(num(0.0)) });
    let fail = || obs("log", vec![bin(|left, right| E::Sub { left, right }, boolean(true), num(1.0))]);
    let bodies: Vec<Vec<ast::Stmt>> = vec![
        vec![], vec![w()], vec![fail()], vec![w(), fail()], vec![st(S::Stop { mode: ast::StopMode::ThisScript })], vec![w(), st(S::Stop { mode: ast::StopMode::All })], vec![st(S::Stop { mode: ast::StopMode::All })],
        vec![st(S::Stop { mode: ast::StopMode::AllButThisScript })], vec![w(), w(), w()], vec![st(S::DeleteClone), w()],
    ];
    for b in bodies {
        let mut e = entity("Stage");
        let mut v = vec![obs("log", vec![var("n1")])];
        v.extend(b);
        v.push(obs("log", vec![txt("end")]));
        e.scripts.push(script(H::Unknown { name: "ev1".into(), fields: vec![vref("n1")] }, v));
        e.scripts.push(script(H::OnKey { key: "a".into() }, vec![st(S::Stop { mode: ast::StopMode::AllButThisScript }), obs("log", vec![txt("stopped")])]));
        e.scripts.push(script(H::OnKey { key: "b".into() }, vec![st(S::Stop { mode: ast::StopMode::All }), obs("log", vec![txt("stopped")])]));
        e.scripts.push(script(H::OnFlag, vec![w(), w(), w(), obs("log", vec![txt("alive")])]));
        let r = role(vec![e]);
        for how in 0..24 {
            let ev = |n: f64| Act::Custom { name: "ev1".into(), args: vec![("n1".into(), Snap::Num(n))], interrupt: false, max_queue: 8 };
            let stop = how / 4;
            let mut acts: Vec<(usize, Act)> = vec![(0, Act::Start), (0, ev(1.0)), (0, ev(2.0)), (1, ev(3.0)), (2, ev(4.0)), (3, ev(5.0))];
            acts.push((stop, match how % 4 { 0 => Act::Stop, 1 => Act::Key(crate::model::MKey::Char('a')), 2 => Act::Key(crate::model::MKey::Char('b')), _ => ev(6.0) }));
            acts.sort_by_key(|x| x.0);
            agrees_role(r.clone(), acts)?;
        }
    }
    Ok(())
}
fn long_wait() -> CheckResult {
    let mut s = Setup::new(one_script(vec![st(S::Sleep { seconds: Box::new(num(1e300)) }), obs("log", vec![txt("over")])]));
    s.max_turns = 20;
    match differential(&s)? { Some((m, _)) if m.trace.iter().all(|e| !e.to_string().contains("over")) => Ok(()), _ => Err("an endless wait ended".into()) }
}
fn point_xy() -> CheckResult {
    let mut e = entity("S"); e.scripts.push(script(H::OnFlag, vec![st(S::PointTowardsXY { x: Box::new(num(10.0)), y: Box::new(num(0.0)) }), obs("log", vec![ex(E::Heading)])]));
    agrees_role(role(vec![entity("Stage"), e]), vec![(0, Act::Start)])
}
fn huge_range() -> CheckResult {
    // what the items are is not compared: no list counts exactly there
    for (a, b) in [(9007199254740992.0, 9007199254740996.0), (1e300, 1e301), (-1e18, -1e19)] {
        let v = run_vm(&Setup::new(one_script(vec![obs("log", vec![ex(E::Range { start: Box::new(num(a)), stop: Box::new(num(b)) })])])), &VmOpts { budget: 100_000, ..Default::default() })?;
        if !v.fails.is_empty() { return Err(format!("numbers from {a} to {b} failed")) }
        for e in &v.trace { if let Ev::Command { args, .. } | Ev::Request { args, .. } = e { if let Some(Snap::List(_, xs)) = args.first() { if xs.first() != Some(&Snap::Num(a)) { return Err(format!("numbers from {a} to {b} start with {:?}", xs.first())) } } } }
    }
    Ok(())
}
fn locations() -> CheckResult {
    let fail = || st(S::UnknownBlock { name: "log".into(), args: vec![bin(|base, power| E::Sub { left: base, right: power }, boolean(true), num(1.0))] });
    let body = vec![at(st(S::If { condition: Box::new(boolean(true)), then: vec![at(assign("n1", num(1.0)), "item_2"), fail()] }), "item_1"), at(assign("n1", num(2.0)), "item_3")];
    let mut r = one_script(body);
    r.globals.push(init("n1", V::Number(0.0)));
    let s = Setup::new(r);
    let (m, v) = differential_with(&s, &VmOpts { want_trace: true, ..Default::default() })?.ok_or("budget")?;
    crate::p_misc::check_summaries(&s, &m, &v)?;
    let mut r = one_script(vec![fail(), at(assign("n1", num(2.0)), "item_3")]);
    r.globals.push(init("n1", V::Number(0.0)));
    let s = Setup::new(r);
    let (m, v) = differential_with(&s, &VmOpts { want_trace: true, ..Default::default() })?.ok_or("budget")?;
    crate::p_misc::check_summaries(&s, &m, &v).map(|_| ())
}
fn far_locations() -> CheckResult {
    let fail = || obs("log", vec![bin(|left, right| E::Sub { left, right }, boolean(true), num(1.0))]);
    for far in ["item_9223372036854775807", "item_-9223372036854775808"] {
        let mut e = entity("Stage");
        e.scripts.push(script(H::OnFlag, vec![at(fail(), far)]));
        e.scripts.push(script(H::OnFlag, vec![at(fail(), "item_5")]));
        let s = Setup::new(role(vec![e]));
        if compile(&s.role).is_err() { continue }
        let (m, v) = differential_with(&s, &VmOpts { want_trace: true, ..Default::default() })?.ok_or("budget")?;
        crate::p_misc::check_summaries(&s, &m, &v)?;
    }
    Ok(())
}
fn json_form() -> CheckResult {
    let (code, init, locs) = compile(&one_script(vec![obs("log", vec![num(1.5)])]))?;
    let t = |x: Result<String, serde_json::Error>| x.map_err(|e| e.to_string());
    let (a, b, c) = (t(serde_json::to_string(&code))?, t(serde_json::to_string(&init))?, t(serde_json::to_string(&locs))?);
    serde_json::from_str::<netsblox_vm::bytecode::ByteCode>(&a).map_err(|e| format!("code in JSON form: {e}"))?;
    serde_json::from_str::<netsblox_vm::bytecode::InitInfo>(&b).map_err(|e| format!("initial state in JSON form: {e}"))?;
    serde_json::from_str::<netsblox_vm::bytecode::Locations>(&c).map_err(|e| format!("locations in JSON form: {e}"))?;
    Ok(())
}
fn huge_random() -> CheckResult {
    for (a, b) in [(-1e300, 1e300), (-1.7e308, 1.7e308), (1e19, 1e20), (0.0, 9223372036854775808.0)] {
        let s = Setup::new(one_script((0..20).map(|_| obs("log", vec![ex(E::Random { a: Box::new(num(a)), b: Box::new(num(b)) })])).collect()));
        let v = run_vm(&s, &VmOpts { budget: 100_000, ..Default::default() })?;
        for e in &v.trace { if let Ev::Command { args, .. } | Ev::Request { args, .. } = e { for x in args { if let Snap::Num(x) = x { if *x < a || *x > b { return Err(format!("{x} drawn from {a} to {b}")) } } } } }
        if !v.fails.is_empty() { return Err(format!("drawing from {a} to {b} failed")) }
    }
    Ok(())
}
fn empty_combos() -> CheckResult {
    let k = 70_000usize;
    let long = bx(E::Range { start: Box::new(num(1.0)), stop: Box::new(num(k as f64)) });
    let mut r = one_script(vec![assign("l1", *long), obs("log", vec![ex(E::ListCombinations { sources: Box::new(list(vec![var("l1"), var("l1"), var("l1"), var("l1"), var("l1"), ex(E::MakeList { values: vec![] })])) })])]);
    r.globals.push(init("l1", V::Number(0.0)));
    let v = run_vm(&Setup::new(r), &VmOpts { budget: 1_000_000, ..Default::default() })?;
    if v.fails.is_empty() { Ok(()) } else { Err("the combinations of long lists with an empty list failed".into()) }
}
fn json_numbers() -> CheckResult {
    let x = -255.66666666666666f64;
    let s = Setup::new(one_script(vec![obs("log", vec![ex(E::TextSplit { text: Box::new(txt(&format!("[{x}]"))), mode: ast::TextSplitMode::Json })])]));
    let v = run_vm(&s, &VmOpts { budget: 100_000, ..Default::default() })?;
    for e in &v.trace { if let Ev::Command { args, .. } | Ev::Request { args, .. } = e { if let Some(Snap::List(_, xs)) = args.first() { if let Some(Snap::Num(y)) = xs.first() { return if x.to_bits() == y.to_bits() { Ok(()) } else { Err(format!("[{x}] split as JSON gives {y:?}")) } } } } }
    Err("no result".into())
}

pub fn properties() -> Vec<Claim> {
    let c = |id: &'static str, probes: Vec<Probe>| Claim { id, rule: "", assumptions: &[], subs: vec![], probes };
    let p = |id: &'static str, run: fn() -> CheckResult| Probe { id, run };
    vec![
        c("C01", vec![p("modulus-zero", modulus)]), c("C32", vec![p("heading-full-turn", headings), p("point-towards-xy", point_xy)]),
        c("C34", vec![p("note-range", notes)]), c("C29", vec![p("media-names", media_names)]), c("C05", vec![p("index-is-list", index_is_list)]),
        c("C12", vec![p("ring-depth", ring_depth)]), c("C20", vec![p("own-broadcast", own_broadcast)]), c("C19", vec![p("key-up", key_up)]),
        c("C22", vec![p("stranded-queue", stranded)]), c("C26", vec![p("endless-wait", long_wait)]), c("C06", vec![p("huge-range", huge_range), p("empty-combinations", empty_combos)]),
        c("C15", vec![p("locations", locations), p("far-locations", far_locations)]), c("C16", vec![p("json-form", json_form)]), c("C36", vec![p("huge-random", huge_random)]),
        c("C31", vec![p("json-number-ulp", json_numbers)]),
    ]
}
