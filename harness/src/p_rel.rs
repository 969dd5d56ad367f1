//! Properties decided by relations between runs of the same project: serialised or not, loaded state against source,
//! collected or not, fast or slow host, alone or together, disassembled.
use crate::drive::*;
use crate::gprog::*;
use crate::p_prog::*;
use crate::runner::*;
use crate::tape::{Gen, Rng};
use crate::vm::*;
use crate::mval;
use ast::{ExprKind as E, StmtKind as S, HatKind as H, Value as AV};
use netsblox_vm as nb;
use nb::bytecode::*;
use nb::gc::*;
use nb::project::*;
use nb::process::*;
use nb::runtime::*;
use nb::compact_str::CompactString;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use K::*;

/// Bound of the run, found with the reference; `None` discards the case.
pub fn bounded(s: &mut Setup, cx: &mut Ctx) -> Option<(Out, VmOpts)> {
    match clipped_model(s, false) {
        None => { cx.label("discarded (budget)"); None }
        Some(m) => { let o = VmOpts { budget: m.used * 400 + 20_000, ..Default::default() }; Some((m, o)) }
    }
}
/// Two runs of the VM have to agree in everything visible.
pub fn same_out(a: &Out, b: &Out, an: &str, bn: &str) -> Result<(), String> {
    diff_trace(&a.trace, &b.trace, an, bn)?;
    if a.finals.len() != b.finals.len() { return Err(format!("{bn}: final state has {} entries, {an}: {}", b.finals.len(), a.finals.len())) }
    for ((k, x), (l, y)) in a.finals.iter().zip(&b.finals) {
        if k.starts_with("watch") && (*x == Snap::Text("<gone>".into()) || *y == Snap::Text("<gone>".into())) { continue }
        if k != l || x != y { return Err(format!("final state {k}: {x} in {an}, {l}: {y} in {bn}")) }
    }
    if a.idle != b.idle || a.turns != b.turns { return Err(format!("{an} ended after {} turns idle={}, {bn} after {} turns idle={}", a.turns, a.idle, b.turns, b.idle)) }
    let (sa, sb): (Vec<_>, Vec<_>) = (a.fails.iter().map(|f| summary_text(f)).collect(), b.fails.iter().map(|f| summary_text(f)).collect());
    for (x, y) in sa.iter().zip(&sb) { if x != y { return Err(format!("error summaries differ:\n {an}: {x}\n {bn}: {y}")) } }
    Ok(())
}
fn summary_text(f: &FailInfo) -> String {
    match &f.summary { None => String::new(), Some(s) => {
        // values that show addresses are left out
        let vs = |v: &[VarEntry]| v.iter().map(|x| format!("{}={}", x.name, if x.value.contains("{ ") || x.value.contains("0x") || x.value.contains("Closure") || x.value.contains("Image") || x.value.contains("Audio") { "?" } else { x.value.as_str() })).collect::<Vec<_>>().join(",");
        format!("{} {} G[{}] F[{}] {}", mval::norm_text(&s.cause), s.entity, vs(&s.globals), vs(&s.fields), s.trace.iter().map(|t| format!("{}({})", t.location, vs(&t.locals))).collect::<Vec<_>>().join(" / "))
    } }
}

// ---------------------------------------------------------------- C16 serialisation
pub const SERIAL: Prof = Prof {
    stmts: ALL.stmts, locs: true, prop: 3, ents: 2, shared_vars: 60, size: 12, wild: 10, turns: 150,
    sprites: (0, 2), scripts: (1, 3), fns: (0, 3), call: 5, ring: 4, hof: 4, host: 4, clone: 2, time: 1, netreply: 1, hats: ALL.hats, events: ALL.events, n_events: (0, 6), event_span: 15, latency: true, soft: true, ..BASE
};
struct Bytes { code: Vec<u8>, init: Vec<u8>, locs: Vec<u8> }
fn cbor<T: serde::Serialize>(x: &T, w: &str) -> Result<Vec<u8>, String> { let mut v = vec![]; ciborium::into_writer(x, &mut v).map_err(|e| format!("serialising {w}: {e}"))?; Ok(v) }
fn uncbor<T: serde::de::DeserializeOwned>(x: &[u8], w: &str) -> Result<T, String> { ciborium::from_reader(x).map_err(|e| format!("deserialising {w}: {e}")) }
fn to_bytes(c: &ByteCode, i: &InitInfo, l: &Locations) -> Result<Bytes, String> { Ok(Bytes { code: cbor(c, "code")?, init: cbor(i, "initial state")?, locs: cbor(l, "locations")? }) }
fn from_bytes(b: &Bytes) -> Result<(ByteCode, InitInfo, Locations), String> { Ok((uncbor(&b.code, "code")?, uncbor(&b.init, "initial state")?, uncbor(&b.locs, "locations")?)) }
fn same_bytes(a: &Bytes, b: &Bytes) -> Result<(), String> {
    for (w, x, y) in [("code", &a.code, &b.code), ("initial state", &a.init, &b.init), ("locations", &a.locs, &b.locs)] {
        if x != y { let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len())); return Err(format!("the serialised {w} of the re-loaded program differs from the original's at byte {i} (lengths {} and {})", x.len(), y.len())) }
    }
    Ok(())
}
fn rich_state(g: &mut Gen, s: &mut Setup) {
    let mut vg = ValGen::new(g);
    for i in 0..2 { let v = vg.value(3); s.role.globals.push(init(&format!("gg{i}"), v)); }
    for e in &mut s.role.entities { let v = vg.value(2); e.fields.push(init("ff", v)); }
    vg.settle(&mut s.role);
}
pub fn c16_programs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &SERIAL);
    let rich = g.chance(1, 2);
    // values no script refers to, so that the bound holds with them too
    let o = match bounded(&mut s, cx) { Some(x) => x.1, None => return Ok(()) };
    if rich { rich_state(g, &mut s); }
    cx.sample(|| show(&s));
    let (code, initi, locs) = compile(&s.role)?;
    let b = to_bytes(&code, &initi, &locs)?;
    let (c2, i2, l2) = from_bytes(&b)?;
    same_bytes(&b, &to_bytes(&c2, &i2, &l2)?)?;
    let a = run_vm_code(&s, &o, Rc::new(code), &initi, &locs, settings(s.set))?;
    let r = run_vm_code(&s, &o, Rc::new(c2), &i2, &l2, settings(s.set))?;
    same_out(&a, &r, "the original", "the re-loaded program")?;
    cx.nt_if(a.trace.len() > 8);
    cx.label_if(rich, "rich initial state");
    cx.label_if(!a.fails.is_empty(), "with errors");
    Ok(())
}
/// The self-describing form.
pub fn c16_json(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &SERIAL);
    cx.sample(|| show(&s));
    let Some((_, o)) = bounded(&mut s, cx) else { return Ok(()) };
    let (code, initi, locs) = compile(&s.role)?;
    let j = |w: &str, e: serde_json::Error| format!("{w} in JSON form: {e}");
    let (cj, ij, lj) = (serde_json::to_string(&code).map_err(|e| j("code", e))?, serde_json::to_string(&initi).map_err(|e| j("initial state", e))?, serde_json::to_string(&locs).map_err(|e| j("locations", e))?);
    let c2: ByteCode = serde_json::from_str(&cj).map_err(|e| j("code", e))?;
    let i2: InitInfo = serde_json::from_str(&ij).map_err(|e| j("initial state", e))?;
    let l2: Locations = serde_json::from_str(&lj).map_err(|e| j("locations", e))?;
    if serde_json::to_string(&c2).unwrap() != cj || serde_json::to_string(&i2).unwrap() != ij || serde_json::to_string(&l2).unwrap() != lj { return Err("the JSON form of the re-loaded program differs from the original's".into()) }
    let a = run_vm_code(&s, &o, Rc::new(code), &initi, &locs, settings(s.set))?;
    let r = run_vm_code(&s, &o, Rc::new(c2), &i2, &l2, settings(s.set))?;
    same_out(&a, &r, "the original", "the program re-loaded from JSON")?;
    cx.nt_if(a.trace.len() > 8);
    Ok(())
}

// ---------------------------------------------------------------- C17 loaded state
/// Generates initial values: shared, cyclic, nested lists, media, every kind of scalar.
pub struct ValGen<'a> { pub g: &'a mut Gen, next: usize, defined: Vec<usize>, wanted: Vec<usize>, images: Vec<Rc<(Vec<u8>, Option<(f64, f64)>, CompactString)>>, audios: Vec<Rc<(Vec<u8>, CompactString)>>, pub shared: bool, pub budget: usize }
impl<'a> ValGen<'a> {
    pub fn new(g: &'a mut Gen) -> Self { ValGen { g, next: 500, defined: vec![], wanted: vec![], images: vec![], audios: vec![], shared: false, budget: 60 } }
    fn name(&mut self) -> CompactString { self.g.pickc(&["a", "cat", "été", "", "7", "a b", "x".repeat(40).as_str()]).into() }
    fn number(&mut self) -> f64 { match self.g.below(8) { 0 => 0.0, 1 => self.g.range(-5, 300) as f64, 2 => self.g.range(-70000, 70000) as f64, 3 => self.g.range(-1 << 40, 1 << 40) as f64, 4 => self.g.range(-999, 999) as f64 / 8.0, 5 => self.g.pickc(&[2147483647.0, -2147483648.0, 2147483648.0, 1e15, 1e21, 1e300, -1e-300, 5e-324, 0.1, f64::MAX]), 6 => f64::from_bits(self.g.bits()), _ => self.g.below(4) as f64 } }
    pub fn image(&mut self) -> AV {
        if !self.images.is_empty() && self.g.chance(1, 3) { self.shared = true; return AV::Image(self.g.pick(&self.images).clone()) }
        let n = self.g.below(6);
        let c = if self.g.bool() { Some((self.g.range(-40, 40) as f64 / 2.0, self.g.range(-40, 40) as f64)) } else { None };
        let x = Rc::new(((0..n).map(|_| self.g.below(256) as u8).collect(), c, self.name()));
        self.images.push(x.clone());
        AV::Image(x)
    }
    pub fn audio(&mut self) -> AV {
        if !self.audios.is_empty() && self.g.chance(1, 3) { self.shared = true; return AV::Audio(self.g.pick(&self.audios).clone()) }
        let n = self.g.below(6);
        let x = Rc::new(((0..n).map(|_| self.g.below(256) as u8).collect(), self.name()));
        self.audios.push(x.clone());
        AV::Audio(x)
    }
    pub fn value(&mut self, d: usize) -> AV {
        if self.budget == 0 { return AV::Number(1.0) }
        self.budget -= 1;
        match self.g.weighted(&[4, 2, 4, 1, if d > 0 { 9 } else { 0 }, 3, 1, 1]) {
            0 => { let mut x = self.number(); if !x.is_finite() { x = 3.5; } AV::Number(x) }
            1 => AV::Bool(self.g.bool()),
            2 => AV::String(self.g.pickc(&["", "a", "hello", "7", "-12", "007", "2147483648", "true", "é\u{301}\u{1f468}\u{200d}\u{1f469}", "a\0b", "long text that is longer than the twenty four bytes kept inline", "hello"]).into()),
            3 => AV::Constant(if self.g.bool() { ast::Constant::Pi } else { ast::Constant::E }),
            4 => {
                let id = if self.g.chance(2, 3) {
                    // a list announced before by a forward reference, or a new one
                    let x = if !self.wanted.is_empty() && self.g.bool() { self.wanted.remove(0) } else { self.next += 1; self.next };
                    self.defined.push(x); Some(x)
                } else { None };
                let n = self.g.below(5);
                let items = (0..n).map(|_| self.value(d - 1)).collect();
                AV::List(items, id.map(ast::RefId))
            }
            5 => {
                if self.g.chance(1, 4) { self.next += 1; let x = self.next; self.wanted.push(x); self.shared = true; return AV::Ref(ast::RefId(x)) }
                if self.defined.is_empty() { return AV::Number(2.0) }
                self.shared = true;
                AV::Ref(ast::RefId(*self.g.pick(&self.defined)))
            }
            6 => self.image(),
            _ => self.audio(),
        }
    }
    /// Gives every promised list a definition.
    pub fn settle(&mut self, r: &mut ast::Role) { let w = std::mem::take(&mut self.wanted); for (i, x) in w.into_iter().enumerate() { let v = AV::List(vec![AV::Number(i as f64), AV::Ref(ast::RefId(x))], Some(ast::RefId(x))); r.globals.push(init(&format!("late{i}"), v)); } }
    /// Position, direction, size, colour, visibility.
    pub fn look(&mut self, e: &mut ast::Entity) {
        e.visible = self.g.bool();
        e.pos = (self.g.range(-2000, 2000) as f64 / 4.0, self.g.range(-2000, 2000) as f64 / 4.0);
        e.heading = match self.g.below(4) { 0 => self.g.pickc(&[0.0, 90.0, 360.0, -90.0, 720.0, 450.0, -360.0, 359.5]), _ => self.g.range(-4000, 4000) as f64 / 4.0 };
        e.scale = self.g.below(40) as f64 / 8.0;
        e.color = match self.g.below(3) { 0 => (0, 0, 0, 255), _ => (self.g.below(256) as u8, self.g.below(256) as u8, self.g.below(256) as u8, self.g.below(256) as u8) };
        e.active_costume = if self.g.chance(2, 3) { Some(self.g.below(4)) } else { None };
    }
}
fn defs<'b>(v: &'b AV, m: &mut BTreeMap<usize, &'b AV>) { if let AV::List(xs, id) = v { if let Some(id) = id { m.insert(id.0, v); } for x in xs { defs(x, m); } } }
/// The picture of an initial value, by its own reading of the source.
fn expected<'b>(v: &'b AV, m: &BTreeMap<usize, &'b AV>, ids: &mut BTreeMap<usize, usize>) -> Snap {
    let fresh = |key: usize, ids: &mut BTreeMap<usize, usize>| { let n = ids.len(); match ids.entry(key) { std::collections::btree_map::Entry::Occupied(e) => (*e.get(), true), std::collections::btree_map::Entry::Vacant(e) => { e.insert(n); (n, false) } } };
    match v {
        AV::Bool(x) => Snap::Bool(*x), AV::Number(x) => Snap::Num(*x), AV::String(x) => Snap::Text(x.to_string()),
        AV::Constant(ast::Constant::Pi) => Snap::Num(std::f64::consts::PI), AV::Constant(ast::Constant::E) => Snap::Num(std::f64::consts::E),
        AV::Image(x) => Snap::Image { name: x.2.to_string(), content: x.0.clone(), center: x.1, id: fresh(Rc::as_ptr(x) as *const () as usize, ids).0 },
        AV::Audio(x) => Snap::Audio { name: x.1.to_string(), content: x.0.clone(), id: fresh(Rc::as_ptr(x) as *const () as usize, ids).0 },
        AV::Ref(id) => expected(m[&id.0], m, ids),
        AV::List(xs, _) => {
            let (n, seen) = fresh(v as *const AV as usize, ids);
            if seen { return Snap::Back(n) }
            Snap::List(n, xs.iter().map(|x| expected(x, m, ids)).collect())
        }
    }
}
fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }
/// Hue (degrees), saturation and value (percent) by the textbook.
fn hsv(r: u8, g: u8, b: u8) -> (f64, f64, f64) {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
    let d = mx - mn;
    let h = if d == 0.0 { 0.0 } else if mx == r { 60.0 * ((g - b) / d) } else if mx == g { 60.0 * ((b - r) / d + 2.0) } else { 60.0 * ((r - g) / d + 4.0) };
    ((h + 360.0) % 360.0, if mx == 0.0 { 0.0 } else { d / mx * 100.0 }, mx / 255.0 * 100.0)
}
fn check_state<'gc>(r: &ast::Role, p: &Project<'gc, C, Sys>) -> CheckResult {
    let gc = p.get_global_context();
    let gc = gc.borrow();
    let mut m = BTreeMap::new();
    for v in r.globals.iter().map(|x| &x.init).chain(r.entities.iter().flat_map(|e| e.fields.iter().chain(&e.costumes).chain(&e.sounds).map(|x| &x.init))) { defs(v, &mut m); }
    if gc.proj_name.as_str() != r.name.as_str() { return Err(format!("project name {:?} instead of {:?}", gc.proj_name, r.name)) }
    let (mut cx, mut ids) = (SnapCtx::default(), BTreeMap::new());
    let same = |what: String, e: Snap, got: Snap| if e == got { Ok(()) } else { Err(format!("{what} starts as {got}, the project says {e}")) };
    if gc.globals.len() != r.globals.len() { return Err(format!("{} globals loaded, the project has {}", gc.globals.len(), r.globals.len())) }
    for d in &r.globals { let v = gc.globals.lookup(&d.def.name).ok_or(format!("global {} is missing", d.def.name))?; same(format!("global {}", d.def.name), expected(&d.init, &m, &mut ids), cx.snap(&v.get()))?; }
    if gc.entities.len() != r.entities.len() { return Err(format!("{} sprites loaded, the project has {}", gc.entities.len(), r.entities.len())) }
    for (i, d) in r.entities.iter().enumerate() {
        let e = gc.entities.iter().find(|x| x.0.as_str() == d.name.as_str()).ok_or(format!("sprite {} is missing", d.name))?.1.borrow();
        let at = format!("sprite {}", d.name);
        if e.state.uid != i as u32 || e.state.is_clone || e.original.is_some() || e.name.as_str() != d.name.as_str() { return Err(format!("{at}: loaded as number {} named {:?}", e.state.uid, e.name)) }
        if e.fields.len() != d.fields.len() { return Err(format!("{at}: {} variables loaded, the project has {}", e.fields.len(), d.fields.len())) }
        for f in &d.fields { let v = e.fields.lookup(&f.def.name).ok_or(format!("{at}: variable {} is missing", f.def.name))?; same(format!("{at}: variable {}", f.def.name), expected(&f.init, &m, &mut ids), cx.snap(&v.get()))?; }
        let cos: Vec<_> = e.costume_list.as_slice().iter().map(|x| (x.key.to_string(), cx.snap(&Value::Image(x.value.clone())))).collect();
        let want: Vec<_> = d.costumes.iter().map(|x| (x.def.name.to_string(), expected(&x.init, &m, &mut ids))).collect();
        if cos != want { return Err(format!("{at}: costumes {cos:?}, the project says {want:?}")) }
        let snd: Vec<_> = e.sound_list.as_slice().iter().map(|x| (x.key.to_string(), cx.snap(&Value::Audio(x.value.clone())))).collect();
        let want: Vec<_> = d.sounds.iter().map(|x| (x.def.name.to_string(), expected(&x.init, &m, &mut ids))).collect();
        if snd != want { return Err(format!("{at}: sounds {snd:?}, the project says {want:?}")) }
        let want = d.active_costume.and_then(|x| d.costumes.get(x)).map(|x| expected(&x.init, &m, &mut ids));
        let got = e.costume.as_ref().map(|x| cx.snap(&Value::Image(x.clone())));
        if got != want { return Err(format!("{at}: wears {got:?}, the project says {want:?}")) }
        let p = &e.state.props;
        if p.visible != d.visible || p.pos.0.get() != d.pos.0 || p.pos.1.get() != d.pos.1 { return Err(format!("{at}: visible {} at {:?}, the project says {} at {:?}", p.visible, p.pos, d.visible, d.pos)) }
        let h = ((d.heading % 360.0) + 360.0) % 360.0;
        if !close(p.heading.get(), h, 1e-9) { return Err(format!("{at}: heading {}, the project says {}", p.heading, d.heading)) }
        if !close(p.size.get(), d.scale * 100.0, 1e-9) { return Err(format!("{at}: size {}, the project says scale {}", p.size, d.scale)) }
        let (ch, cs, cv) = hsv(d.color.0, d.color.1, d.color.2);
        let dh = (p.pen_color_h.get() - ch).abs();
        if dh.min(360.0 - dh) > 0.01 || !close(p.pen_color_s.get(), cs, 0.01) || !close(p.pen_color_v.get(), cv, 0.01) || !close(p.pen_color_t.get(), (255.0 - d.color.3 as f64) / 2.55, 0.01) { return Err(format!("{at}: pen colour h{} s{} v{} t{}, the project says rgba {:?}", p.pen_color_h, p.pen_color_s, p.pen_color_v, p.pen_color_t, d.color)) }
        let zero = [p.effects.color_h, p.effects.color_s, p.effects.color_v, p.effects.color_t, p.effects.fisheye, p.effects.whirl, p.effects.pixelate, p.effects.mosaic, p.effects.negative, p.balance];
        if p.pen_down || p.pen_size.get() != 1.0 || p.tempo.get() != 60.0 || p.volume.get() != 100.0 || zero.iter().any(|x| x.get() != 0.0) { return Err(format!("{at}: pen, sound and effects do not start from their defaults")) }
    }
    Ok(())
}
/// Blocks that change whatever state a script can reach.
const CHANGE: Prof = Prof {
    stmts: &[(Obs, 3), (Assign, 10), (AddAssign, 4), (ListMut, 10), (Prop, 6), (Costume, 3), (Clone, 2), (If, 2), (Foreach, 2), (Watch, 1), (TimerReset, 1)],
    sprites: (0, 2), prop: 3, size: 10, wild: 1, shared_vars: 80, hats: &[(HK::Flag, 1)], n_events: (0, 0), turns: 40, ..BASE
};
pub fn c17_state(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &CHANGE);
    s.role.name = g.pickc(&["role", "my project", "", "été"]).into();
    let mut vg = ValGen::new(g);
    let n = vg.g.below(5);
    for i in 0..n { let v = vg.value(4); s.role.globals.push(init(&format!("gg{i}"), v)); }
    for e in &mut s.role.entities {
        let n = vg.g.below(4);
        for i in 0..n { let v = vg.value(3); e.fields.push(init(&format!("ff{i}"), v)); }
        e.costumes.clear(); e.sounds.clear();
        let n = vg.g.below(4);
        for i in 0..n { let v = vg.image(); e.costumes.push(init(["zed", "able", "mike"][i], v)); }
        let n = vg.g.below(3);
        for i in 0..n { let v = vg.audio(); e.sounds.push(init(["zap", "bang"][i], v)); }
        vg.look(e);
    }
    vg.settle(&mut s.role);
    let shared = vg.shared;
    let serial = vg.g.chance(1, 4);
    cx.sample(|| show(&s));
    cx.nt_if(shared);
    cx.label_if(shared, "shared references");
    let Some((_, bo)) = bounded(&mut s, cx) else { return Ok(()) };
    let (mut code, mut initi, locs) = compile(&s.role)?;
    if serial { let b = to_bytes(&code, &initi, &locs)?; let x = from_bytes(&b)?; code = x.0; initi = x.1; }
    let code = Rc::new(code);
    let o = VmOpts::default();
    let mk = || { reset_ids(); VmRun::new(&s, &o, code.clone(), &initi, settings(s.set)) };
    let mut a = mk();
    a.arena.mutate(|_, root| check_state(&s.role, &root.proj.unwrap().borrow()))?;
    // hat-less or not, nothing runs before an input
    let idle = a.arena.mutate(|mc, root| { let p = root.proj.unwrap(); let x = matches!(p.borrow_mut(mc).step(mc), ProjectStep::Idle); x });
    if !idle { return Err("a freshly loaded project does something before any input".into()) }
    // a second load of the same program in the same arena, while the first one runs
    a.arena.mutate_root(|mc, root| {
        let set = settings(s.set);
        reset_ids();
        let second = Gc::new(mc, RefLock::new(Project::from_init(mc, &initi, code.clone(), set, a.sys.clone())));
        check_state(&s.role, &second.borrow())?;
        let first = root.proj.unwrap();
        first.borrow_mut(mc).input(mc, Input::Start);
        let (mut n, mut t) = (0, 0);
        while t < s.max_turns && n < bo.budget { n += 1; match first.borrow_mut(mc).step(mc) { ProjectStep::Idle => break, ProjectStep::Normal | ProjectStep::Watcher { .. } | ProjectStep::Pause => (), _ => t += 1 } }
        check_state(&s.role, &second.borrow()).map_err(|e| format!("after running another project loaded from the same source: {e}"))
    })
}
/// Every kind of hat reacts to its own event; a script without a hat to none.
pub const HATS: Prof = Prof {
    stmts: &[(Obs, 10), (AddAssign, 4), (Wait, 1), (Clone, 2), (Broadcast, 4), (Repeat, 1)], sprites: (1, 3), scripts: (2, 5), hats: &[(HK::Flag, 4), (HK::Key, 5), (HK::Event, 4), (HK::Message, 4), (HK::AnyMessage, 2), (HK::Clone, 3), (HK::Net, 4), (HK::None, 2)],
    events: &[(EK::Start, 2), (EK::Key, 8), (EK::Event, 4), (EK::Msg, 4), (EK::Stop, 1), (EK::KeyUp, 1)], n_events: (3, 12), event_span: 6, size: 4, depth: 1, nest: 1, call: 0, ring: 0, hof: 0, wild: 0, fns: (0, 0), turns: 150, shared_vars: 60, ..BASE
};
pub fn c17_hats(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_diff(g, cx, &HATS, |m| m.stats.done > 1) }

// ---------------------------------------------------------------- C18 scheduling
pub const SCHED: Prof = Prof {
    stmts: &[(Obs, 10), (AddAssign, 3), (Repeat, 9), (For, 3), (Foreach, 2), (Until, 2), (Forever, 2), (Wait, 4), (WaitUntil, 1), (Fork, 5), (Broadcast, 3), (BroadcastWait, 3), (Clone, 2), (DeleteClone, 1), (Fail, 3), (Try, 1), (StopThis, 2), (StopOthers, 1), (StopSprite, 1), (StopAll, 1), (Warp, 2), (Rpc, 1), (Ask, 1), (Pause, 2), (CallFn, 1), (Watch, 1)],
    sprites: (0, 3), scripts: (1, 5), hats: &[(HK::Flag, 10), (HK::Key, 2), (HK::Event, 3), (HK::Message, 4), (HK::Clone, 2), (HK::Net, 2), (HK::None, 1)], events: &[(EK::Start, 3), (EK::Key, 3), (EK::Event, 4), (EK::Msg, 2), (EK::Stop, 1), (EK::KeyUp, 1)], n_events: (0, 6), event_span: 12,
    size: 7, depth: 1, nest: 2, call: 1, ring: 1, hof: 1, host: 1, wild: 1, latency: true, shared_vars: 60, turns: 300, ..BASE
};
pub fn c18_programs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let s = project(g, &SCHED);
    cx.sample(|| show(&s));
    match differential(&s)? {
        None => cx.label("discarded (budget)"),
        Some((m, v)) => {
            cx.nt_if(m.stats.yields > 5);
            cx.label_if(m.idle, "ran to idle");
            cx.label_if(m.stats.forks > 0, "forks");
            // the same inputs give the same run
            let mut s = s.clone();
            if !m.idle { s.max_turns = m.turns; }
            let w = run_vm(&s, &VmOpts::default())?;
            same_out(&v, &w, "the first run", "the second run")?;
        }
    }
    Ok(())
}

/// What is to be done when nothing goes on is done after so many steps without work in a row, not before, and again after as many more.
pub fn c18_idle(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let s = project(g, &SCHED);
    let limit = g.pickc(&[1usize, 2, 3, 4, 7, 16, 100]);
    let extra = g.below(3 * limit + 2);
    cx.sample(|| format!("{}idle action after {limit}", show(&s)));
    if run_model(&s).is_none() { cx.label("discarded (budget)"); return Ok(()) }
    let base = crate::p_more::live();
    let (code, initi, _) = compile(&s.role)?;
    reset_ids();
    let o = VmOpts { plain_seq: true, ..VmOpts::default() };
    let mut run = VmRun::new(&s, &o, Rc::new(code), &initi, settings(s.set));
    let fired = Rc::new(std::cell::Cell::new(0usize));
    let f = fired.clone();
    let mut act = nb::project::IdleAction::new(limit, Box::new(move || f.set(f.get() + 1)));
    let (mut row, mut want, mut works, mut waits) = (0, 0, 0, 0);
    let mut next = 0;
    let mut idle = 0;
    for t in 0..600 {
        while next < s.acts.len() && s.acts[next].0 <= t { let a = &s.acts[next].1; if !matches!(a, Act::Msg { .. }) { run.arena.mutate(|mc, root| give_input(&mut root.proj.unwrap().borrow_mut(mc), mc, a)); } next += 1; }
        run.sys.st.borrow_mut().now += 3;
        let step = |run: &mut VmRun, act: &mut nb::project::IdleAction| run.arena.mutate(|mc, root| {
            let p = root.proj.unwrap();
            let mut p = p.borrow_mut(mc);
            let r = p.step(mc);
            act.consume(&r);
            match r { nb::project::ProjectStep::Idle => 2, nb::project::ProjectStep::Yield | nb::project::ProjectStep::Pause => 1, _ => 0 }
        });
        for _ in 0..20 {
            let k = step(&mut run, &mut act);
            if k > 0 { row += 1; waits += 1; if row >= limit { row = 0; want += 1; } } else { row = 0; works += 1; }
            if fired.get() != want { return Err(format!("after {works} steps of work and {waits} without, the idle action has happened {} times, expected {want}", fired.get())) }
            if g.chance(1, 4000) { act.trigger(); want += 1; row = 0; if fired.get() != want { return Err("triggering the idle action does nothing".into()) } }
            if k == 2 { idle += 1; break }
            if crate::p_more::live() - base > 4_000_000 { break }
        }
        run.sys.st.borrow_mut().trace.clear();
        if idle > extra && next >= s.acts.len() || crate::p_more::live() - base > 4_000_000 { break }
    }
    cx.nt_if(works > 10 && want > 0);
    Ok(())
}

// ---------------------------------------------------------------- C37 disassembly
pub const DUMP: Prof = Prof { stmts: SERIAL.stmts, size: 20, scripts: (1, 4), fns: (0, 3), call: 5, ring: 5, hof: 5, host: 4, ents: 3, prop: 3, clone: 3, time: 2, netreply: 2, fail: 3, sprites: (0, 2), wild: 10, hats: ALL.hats, locs: true, ..BASE };
fn parse_dump(text: &str) -> Result<(Vec<(usize, Vec<u8>, String)>, Vec<u8>), String> {
    let mut ins: Vec<(usize, Vec<u8>, String)> = vec![];
    let mut all = vec![];
    for line in text.lines() {
        if !line.is_ascii() && line.get(..11).is_none() { return Err(format!("odd line in the dump: {line:?}")) }
        let head = &line[..line.len().min(11)];
        let pos = head.trim();
        let mut rest = &line[head.len()..];
        let mut bytes = vec![];
        while rest.len() >= 3 && rest.is_char_boundary(3) && rest.starts_with(' ') && rest.as_bytes()[1..3].iter().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_uppercase()) { bytes.push(u8::from_str_radix(&rest[1..3], 16).unwrap()); rest = &rest[3..]; }
        if bytes.is_empty() { return Err(format!("a line of the dump shows no bytes: {line:?}")) }
        if pos.is_empty() {
            let last = ins.last_mut().ok_or("the dump starts with a continuation line")?;
            last.1.extend(&bytes);
        } else {
            let p: usize = pos.parse().map_err(|_| format!("bad address in {line:?}"))?;
            if p != all.len() { return Err(format!("the dump goes on at {p}, {} bytes were shown so far", all.len())) }
            ins.push((p, bytes.clone(), rest.trim_start().to_string()));
        }
        all.extend(bytes);
    }
    Ok((ins, all))
}
fn strings_of(t: &str) -> Vec<String> {
    // string literals in the debug form of a syntax tree: String("…")
    let mut out = vec![];
    let mut rest = t;
    while let Some(i) = rest.find("Value(String(\"") {
        let body = &rest[i + 13..];
        let b = body.as_bytes();
        let mut j = 1;
        while b[j] != b'"' { if b[j] == b'\\' { j += 1; } j += 1; }
        out.push(body[..=j].to_string());
        rest = &body[j..];
    }
    out
}
pub fn check_dump(role: &ast::Role, cx: &mut Ctx) -> CheckResult {
    let (code, _, _, info) = ByteCode::compile(role).map_err(|e| format!("program does not compile: {e:?}"))?;
    let (mut a, mut b) = (vec![], vec![]);
    code.dump_code(&mut a).map_err(|e| format!("dump_code failed: {e}"))?;
    code.dump_data(&mut b).map_err(|e| format!("dump_data failed: {e}"))?;
    let (a, b) = (String::from_utf8(a).map_err(|_| "the dump is not text")?, String::from_utf8(b).map_err(|_| "the dump is not text")?);
    let (ins, cbytes) = parse_dump(&a).map_err(|e| format!("code: {e}"))?;
    let (_, dbytes) = parse_dump(&b).map_err(|e| format!("data: {e}"))?;
    if cbytes.len() + dbytes.len() != code.total_size() { return Err(format!("the dumps show {} + {} bytes, the reported size is {}", cbytes.len(), dbytes.len(), code.total_size())) }
    let raw = bincode::serialize(&code).map_err(|e| e.to_string())?;
    let has = |x: &[u8]| x.is_empty() || raw.windows(x.len()).any(|w| w == x);
    if !has(&cbytes) { return Err("the bytes shown by the code dump are not those of the program".into()) }
    if !has(&dbytes) { return Err("the bytes shown by the data dump are not those of the program".into()) }
    // two lengths and the fingerprint besides
    if raw.len() < code.total_size() || raw.len() > code.total_size() + 64 { return Err(format!("serialised size {} for a reported size of {}", raw.len(), code.total_size())) }
    // the readable column of the data dump
    let per = b.lines().next().map(|l| l[8..].split_whitespace().take_while(|x| x.len() == 2 && x.chars().all(|c| c.is_ascii_hexdigit())).count()).unwrap_or(0);
    if dbytes.len() > 64 && per > 1 {
        for (line, bytes) in b.lines().zip(dbytes.chunks(per)) {
            let col: Vec<char> = line.chars().rev().take(bytes.len()).collect();
            for (c, &x) in col.iter().rev().zip(bytes) {
                let ok = if (0x21..=0x7e).contains(&x) { *c == x as char } else { *c == '.' || (x == 0x20 && *c == ' ') };
                if !ok { return Err(format!("byte {x:02x} is shown as {c:?} in the data dump line {line:?}")) }
            }
        }
    }
    let starts: BTreeSet<usize> = ins.iter().map(|x| x.0).collect();
    let at = |p: usize, what: &str| if starts.contains(&p) { Ok(()) } else { Err(format!("{what} {p} is not the start of an instruction")) };
    for f in &info.funcs { at(f.1, "the entry point of a block at")?; }
    for e in &info.entities { for f in &e.1.funcs { at(f.1, "the entry point of a sprite's block at")?; } for x in &e.1.scripts { at(x.1, "the entry point of a script at")?; } }
    let mut jumps = 0;
    for i in &ins {
        if i.2.is_empty() { return Err(format!("the instruction at {} is not named", i.0)) }
        if i.2.contains('"') && !i.2.starts_with("MakeClosure") && !i.2.starts_with("Call") && !i.2.starts_with("PushHandler") { continue }
        for key in [" to: ", " goto: ", " pos: "] {
            if let Some(k) = i.2.find(key) { let d: String = i.2[k + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(p) = d.parse() { jumps += 1; at(p, &format!("the target of {:?} at {}:", i.2, i.0))?; } }
        }
    }
    let shown: BTreeSet<&str> = ins.iter().map(|x| x.2.as_str()).collect();
    for l in strings_of(&format!("{:?} {:?} {:?}", role.funcs, role.entities.iter().map(|e| &e.funcs).collect::<Vec<_>>(), role.entities.iter().map(|e| e.scripts.iter().map(|s| &s.stmts).collect::<Vec<_>>()).collect::<Vec<_>>())) {
        let inner = &l[1..l.len() - 1];
        if !shown.iter().any(|i| i.contains(&l)) && !(inner.parse::<i32>().is_ok() && shown.iter().any(|i| i.contains(inner))) { return Err(format!("the text {l} of the program is not in the dump")) }
    }
    cx.nt_if(jumps > 0);
    Ok(())
}
pub fn c37_dump(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut s = project(g, &DUMP);
    // literals of every size, among them long ones and ones that are prefixes of others
    let n = g.below(4);
    for _ in 0..n {
        let t: String = match g.below(7) { 5 | 6 => (0..g.below(40)).map(|_| (32 + g.below(95)) as u8 as char).collect(), 0 => "word".repeat(1 + g.below(60)), 1 => (0..g.below(20)).map(|_| g.pickc(&['a', 'é', '"', '\\', '\n', '\u{1f600}', ' ', '7'])).collect(), 2 => format!("{}", g.range(-300000, 300000)), 3 => format!("{}", g.bits()), _ => "to: 3 pos: 4".into() };
        let x = match g.below(3) { 0 => E::Value(AV::Number(f64::from_bits(g.bits()))), _ => E::Value(AV::String(t.as_str().into())) };
        let x = if let E::Value(AV::Number(v)) = &x { if v.is_finite() { x } else { E::Value(AV::Number(1.5)) } } else { x };
        let k = g.below(s.role.entities.len());
        let e = &mut s.role.entities[k];
        e.scripts.push(script(H::OnFlag, vec![obs("log", vec![ex(x)])]));
    }
    // ... and rarely one that moves the rest beyond every width of an address
    if g.chance(1, 150) {
        let n = g.pickc(&[250, 16_380, 65_530, 65_600, 131_080, 700_000]) + g.below(12);
        let k = g.below(s.role.entities.len());
        s.role.entities[k].scripts.push(script(H::OnFlag, vec![obs("log", vec![txt(&"0123456789 end".chars().cycle().take(n).collect::<String>()), txt("after it")])]));
        cx.label_if(n > 65_000, "long literal");
        return check_dump(&s.role, cx)
    }
    // ... or very much code
    if g.chance(1, 400) {
        let n = g.pickc(&[3_000, 12_000, 20_000]);
        let k = g.below(s.role.entities.len());
        let pos = g.below(s.role.entities[k].scripts.len() + 1);
        s.role.entities[k].scripts.insert(pos, script(H::OnFlag, (0..n).map(|i| assign("v1", num(i as f64 * 0.5))).collect()));
        cx.label("much code");
        return check_dump(&s.role, cx)
    }
    cx.sample(|| show(&s));
    check_dump(&s.role, cx)
}

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C16", rule: "random projects (half with rich shared and cyclic initial values and media) run before and after serialisation of code, initial state and locations; non-trivial = more than eight events", assumptions: &[],
            subs: vec![Sub { name: "binary", run: c16_programs, quick: 60_000, thorough: 1_500_000 }, Sub { name: "json", run: c16_json, quick: 12_000, thorough: 300_000 }], probes: vec![] },
        Claim { id: "C17", rule: "random project sources with shared, forward-referenced and cyclic lists, media, looks and scripts under every hat, loaded state compared with an own reading of the source, twice in one arena; non-trivial = shared references, or scripts started by their hats", assumptions: &[],
            subs: vec![Sub { name: "state", run: c17_state, quick: 150_000, thorough: 4_000_000 }, Sub { name: "hats", run: c17_hats, quick: 150_000, thorough: 4_000_000 }], probes: vec![] },
        Claim { id: "C18", rule: "random projects of many short scripts, forks, waits and errors under random events, compared step by step with the reference, run twice and probed after idling (non-trivial = more than five switches); idle: the idle helper fed with the steps of random projects against an own count (non-trivial = more than ten steps of work and the action happened)", assumptions: &[],
            subs: vec![Sub { name: "programs", run: c18_programs, quick: 250_000, thorough: 5_000_000 }, Sub { name: "idle", run: c18_idle, quick: 40_000, thorough: 400_000 }], probes: vec![] },
        Claim { id: "C37", rule: "random projects with literals of all sizes, dumps parsed back and compared with the serialised program; non-trivial = the code contains a jump or call", assumptions: &[],
            subs: vec![Sub { name: "dump", run: c37_dump, quick: 60_000, thorough: 1_500_000 }], probes: vec![] },
    ]
}
