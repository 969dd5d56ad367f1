//! Generator of well-scoped, mostly well-typed projects, steered by a profile.
use crate::drive::{Act, Setup};
use crate::model::{MKey, MSettings};
use crate::tape::{Gen, Rng};
use crate::vm::{ast, Snap};
use netsblox_vm::json::json;
use ast::{ExprKind as E, StmtKind as S, HatKind as H, Stmt, Expr, VariableRef, VariableDef, VarLocation, FnLocation, BlockInfo};

// ---------------------------------------------------------------- builders
pub fn ex(kind: E) -> Expr { Expr { kind, info: BlockInfo::none() } }
pub fn bx(kind: E) -> Box<Expr> { Box::new(ex(kind)) }
pub fn st(kind: S) -> Stmt { Stmt { kind, info: BlockInfo::none() } }
pub fn num(x: f64) -> Expr { ex(E::Value(ast::Value::Number(x))) }
pub fn txt(x: &str) -> Expr { ex(E::Value(ast::Value::String(x.into()))) }
pub fn boolean(x: bool) -> Expr { ex(E::Value(ast::Value::Bool(x))) }
pub fn vref(x: &str) -> VariableRef { VariableRef { name: x.into(), trans_name: x.into(), location: VarLocation::Local } }
pub fn vdef(x: &str) -> VariableDef { VariableDef { name: x.into(), trans_name: x.into() } }
pub fn var(x: &str) -> Expr { ex(E::Variable { var: vref(x) }) }
pub fn list(xs: Vec<Expr>) -> Expr { ex(E::MakeList { values: xs }) }
pub fn assign(x: &str, e: Expr) -> Stmt { st(S::Assign { var: vref(x), value: Box::new(e) }) }
pub fn declare(xs: &[&str]) -> Stmt { st(S::DeclareLocals { vars: xs.iter().map(|x| vdef(x)).collect() }) }
pub fn obs(name: &str, args: Vec<Expr>) -> Stmt { st(S::UnknownBlock { name: name.into(), args }) }
pub fn init(x: &str, v: ast::Value) -> ast::VariableDefInit { ast::VariableDefInit { def: vdef(x), init: v } }
pub fn hat(kind: H) -> Option<Box<ast::Hat>> { Some(Box::new(ast::Hat { kind, info: BlockInfo::none() })) }
pub fn script(kind: H, stmts: Vec<Stmt>) -> ast::Script { ast::Script { hat: hat(kind), stmts } }
pub fn fnref(x: &str) -> ast::FnRef { ast::FnRef { name: x.into(), trans_name: x.into(), location: FnLocation::Global } }
pub fn ring(params: &[&str], captures: &[&str], stmts: Vec<Stmt>) -> Expr { ex(E::Closure { kind: ast::ClosureKind::Reporter, params: params.iter().map(|x| vdef(x)).collect(), captures: captures.iter().map(|x| vref(x)).collect(), stmts }) }
pub fn ring_e(params: &[&str], captures: &[&str], e: Expr) -> Expr { ring(params, captures, vec![st(S::Return { value: Box::new(e) })]) }
pub fn ret(e: Expr) -> Stmt { st(S::Return { value: Box::new(e) }) }
pub fn entity(name: &str) -> ast::Entity {
    ast::Entity { name: name.into(), trans_name: name.into(), fields: vec![], costumes: vec![], sounds: vec![], funcs: vec![], scripts: vec![], active_costume: None, visible: true, color: (0, 0, 0, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 }
}
pub fn role(entities: Vec<ast::Entity>) -> ast::Role { ast::Role { name: "role".into(), notes: "".into(), stage_size: (480, 360), globals: vec![], funcs: vec![], entities } }
/// A single flag script on the stage.
pub fn one_script(stmts: Vec<Stmt>) -> ast::Role { let mut e = entity("Stage"); e.scripts.push(script(H::OnFlag, stmts)); role(vec![e]) }
pub fn func(name: &str, params: &[&str], stmts: Vec<Stmt>) -> ast::Function { ast::Function { name: name.into(), trans_name: name.into(), params: params.iter().map(|x| vdef(x)).collect(), upvars: vec![], returns: true, stmts } }
pub fn bin(k: fn(Box<Expr>, Box<Expr>) -> E, a: Expr, b: Expr) -> Expr { ex(k(Box::new(a), Box::new(b))) }
pub fn add(a: Expr, b: Expr) -> Expr { ex(E::Add { values: Box::new(list(vec![a, b])) }) }
pub fn sub(a: Expr, b: Expr) -> Expr { ex(E::Sub { left: Box::new(a), right: Box::new(b) }) }

// ---------------------------------------------------------------- profiles
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Obs, Assign, AddAssign, Say, If, IfElse, Repeat, For, Foreach, Until, Forever, Warp, Try, Throw, CallFn, CallRing, Fork, Return, StopBlock, StopThis, StopAll, StopOthers, StopSprite, Wait, WaitUntil,
    Broadcast, BroadcastWait, Clone, DeleteClone, ListMut, Declare, Watch, Ask, Prop, Rpc, Syscall, Reply, Send, Costume, Sound, Notes, TimerReset, Pause, Fail, RingDef, SoftErr, Keep,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HK { Flag, Key, Event, Message, AnyMessage, Clone, Net, None }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK { Start, Stop, Key, Event, Msg, KeyUp }
#[derive(Clone, Copy)]
pub struct Prof {
    pub stmts: &'static [(K, usize)],
    /// weight per hundred of each special expression form, when the depth allows
    pub call: usize, pub ring: usize, pub hof: usize, pub host: usize, pub prop: usize, pub ents: usize, pub clone: usize, pub time: usize, pub netreply: usize, pub fail: usize,
    /// chance in 1000 that an expression of a wrong type, or an unknown name, is used
    pub wild: usize,
    pub size: usize, pub depth: usize, pub nest: usize,
    pub sprites: (usize, usize), pub scripts: (usize, usize), pub fns: (usize, usize),
    pub hats: &'static [(HK, usize)],
    pub events: &'static [(EK, usize)], pub n_events: (usize, usize), pub event_span: usize,
    pub latency: bool, pub locs: bool, pub unguarded: bool, pub soft: bool, pub small_depth: bool, pub dump: bool, pub shared_vars: usize,
    pub turns: usize, pub start_first: bool,
}
pub const BASE: Prof = Prof {
    stmts: &[(K::Obs, 10), (K::Assign, 10), (K::AddAssign, 4), (K::If, 5), (K::IfElse, 5), (K::Repeat, 5), (K::For, 4), (K::Foreach, 3), (K::Until, 3), (K::Declare, 4), (K::ListMut, 5), (K::CallFn, 4), (K::CallRing, 2), (K::Try, 2), (K::Fail, 1), (K::Return, 1), (K::StopBlock, 1), (K::Warp, 2)],
    call: 6, ring: 5, hof: 5, host: 2, prop: 1, ents: 1, clone: 0, time: 0, netreply: 0, fail: 0, wild: 5, size: 14, depth: 3, nest: 3,
    sprites: (0, 1), scripts: (1, 2), fns: (0, 2), hats: &[(HK::Flag, 8), (HK::Event, 1)], events: &[(EK::Start, 2), (EK::Event, 2)], n_events: (0, 2), event_span: 20,
    latency: false, locs: false, unguarded: false, soft: false, small_depth: false, dump: false, shared_vars: 50, turns: 300, start_first: true,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { N, B, T, L, M, A, R(usize), E, X }
pub fn ty_of(name: &str) -> Ty {
    match name.as_bytes()[0] { b'n' | b'k' | b'u' => Ty::N, b'b' => Ty::B, b't' => Ty::T, b'l' => Ty::L, b'm' => Ty::M, b'p' => Ty::R(0), b'q' => Ty::R(1), b'r' => Ty::R(2), b'e' => Ty::E, b'x' => Ty::X, _ => Ty::A }
}
const NAMES: &[&str] = &["n1", "n2", "n3", "t1", "l1", "l2", "b1", "m1", "v1", "q1", "r1", "p1", "e1", "t2", "v2"];
#[derive(Clone)]
struct FnSig { name: String, params: Vec<String>, upvars: Vec<String>, ret: Ty, guarded: bool, method_of: Option<usize> }
#[derive(Default)]
struct Frame { locals: Vec<String>, captures: Vec<String>, is_ring: bool }
pub struct PG<'a> {
    pub g: &'a mut Gen, pub p: Prof,
    globals: Vec<String>, fields: Vec<Vec<String>>, ent_names: Vec<String>, fns: Vec<FnSig>,
    frames: Vec<Frame>, ent: usize, nloc: usize, nloops: usize, budget: usize, warp: usize, in_fn: bool, guard: bool, in_try: usize, has_clones: bool, nlists: usize, loc_fmt: usize,
}
pub const EVENTS: &[&str] = &["ev1", "ev2", "ev1", "ev2", "Ev1", "ev1 "];
pub const MSGS: &[&str] = &["go", "stop", "hi", "Go"];
pub const NETS: &[&str] = &["net1", "net2", "net1", "net2", "Net1"];
pub const KEYS: &[&str] = &["a", "any key", "space", "up arrow", "B"];

/// Distinct location ids in one of several formats.
fn loc_text(fmt: usize, n: usize) -> String {
    match fmt { 0 => format!("at{n}"), 1 => format!("collab_{}_{}", n % 3, n as i64 * 1000 - 5000), 2 => format!("{}px", n * 37), 3 => match n % 3 { 0 => format!("item_{n}"), 1 => format!("item_{n}_-{}", n * n), _ => format!("item_{n}_{}_{}", n * 300, 1usize << (n % 40)) }, _ => format!("<-{n}>") }
}

/// Code that never runs, put between the statements of a project without any other difference (see `padded`).
#[derive(Clone)]
pub struct Pad { pub rng: Rng, /** chance in 100 */ pub often: u64, /** statements per piece, at most */ pub size: u64, pub left: usize }
thread_local! { static PAD: std::cell::RefCell<Option<Pad>> = const { std::cell::RefCell::new(None) }; }
pub fn padded<T>(pad: Pad, f: impl FnOnce() -> T) -> T { PAD.with(|p| *p.borrow_mut() = Some(pad)); let r = f(); PAD.with(|p| *p.borrow_mut() = None); r }
fn noise(out: &mut Vec<Stmt>) { PAD.with(|p| if let Some(p) = p.borrow_mut().as_mut() { p.noise(out) }) }
impl Pad {
    pub fn word(&mut self) -> String {
        let base = ["log", "note", "mark", "n1", "l1", "foo", "a", "Bar", "go", "hi,there", "x y", "5", "é", "rpc", "svc", "Stage"][(self.rng.next() % 16) as usize];
        match self.rng.next() % 5 { 0 => base.into(), 1 => format!("{base}{}", self.rng.next() % 100), 2 => format!("z{base}"), 3 => base.chars().take(2).collect(), _ => format!("unused {} {base}", self.rng.next() % 1000) }
    }
    pub fn noise(&mut self, out: &mut Vec<Stmt>) {
        if self.left == 0 || self.rng.next() % 100 >= self.often { return }
        self.left -= 1;
        let n = 1 + self.rng.next() % self.size;
        let body = self.dead(n);
        let never = match self.rng.next() % 3 { 0 => boolean(false), 1 => bin(|left, right| E::Less { left, right }, num(2.0), num(1.0)), _ => bin(|left, right| E::And { left, right }, boolean(false), boolean(true)) };
        out.push(if self.rng.next() % 3 == 0 { st(S::IfElse { condition: Box::new(never), then: body, otherwise: vec![] }) } else if self.rng.next() % 3 == 0 {
            st(S::IfElse { condition: Box::new(boolean(true)), then: vec![], otherwise: body }) } else { st(S::If { condition: Box::new(never), then: body }) });
    }
    pub fn dead(&mut self, n: u64) -> Vec<Stmt> {
        let mut v = vec![];
        for _ in 0..n {
            let w = self.word();
            v.push(match self.rng.next() % 12 {
                0 => obs(&w, vec![txt(&w), num(3.5)]), 1 => assign(&w, add(num(self.rng.next() as f64), var(&w))), 2 => declare(&["n1", "l1", &w]), 3 => st(S::Repeat { times: Box::new(num(1e9)), stmts: vec![obs(&w, vec![])] }),
                4 => st(S::TryCatch { var: vref(&w), code: vec![st(S::Throw { error: Box::new(txt(&w)) })], handler: vec![assign("n1", num(9.0))] }), 5 => assign("l1", ring_e(&["n1"], &["n2"], add(var("n1"), txt(&w)))),
                6 => st(S::InfLoop { stmts: vec![] }), 7 => st(S::Stop { mode: ast::StopMode::All }), 8 => assign(&w, list(vec![txt(&w), num(self.rng.next() as f64 / 3.0), boolean(true), txt("77")])),
                9 => st(S::Warp { stmts: vec![assign(&w, num(300.0)), ret(txt(&w))] }), 10 => st(S::Say { content: Box::new(txt(&w)), duration: None }), _ => assign(&w, ex(E::Map { f: Box::new(ring_e(&["n1"], &[], var("n1"))), list: Box::new(list(vec![txt(&w)])) })),
            });
        }
        v
    }
}
impl<'a> PG<'a> {
    fn pct(&mut self, n: usize) -> bool { n > 0 && self.g.chance(n.min(100), 100) }
    fn e(&mut self, kind: E) -> Expr { let info = self.info(); Expr { kind, info } }
    fn s(&mut self, kind: S) -> Stmt { let info = self.info(); Stmt { kind, info } }
    fn info(&mut self) -> Box<BlockInfo> {
        if !self.p.locs || self.g.chance(1, 6) { return BlockInfo::none() }
        self.nloc += 1;
        Box::new(BlockInfo { comment: None, location: Some(loc_text(self.loc_fmt, self.nloc).into()) })
    }
    fn visible(&self, ty: Ty) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut push = |x: &String| if (ty == Ty::A || ty_of(x) == ty) && !v.contains(x) { v.push(x.clone()) };
        for f in self.frames.iter().rev() { for x in f.locals.iter().rev() { push(x); } if !f.is_ring { break } }
        for x in &self.fields[self.ent] { push(x); }
        for x in &self.globals { push(x); }
        v
    }
    /// Notes a use of `name`, so that rings capture the locals they need.
    fn used(&mut self, name: &str) {
        let n = self.frames.len();
        for i in (0..n).rev() {
            if self.frames[i].locals.iter().any(|x| x == name) {
                for j in i + 1..n { if !self.frames[j].captures.iter().any(|x| x == name) { self.frames[j].captures.push(name.into()); } }
                return
            }
            if !self.frames[i].is_ring { return }
        }
    }
    fn var_of(&mut self, ty: Ty) -> Option<Expr> {
        if self.g.chance(self.p.wild.min(500), 1000) { let n = self.g.pickc(NAMES); self.used(n); return Some(var(n)) }
        let v = self.visible(ty);
        if v.is_empty() { return None }
        let n = self.g.pick(&v).clone();
        self.used(&n);
        let e = self.e(E::Variable { var: vref(&n) });
        Some(e)
    }
    fn writable(&mut self, ty: Ty) -> Option<String> {
        let mut v = self.visible(ty);
        if !self.g.chance(1, 8) { v.retain(|x| !x.starts_with('k')); }
        if v.is_empty() { return None }
        let n = self.g.pick(&v).clone();
        self.used(&n);
        Some(n)
    }
    fn any_ty(&mut self) -> Ty { match self.g.weighted(&[5, 3, 2, 4, 1, 1, 1]) { 0 => Ty::N, 1 => Ty::T, 2 => Ty::B, 3 => Ty::L, 4 => Ty::M, 5 => Ty::R(self.g.below(3)), _ => Ty::E } }
    pub fn b(&mut self, ty: Ty, d: usize) -> Box<Expr> { Box::new(self.expr(ty, d)) }
    fn small(&mut self) -> f64 { match self.g.weighted(&[6, 2, 1]) { 0 => self.g.below(6) as f64, 1 => -(self.g.below(6) as f64), _ => self.g.range(-9, 9) as f64 / 4.0 } }
    pub fn lit(&mut self, ty: Ty) -> Expr {
        match ty {
            Ty::N => { let v = self.small(); if self.g.chance(1, 10) { txt(&format!("{v}")) } else { let mut e = num(v); e.info = self.info(); e } }
            Ty::B => boolean(self.g.bool()),
            Ty::T => { let w = self.g.pickc(&["a", "b", "foo", "Bar", "x y", "5", "", "hi,there", "é"]); txt(w) }
            Ty::L => { let n = self.g.below(4); let fixed = self.g.chance(1, 5); let xs: Vec<Expr> = (0..n).map(|_| num(self.g.below(5) as f64)).collect(); if fixed { ex(E::Value(ast::Value::List(xs.iter().map(|x| match &x.kind { E::Value(v) => v.clone(), _ => unreachable!() }).collect(), None))) } else { list(xs) } }
            Ty::M => { let n = self.g.below(3); let w = self.g.below(3) + 1; list((0..n).map(|_| list((0..w).map(|_| num(self.g.below(4) as f64)).collect())).collect()) }
            Ty::R(n) => self.ring(n, 0),
            Ty::E => self.entity_expr(0),
            Ty::A => { let t = self.any_ty(); self.lit(t) }
            Ty::X => unreachable!(),
        }
    }
    fn entity_expr(&mut self, d: usize) -> Expr {
        if self.p.clone > 0 && d > 0 && self.pct(self.p.clone) { let t = self.entity_expr(0); return self.e(E::Clone { target: Box::new(t) }) }
        if self.g.bool() { return self.e(E::This) }
        let n = self.g.pick(&self.ent_names).clone();
        self.e(E::Entity { name: n.as_str().into(), trans_name: n.as_str().into() })
    }
    pub fn ring(&mut self, arity: usize, d: usize) -> Expr {
        let names = ["n1", "n2", "l1", "t1", "n3", "v1"];
        let mut params: Vec<String> = vec![];
        while params.len() < arity { let n = if self.g.chance(9, 10) { names[self.g.below(2)] } else { names[self.g.below(names.len())] }; let n = if params.iter().any(|x| x == n) { ["n1", "n2", "n3"].into_iter().find(|x| !params.iter().any(|p| p == x)).unwrap() } else { n }; params.push(n.into()); }
        self.frames.push(Frame { locals: params.clone(), captures: vec![], is_ring: true });
        let (loops, warp, in_fn) = (self.nloops, self.warp, self.in_fn);
        self.in_fn = true;
        let stmts = if d > 0 && self.budget > 2 && self.g.chance(1, 3) {
            let mut v = vec![];
            let n = 1 + self.g.below(2);
            self.body(&mut v, n, 1);
            if !self.g.chance(1, 10) { let t = if self.g.chance(1, 5) { Ty::A } else { Ty::N }; let e = self.expr(t, d.saturating_sub(1)); v.push(self.s(S::Return { value: Box::new(e) })); }
            v
        } else {
            let ty = match self.g.below(12) { 0 => Ty::A, 1 => Ty::B, _ => Ty::N };
            let e = self.expr(ty, d.saturating_sub(1).max(1));
            vec![self.s(S::Return { value: Box::new(e) })]
        };
        self.nloops = loops; self.warp = warp; self.in_fn = in_fn;
        let f = self.frames.pop().unwrap();
        // captures propagate outwards through `used`
        let mut caps: Vec<VariableRef> = f.captures.iter().filter(|c| !params.contains(c)).map(|c| vref(c)).collect();
        // a variable of the surroundings that has the name of a parameter: the parameter hides it
        for x in &params { if self.g.chance(1, 6) && self.visible(ty_of(x)).contains(x) { self.used(x); caps.push(vref(x)); } }
        self.e(E::Closure { kind: ast::ClosureKind::Reporter, params: params.iter().map(|x| vdef(x)).collect(), captures: caps, stmts })
    }
    fn pred_ring(&mut self, d: usize) -> Expr {
        self.frames.push(Frame { locals: vec!["n1".into()], captures: vec![], is_ring: true });
        let in_fn = self.in_fn;
        self.in_fn = true;
        let mut stmts = vec![];
        if d > 1 && self.g.chance(1, 4) { self.body(&mut stmts, 1, 1); }
        let e = self.expr(Ty::B, d.saturating_sub(1).max(1));
        stmts.push(self.s(S::Return { value: Box::new(e) }));
        self.in_fn = in_fn;
        let f = self.frames.pop().unwrap();
        let caps = f.captures.iter().filter(|c| *c != "n1").map(|c| vref(c)).collect();
        self.e(E::Closure { kind: ast::ClosureKind::Predicate, params: vec![vdef("n1")], captures: caps, stmts })
    }
    fn ring_or_var(&mut self, arity: usize, d: usize) -> Expr { if self.frames.iter().any(|f| f.locals.iter().any(|x| ty_of(x) == Ty::R(arity))) && self.g.chance(1, 2) || self.g.chance(1, 9) { if let Some(v) = self.var_of(Ty::R(arity)) { return v } } self.ring(arity, d) }
    fn args(&mut self, n: usize, d: usize) -> Vec<Expr> { (0..n).map(|_| { let t = if self.g.chance(9, 10) { Ty::N } else { self.any_ty() }; self.expr(t, d) }).collect() }
    fn call(&mut self, want: Option<Ty>, d: usize) -> Option<(ast::FnRef, Vec<Expr>, Vec<VariableRef>)> {
        let cands: Vec<FnSig> = self.fns.iter().filter(|f| f.method_of.is_none_or(|m| m == self.ent) && want.is_none_or(|w| w == Ty::A || f.ret == w)).cloned().collect();
        if cands.is_empty() { return None }
        let f = self.g.pick(&cands).clone();
        let (mut args, mut ups) = (vec![], vec![]);
        for p in &f.params {
            let a = if p == "k0" { if self.guard { sub(var("k0"), num(1.0)) } else { num(self.g.below(4) as f64) } }
                else if f.upvars.contains(p) {
                    // the caller's side of a by-reference parameter
                    let n = self.g.pickc(&["n1", "n2", "n3"]);
                    self.frames.last_mut().unwrap().locals.push(n.into());
                    if !ups.iter().any(|u: &VariableRef| u.name == n) { ups.push(vref(n)); }
                    txt(n)
                }
                else { self.expr(ty_of(p), d.saturating_sub(1)) };
            args.push(a);
        }
        // "k0" is only in scope within guarded bodies
        if self.guard { self.used("k0"); }
        Some((fnref(&f.name), args, ups))
    }
    /// A reporter that raises an error when evaluated.
    fn failing(&mut self) -> Expr {
        let k = match self.g.below(5) {
            0 => E::ListGet { list: Box::new(list(vec![num(1.0)])), index: Box::new(num(9.0)) },
            1 => E::Div { left: Box::new(num(1.0)), right: Box::new(num(0.0)) },
            2 => E::Sub { left: Box::new(txt("abc")), right: Box::new(num(1.0)) },
            3 => E::Variable { var: vref("zzz") },
            _ => E::Not { value: Box::new(num(1.0)) },
        };
        self.e(k)
    }
    pub fn expr(&mut self, ty: Ty, d: usize) -> Expr {
        if self.p.wild > 0 && self.g.chance(self.p.wild, 1000) { let t = self.any_ty(); return self.expr1(t, d) }
        self.expr1(ty, d)
    }
    fn expr1(&mut self, ty: Ty, d: usize) -> Expr {
        let ty = if ty == Ty::A { self.any_ty() } else { ty };
        if d == 0 { if self.g.chance(2, 3) { if let Some(v) = self.var_of(ty) { return v } } return self.lit(ty) }
        let p = self.p;
        // special forms of any type
        let w = [100, p.call, p.ring, p.hof, p.host, p.ents, p.fail, p.netreply];
        match self.g.weighted(&w) {
            1 => if let Some((function, args, upvars)) = self.call(Some(ty), d) { return self.e(E::CallFn { function, args, upvars }) },
            2 => if matches!(ty, Ty::N | Ty::A) {
                let n = self.g.below(3);
                let f = self.ring_or_var(n, d - 1);
                let n2 = if self.g.chance(1, 25) { n + 1 } else { n };
                let args = self.args(n2, d - 1);
                let new_entity = if self.p.ents > 0 && self.g.chance(1, 6) { Some(Box::new(self.entity_expr(0))) } else { None };
                return self.e(E::CallClosure { new_entity, closure: Box::new(f), args })
            },
            3 => match ty {
                Ty::L => { let l = self.b(Ty::L, d - 1); let k = if self.g.bool() { let f = Box::new(self.ring_or_var(1, d - 1)); E::Map { f, list: l } } else { let f = Box::new(self.pred_ring(d)); E::Keep { f, list: l } }; return self.e(k) }
                Ty::N | Ty::A => { let l = self.b(Ty::L, d - 1); let k = if self.g.chance(2, 3) { let f = Box::new(self.ring_or_var(2, d - 1)); E::Combine { f, list: l } } else { let f = Box::new(self.pred_ring(d)); E::FindFirst { f, list: l } }; return self.e(k) }
                _ => (),
            },
            4 => { let e = self.host_expr(ty, d); if let Some(e) = e { return e } }
            5 => if ty == Ty::B { let a = self.b(Ty::E, 0); let b = self.b(Ty::E, 0); return self.e(E::Identical { left: a, right: b }) },
            6 => if self.in_try > 0 || self.g.chance(1, 3) { return self.failing() },
            7 => if matches!(ty, Ty::A | Ty::T) {
                let n = self.g.below(3);
                let values = (0..n).map(|i| { let v = self.expr(Ty::N, d - 1); (["n1", "t1", "x"][i].into(), v) }).collect();
                let target = Box::new(self.targets());
                let m = self.g.pickc(NETS);
                return self.e(E::NetworkMessageReply { target, msg_type: m.into(), values })
            },
            _ => (),
        }
        match ty {
            Ty::N => match self.g.weighted(&[5, 7, 9, 3, 4, 2, 3, 2, 2, 1, p.prop, p.time, 1]) {
                0 => self.lit(Ty::N),
                1 => match self.var_of(Ty::N) { Some(v) => v, None => self.lit(Ty::N) },
                2 => { let (a, b) = (self.b(Ty::N, d - 1), self.b(Ty::N, d - 1)); let k = match self.g.below(5) { 0 => E::Add { values: Box::new(list(vec![*a, *b])) }, 1 => E::Sub { left: a, right: b }, 2 => E::Mul { values: Box::new(list(vec![*a, *b])) }, 3 => E::Mod { left: a, right: Box::new(num(self.g.pickc(&[3.0, 2.0, 7.0, -3.0]))) }, _ => E::Div { left: a, right: Box::new(num(self.g.pickc(&[2.0, 4.0, -2.0]))) } }; self.e(k) }
                3 => { let v = self.b(Ty::N, d - 1); let k = match self.g.below(5) { 0 => E::Neg { value: v }, 1 => E::Abs { value: v }, 2 => E::Round { value: v }, 3 => E::Floor { value: v }, _ => E::Ceil { value: v } }; self.e(k) }
                4 => { let n = 1 + self.g.below(3); let vs = Box::new(if self.g.chance(1, 4) { self.expr(Ty::L, d - 1) } else { let v = (0..n).map(|_| self.expr(Ty::N, d - 1)).collect(); self.e(E::MakeList { values: v }) }); let k = match self.g.below(4) { 0 => E::Add { values: vs }, 1 => E::Mul { values: vs }, 2 => E::Min { values: vs }, _ => E::Max { values: vs } }; self.e(k) }
                5 => { let (c, t, o) = (self.b(Ty::B, d - 1), self.b(Ty::N, d - 1), self.b(Ty::N, d - 1)); self.e(E::Conditional { condition: c, then: t, otherwise: o }) }
                6 => { let l = self.b(Ty::L, d - 1); self.e(E::ListLen { value: l }) }
                7 => { let l = self.b(Ty::L, d - 1); if self.g.chance(2, 3) { let item = self.b(Ty::N, d - 1); let c = self.e(E::ListCons { item, list: l }); return self.e(E::ListGet { list: Box::new(c), index: Box::new(num(1.0)) }) } let i = if self.g.chance(4, 5) { Box::new(num(1.0 + self.g.below(2) as f64)) } else { self.b(Ty::N, d - 1) }; self.e(E::ListGet { list: l, index: i }) }
                8 => { let l = self.b(Ty::L, d - 1); let v = self.b(Ty::N, d - 1); self.e(E::ListFind { list: l, value: v }) }
                9 => { let t = self.b(Ty::T, d - 1); self.e(E::StrLen { value: t }) }
                10 => { let k = match self.g.below(6) { 0 => E::XPos, 1 => E::YPos, 2 => E::Heading, 3 => E::Size, 4 => { let kind = self.effect(); E::Effect { kind } } _ => { let attr = self.pen(); E::PenAttr { attr } } }; self.e(k) }
                11 => if self.g.chance(1, 3) { use ast::TimeQuery as Q; let query = self.g.pickc(&[Q::Year, Q::Month, Q::Date, Q::DayOfWeek, Q::Hour, Q::Minute, Q::Second, Q::UnixTimestampMs]); self.e(E::RealTime { query }) } else { self.e(E::Timer) },
                _ => { let m = self.b(Ty::M, d - 1); self.e(E::ListRank { value: m }) }
            },
            Ty::B => match self.g.weighted(&[3, 3, 6, 3, 4, 2, 2, 1, p.prop / 2]) {
                0 => self.lit(Ty::B),
                1 => match self.var_of(Ty::B) { Some(v) => v, None => self.lit(Ty::B) },
                2 => { let (left, right) = (self.b(Ty::N, d - 1), self.b(Ty::N, d - 1)); let k = match self.g.below(6) { 0 => E::Less { left, right }, 1 => E::Eq { left, right }, 2 => E::Greater { left, right }, 3 => E::LessEq { left, right }, 4 => E::GreaterEq { left, right }, _ => E::Neq { left, right } }; self.e(k) }
                3 => { let v = self.b(Ty::B, d - 1); self.e(E::Not { value: v }) }
                4 => { let (left, right) = (self.b(Ty::B, d - 1), self.b(Ty::B, d - 1)); let k = if self.g.bool() { E::And { left, right } } else { E::Or { left, right } }; self.e(k) }
                5 => { let t = self.any_ty(); let (left, right) = (self.b(t, d - 1), self.b(t, d - 1)); let id = t == Ty::E || matches!(t, Ty::R(_)) || self.g.bool(); self.e(if id { E::Identical { left, right } } else { E::Eq { left, right } }) }
                6 => { let l = self.b(Ty::L, d - 1); if self.g.bool() { self.e(E::ListIsEmpty { value: l }) } else { let v = self.b(Ty::N, d - 1); self.e(E::ListContains { list: l, value: v }) } }
                7 => { let t = self.any_ty(); let v = self.b(t, d - 1); let ty = match self.g.below(5) { 0 => ast::ValueType::Number, 1 => ast::ValueType::Text, 2 => ast::ValueType::Bool, 3 => ast::ValueType::List, _ => ast::ValueType::Sprite }; self.e(E::TypeQuery { value: v, ty }) }
                _ => { let k = if self.g.bool() { E::PenDown } else { E::IsVisible }; self.e(k) }
            },
            Ty::T => match self.g.weighted(&[4, 4, 4, 1, 1, 1, 1]) {
                0 => self.lit(Ty::T),
                1 => match self.var_of(Ty::T) { Some(v) => v, None => self.lit(Ty::T) },
                2 => { let n = 1 + self.g.below(3); let v = (0..n).map(|_| { let t = match self.g.below(4) { 0 => Ty::T, 1 => Ty::N, 2 => Ty::B, _ => Ty::L }; self.expr(t, d - 1) }).collect(); let l = self.e(E::MakeList { values: v }); self.e(E::StrCat { values: Box::new(l) }) }
                3 => self.e(E::Message),
                4 => self.e(E::Answer),
                5 => if self.g.bool() { self.e(E::RpcError) } else { self.e(E::UnknownBlock { name: "nativeSyscallError".into(), args: vec![] }) },
                _ => { let t = self.b(Ty::T, d - 1); let i = Box::new(num(1.0)); self.e(E::StrGet { string: t, index: i }) }
            },
            Ty::L => match self.g.weighted(&[4, 6, 4, 2, 2, 2, 2, 2, 1, 1]) {
                0 => self.lit(Ty::L),
                1 => match self.var_of(Ty::L) { Some(v) => v, None => self.lit(Ty::L) },
                2 => { let n = self.g.below(4); let v = (0..n).map(|_| self.expr(Ty::N, d - 1)).collect(); self.e(E::MakeList { values: v }) }
                3 => { let (a, b) = (Box::new(num(self.small())), Box::new(num(self.small()))); self.e(E::Range { start: a, stop: b }) }
                4 => { let l = self.b(Ty::L, d - 1); self.e(E::CopyList { list: l }) }
                5 => { let i = self.b(Ty::N, d - 1); let l = self.b(Ty::L, d - 1); self.e(E::ListCons { item: i, list: l }) }
                6 => { let l = self.b(Ty::L, d - 1); self.e(E::ListRev { value: l }) }
                7 => { let (a, b) = (self.expr(Ty::L, d - 1), self.expr(Ty::L, d - 1)); let l = self.e(E::MakeList { values: vec![a, b] }); self.e(E::ListCat { lists: Box::new(l) }) }
                8 => { let t = self.b(Ty::T, d - 1); self.e(E::TextSplit { text: t, mode: ast::TextSplitMode::Letter }) }
                _ => { let m = self.b(Ty::M, d - 1); self.e(E::ListFlatten { value: m }) }
            },
            Ty::M => match self.g.weighted(&[3, 4, 4, 2]) {
                0 => self.lit(Ty::M),
                1 => match self.var_of(Ty::M) { Some(v) => v, None => self.lit(Ty::M) },
                2 => { let n = 1 + self.g.below(2); let v = (0..n).map(|_| self.expr(Ty::L, d - 1)).collect(); self.e(E::MakeList { values: v }) }
                _ => { let m = self.b(Ty::M, d - 1); self.e(E::ListColumns { value: m }) }
            },
            Ty::R(n) => { if self.g.bool() { if let Some(v) = self.var_of(Ty::R(n)) { return v } } self.ring(n, d - 1) }
            Ty::E => { if self.g.chance(1, 3) { if let Some(v) = self.var_of(Ty::E) { return v } } self.entity_expr(d) }
            Ty::A | Ty::X => unreachable!(),
        }
    }
    /// An expression that is only displayed; may therefore be a caught error, alone or in a sentence.
    fn shown(&mut self, t: Ty, d: usize) -> Expr {
        if self.g.chance(1, 4) {
            let v = self.visible(Ty::X);
            if !v.is_empty() {
                let n = self.g.pick(&v).clone();
                self.used(&n);
                let e = self.e(E::Variable { var: vref(&n) });
                if self.g.chance(2, 3) { return e }
                return ex(E::StrCat { values: Box::new(list(vec![txt("err "), e])) })
            }
        }
        self.expr(t, d)
    }
    fn host_expr(&mut self, ty: Ty, d: usize) -> Option<Expr> {
        Some(match ty {
            Ty::N => match self.g.below(3) {
                0 => self.sys("first", vec![Ty::N], d),
                1 => self.sys("marks", vec![], d),
                _ => { let n = self.g.below(3); self.sys("mark", vec![Ty::N; n], d) }
            },
            Ty::L | Ty::A => match self.g.below(3) {
                0 => { let n = self.g.below(3); let args = self.args(n, d - 1); self.e(E::UnknownBlock { name: "hostblock".into(), args }) }
                1 => self.rpc_expr("get", d),
                _ => { let n = self.g.below(3); self.sys("echo", vec![Ty::N; n], d) }
            },
            Ty::T => match self.g.below(5) { 0 => self.sys("fail", vec![Ty::N], d), 3 | 4 => self.sys("line", vec![], d), 1 => self.rpc_expr("fail", d), _ => self.sys("first", vec![Ty::T], d) },
            _ => return None,
        })
    }
    fn sys(&mut self, name: &str, tys: Vec<Ty>, d: usize) -> Expr {
        let vals: Vec<Expr> = tys.into_iter().map(|t| self.expr(t, d.saturating_sub(1))).collect();
        let a = if self.g.chance(1, 5) { match self.var_of(Ty::L) { Some(v) => v, None => list(vals) } } else { self.e(E::MakeList { values: vals }) };
        self.e(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![txt(name), a] })
    }
    fn rpc_args(&mut self, d: usize) -> Vec<(netsblox_vm::compact_str::CompactString, Expr)> { let n = self.g.below(3); (0..n).map(|i| { let t = if self.g.chance(3, 4) { Ty::N } else { Ty::L }; let v = self.expr(t, d.saturating_sub(1)); (["x", "y", "z"][i].into(), v) }).collect() }
    fn rpc_expr(&mut self, name: &str, d: usize) -> Expr { let args = self.rpc_args(d); self.e(E::CallRpc { host: None, service: "svc".into(), rpc: name.into(), args }) }
    fn targets(&mut self) -> Expr {
        match self.g.below(8) {
            0..=3 => txt(self.g.pickc(&["peer", "everyone in room", "x"])),
            4 | 5 => list(vec![txt("a"), txt("b")]),
            _ => { let n = self.g.len(9); let xs = (0..n).map(|_| if self.g.chance(1, 30) { num(5.0) } else { txt(self.g.pickc(&["a", "b", "peer", "everyone in room", "others in room", "a@me", "", "é"])) }).collect(); list(xs) }
        }
    }
    fn effect(&mut self) -> ast::EffectKind { use ast::EffectKind::*; match self.g.below(9) { 0 => Color, 1 => Ghost, 2 => Whirl, 3 => Saturation, 4 => Brightness, 5 => Fisheye, 6 => Pixelate, 7 => Mosaic, _ => Negative } }
    fn pen(&mut self) -> ast::PenAttribute { use ast::PenAttribute::*; match self.g.below(5) { 0 => Size, 1 => Hue, 2 => Saturation, 3 => Brightness, _ => Transparency } }

    // ------------------------------------------------------------ statements
    pub fn body(&mut self, out: &mut Vec<Stmt>, n: usize, nest: usize) {
        let keep = self.frames.last().unwrap().locals.len();
        for _ in 0..n {
            if self.budget == 0 { break }
            self.budget -= 1;
            noise(out);
            self.stmt(out, nest);
        }
        noise(out);
        // names declared in a nested body may or may not exist afterwards
        if nest > 0 && !self.g.chance(1, 6) { self.frames.last_mut().unwrap().locals.truncate(keep); }
    }
    fn sub_body(&mut self, nest: usize) -> Vec<Stmt> { let mut v = vec![]; let n = if self.g.chance(1, 12) { 0 } else { 1 + self.g.below(3) }; self.body(&mut v, n, nest + 1); v }
    fn loop_body(&mut self, nest: usize) -> Vec<Stmt> { self.nloops += 1; let v = self.sub_body(nest); self.nloops -= 1; v }
    fn stmt(&mut self, out: &mut Vec<Stmt>, nest: usize) {
        let p = self.p;
        let d = p.depth;
        let total: usize = p.stmts.iter().map(|x| x.1).sum();
        let mut x = self.g.below(total);
        let mut k = p.stmts[0].0;
        for (kk, w) in p.stmts { if x < *w { k = *kk; break } x -= w; }
        if nest >= p.nest && matches!(k, K::If | K::IfElse | K::Repeat | K::For | K::Foreach | K::Until | K::Forever | K::Warp | K::Try) { k = K::Obs }
        if self.nloops >= 3 && matches!(k, K::Repeat | K::For | K::Foreach | K::Until | K::Forever) { k = K::Assign }
        if self.warp > 0 && matches!(k, K::Forever | K::WaitUntil) { k = K::Assign }
        // an uncaught error ends the script, so most of them belong inside a try block
        if matches!(k, K::Fail | K::Throw) && self.in_try == 0 && self.g.chance(2, 3) { k = K::Obs }
        let s = match k {
            K::Obs => { let n = self.g.below(3); let args = (0..n).map(|_| { let t = match self.g.below(5) { 0 | 1 => Ty::N, 2 => Ty::L, 3 => Ty::T, _ => Ty::A }; self.shown(t, d) }).collect(); let name = self.g.pickc(&["log", "note", "mark"]); S::UnknownBlock { name: name.into(), args } }
            K::Say => { let t = match self.g.below(3) { 0 => Ty::T, 1 => Ty::N, _ => Ty::L }; let content = Box::new(self.shown(t, d)); let duration = if self.g.chance(1, 4) { Some(self.b(Ty::N, 1)) } else { None }; if self.g.bool() { S::Say { content, duration } } else { S::Think { content, duration } } }
            K::Assign => { let t = self.any_ty(); let t = if self.visible(t).is_empty() { Ty::N } else { t }; match self.writable(t) { Some(n) => { let e = self.b(ty_of(&n), d); S::Assign { var: vref(&n), value: e } } None => { out.push(obs("log", vec![])); return } } }
            K::AddAssign => match self.writable(Ty::N) { Some(n) => { let e = self.b(Ty::N, d); S::AddAssign { var: vref(&n), value: e } } None => { out.push(obs("log", vec![])); return } },
            K::If => { let c = self.b(Ty::B, d); let then = self.sub_body(nest); S::If { condition: c, then } }
            K::IfElse => { let c = self.b(Ty::B, d); let then = self.sub_body(nest); let otherwise = self.sub_body(nest); S::IfElse { condition: c, then, otherwise } }
            K::Repeat => { let t = if self.g.chance(3, 4) { Box::new(num(self.g.below(5) as f64)) } else { self.b(Ty::N, 1) }; let stmts = self.loop_body(nest); S::Repeat { times: t, stmts } }
            K::For => { let (a, b) = if self.g.chance(3, 4) { (Box::new(num(self.small())), Box::new(num(self.small()))) } else { (self.b(Ty::N, 1), self.b(Ty::N, 1)) }; let v = self.loop_var(); let stmts = self.loop_body(nest); S::ForLoop { var: vref(&v), start: a, stop: b, stmts } }
            K::Foreach => { let l = self.b(Ty::L, d); let v = if self.g.chance(1, 4) { self.g.pickc(&["n1", "n2"]).to_string() } else { String::new() }; let v = if v.is_empty() { self.loop_var() } else { self.frames.last_mut().unwrap().locals.push(v.clone()); v }; let stmts = self.loop_body(nest); S::ForeachLoop { var: vref(&v), items: l, stmts } }
            K::Until => {
                let c = format!("k{}", 5 + self.nloops);
                out.push(declare(&[&c]));
                self.frames.last_mut().unwrap().locals.push(c.clone());
                let mut stmts = self.loop_body(nest);
                stmts.push(st(S::AddAssign { var: vref(&c), value: Box::new(num(1.0)) }));
                let lim = num(self.g.below(4) as f64);
                let mut cond = bin(|left, right| E::GreaterEq { left, right }, var(&c), lim);
                if self.g.chance(1, 3) { let o = self.b(Ty::B, 1); cond = bin(|left, right| E::Or { left, right }, cond, *o); }
                self.used(&c);
                S::UntilLoop { condition: Box::new(cond), stmts }
            }
            K::Forever => { let stmts = self.loop_body(nest); S::InfLoop { stmts } }
            K::Warp => { self.warp += 1; let stmts = self.sub_body(nest); self.warp -= 1; S::Warp { stmts } }
            K::Try => { self.in_try += 1; let code = self.sub_body(nest); self.in_try -= 1; let v = self.g.pickc(&["x1", "x2", "x3"]); let keep = self.frames.last().unwrap().locals.len(); self.frames.last_mut().unwrap().locals.push(v.into()); let mut handler = self.sub_body(nest); if self.g.chance(2, 3) { handler.insert(0, obs("caught", vec![var(v)])); } if !self.g.chance(1, 3) { let l = &mut self.frames.last_mut().unwrap().locals; if keep < l.len() { l.remove(keep); } } S::TryCatch { code, var: vref(v), handler } }
            K::Throw => { let t = Box::new(self.shown(Ty::T, 1)); S::Throw { error: t } }
            K::Fail => { let e = self.failing(); let e = if self.g.bool() { e } else { let l = self.lit(Ty::N); let a = self.e(E::MakeList { values: vec![l, e] }); self.e(E::Add { values: Box::new(a) }) }; S::UnknownBlock { name: "log".into(), args: vec![e] } }
            K::CallFn => match self.call(None, d) { Some((function, args, upvars)) => S::CallFn { function, args, upvars }, None => S::UnknownBlock { name: "log".into(), args: vec![] } },
            K::CallRing => { let n = self.g.below(3); let f = self.ring_or_var(n, d); let args = self.args(n, 1); let new_entity = if p.ents > 0 && self.g.chance(1, 5) { Some(Box::new(self.entity_expr(0))) } else { None }; S::CallClosure { new_entity, closure: Box::new(f), args } }
            K::Fork => { let n = self.g.below(2); let f = self.ring_or_var(n, d.max(1)); let args = self.args(n, 1); S::ForkClosure { closure: Box::new(f), args } }
            K::Return => { if !self.in_fn && self.g.chance(2, 3) { S::UnknownBlock { name: "log".into(), args: vec![] } } else { let e = self.b(Ty::N, d); S::Return { value: e } } }
            K::StopBlock => S::Stop { mode: ast::StopMode::ThisBlock },
            K::StopThis => S::Stop { mode: ast::StopMode::ThisScript },
            K::StopAll => S::Stop { mode: ast::StopMode::All },
            K::StopOthers => S::Stop { mode: ast::StopMode::AllButThisScript },
            K::StopSprite => S::Stop { mode: ast::StopMode::OtherScriptsInSprite },
            K::Wait if self.p.time > 1 && self.g.chance(1, 12) => S::Sleep { seconds: Box::new(num(self.g.pickc(&[60.0, 3600.5, 86_400.0, 5_000_000.0]))) },
            K::Wait => { let t = match self.g.below(5) { 0 => num(0.0), 1 => num(self.g.below(40) as f64 / 1000.0), 2 => num(self.g.below(9) as f64 / 64.0), 3 => num(-1.0), _ => self.expr(Ty::N, 1) }; S::Sleep { seconds: Box::new(t) } }
            K::WaitUntil => { let c = self.b(Ty::B, d); S::WaitUntil { condition: c } }
            K::Broadcast | K::BroadcastWait => {
                let target = match self.g.below(6) { 0 => Some(Box::new(self.entity_expr(0))), 1 => { let n = self.g.below(3); let v = (0..n).map(|_| self.entity_expr(0)).collect(); Some(Box::new(list(v))) } 2 => self.var_of(Ty::E).map(Box::new), _ => None };
                let m = if self.g.chance(9, 10) { txt(if self.g.bool() { "go" } else { self.g.pickc(MSGS) }) } else { self.expr(Ty::T, 1) };
                S::SendLocalMessage { target, msg_type: Box::new(m), wait: k == K::BroadcastWait }
            }
            K::Clone => { let t = self.entity_expr(0); if self.g.chance(2, 3) { S::Clone { target: Box::new(t) } } else { match self.writable(Ty::E) { Some(n) => { let c = self.e(E::Clone { target: Box::new(t) }); S::Assign { var: vref(&n), value: Box::new(c) } } None => S::Clone { target: Box::new(t) } } } }
            K::DeleteClone => S::DeleteClone,
            K::ListMut => {
                let lt = if self.g.chance(1, 6) { Ty::M } else { Ty::L };
                let list = Box::new(match self.var_of(lt) { Some(v) => v, None => list(vec![num(1.0)]) });
                let idx = |s: &mut Self| Box::new(match s.g.below(8) { 0..=5 => num(1.0 + s.g.below(3) as f64), 6 => s.expr(Ty::N, 1), _ => s.expr(Ty::L, 1) });
                if self.g.chance(1, 2) {
                    // on a list that has an item to change
                    let safe = match self.g.below(4) {
                        0 => S::ListRemove { list: list.clone(), index: Box::new(num(1.0)) }, 1 => { let v = self.b(Ty::N, d); S::ListAssign { list: list.clone(), value: v, index: Box::new(num(1.0)) } }
                        2 => S::ListRemoveLast { list: list.clone() }, _ => { let v = self.b(Ty::N, d); S::ListAssignLast { list: list.clone(), value: v } }
                    };
                    let safe = self.s(safe);
                    let c = self.e(E::ListIsEmpty { value: list });
                    let c = self.e(E::Not { value: Box::new(c) });
                    let s = self.s(S::If { condition: Box::new(c), then: vec![safe] });
                    out.push(s);
                    return
                }
                match self.g.below(7) {
                    0 | 1 => { let v = self.b(Ty::N, d); S::ListInsertLast { list, value: v } }
                    2 => { let v = self.b(Ty::N, d); let index = idx(self); S::ListInsert { list, value: v, index } }
                    3 => { let index = idx(self); S::ListRemove { list, index } }
                    4 => { let v = self.b(Ty::N, d); let index = idx(self); S::ListAssign { list, value: v, index } }
                    5 => if self.g.bool() { S::ListRemoveLast { list } } else { let v = self.b(Ty::N, d); S::ListAssignLast { list, value: v } },
                    _ => S::ListRemoveAll { list },
                }
            }
            K::Declare => { let n = 1 + self.g.below(2); let ns: Vec<String> = (0..n).map(|_| self.g.pickc(&["n1", "n2", "n3", "n4", "t1", "l1", "v1"]).to_string()).collect(); for x in &ns { self.frames.last_mut().unwrap().locals.push(x.clone()); }
                out.push(st(S::DeclareLocals { vars: ns.iter().map(|x| vdef(x)).collect() }));
                for x in &ns { if ty_of(x) != Ty::N && ty_of(x) != Ty::A { let v = self.lit(ty_of(x)); out.push(assign(x, v)); } }
                return }
            K::RingDef => { let ty = Ty::R(self.g.below(3)); match self.writable(ty) { Some(n) => { let r = match ty { Ty::R(k) => self.ring(k, d), _ => unreachable!() }; S::Assign { var: vref(&n), value: Box::new(r) } } None => { let n = ["p1", "q1", "r1"][match ty { Ty::R(k) => k, _ => 0 }]; out.push(declare(&[n])); let r = self.ring(match ty { Ty::R(k) => k, _ => 0 }, d); self.frames.last_mut().unwrap().locals.push(n.into()); S::Assign { var: vref(n), value: Box::new(r) } } } }
            K::Watch => { let v = self.visible(Ty::A); let n = if v.is_empty() { "n1".into() } else { self.g.pick(&v).clone() }; self.used(&n); if self.g.chance(4, 5) { S::ShowVar { var: vref(&n) } } else { S::HideVar { var: vref(&n) } } }
            K::Ask if self.g.chance(1, 6) => {
                // a question that the host refuses
                let t = Box::new(txt(self.g.pickc(&["refuse this", "refuse at once"])));
                S::TryCatch { code: vec![st(S::Ask { prompt: t })], var: vref("x9"), handler: vec![obs("refused", vec![var("x9"), ex(E::Answer)])] }
            }
            K::Ask => { let t = self.b(Ty::T, 1); S::Ask { prompt: t } }
            K::Prop => self.prop_stmt(d),
            K::Rpc => { let args = self.rpc_args(d); let name = self.g.pickc(&["get", "get", "fail", "get", "fail", "get", "unsupported"]); S::CallRpc { host: None, service: "svc".into(), rpc: name.into(), args } }
            K::Syscall => { let name = self.g.pickc(&["echo", "fail", "mark", "mark", "native", "echo", "first", "mark", "hard", "unsupported"]); let n = self.g.below(3); let a = self.args(n, 1); S::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![txt(name), list(a)] } }
            K::SoftErr => { let e = if self.g.bool() { ex(E::RpcError) } else { ex(E::UnknownBlock { name: "nativeSyscallError".into(), args: vec![] }) }; S::UnknownBlock { name: "log".into(), args: vec![e, ex(E::Answer), ex(E::Message)] } }
            K::Reply => { let t = if self.g.bool() { Ty::N } else { Ty::L }; let v = self.b(t, d); S::SendNetworkReply { value: v } }
            K::Send => { let n = self.g.below(3); let values = (0..n).map(|i| { let t = match self.g.below(3) { 0 => Ty::N, 1 => Ty::T, _ => Ty::L }; let v = self.expr(t, d); (["n1", "t1", "x"][i].into(), v) }).collect(); let target = Box::new(self.targets()); S::SendNetworkMessage { target, msg_type: self.g.pickc(NETS).into(), values } }
            K::Costume => match self.g.below(4) { 3 => {
                // the look of another sprite (or of a clone), which may have the same name as one's own
                let look = ex(E::ListGet { list: Box::new(ex(E::CostumeList)), index: Box::new(num(self.g.range(1, 3) as f64)) });
                let who = self.entity_expr(0);
                S::SetCostume { costume: Box::new(ex(E::CallClosure { new_entity: Some(Box::new(who)), closure: Box::new(ring_e(&[], &[], look)), args: vec![] })) }
            } 0 => S::NextCostume, 1 => { let n = self.g.pickc(&["c1", "c2", "c3", ""]); S::SetCostume { costume: Box::new(txt(n)) } } _ => { let l = ex(E::CostumeList); let e = ex(E::ListGet { list: Box::new(l), index: Box::new(num(1.0)) }); S::SetCostume { costume: Box::new(e) } } },
            K::Sound => match self.g.below(3) { 0 => S::StopSounds, _ => { let n = self.g.pickc(&["s1", "s2", "", "nope"]); S::PlaySound { sound: Box::new(txt(n)), blocking: self.g.bool() } } },
            K::Notes => match self.g.below(3) { 0 => S::Rest { beats: self.b(Ty::N, 1) }, _ => {
                let one = |b: &mut Self| match b.g.weighted(&[5, 5, 3, 1, 1, 2]) { 0 => num(b.g.range(58, 64) as f64), 1 => txt(b.g.pickc(&["C4", "60", "Bb3", "A#"])), 2 => txt(&crate::p_api::note_text(b.g)), 3 => txt(&crate::gens::text(b.g)), 4 => num(b.g.pickc(&[-1.0, 0.0, 127.0, 128.0, 60.5, -0.5, 1e10, 127.5])), _ => *b.b(Ty::T, 1) };
                let notes = match self.g.below(5) { 0 | 1 => one(self), 2 | 3 => list((0..self.g.len(4)).map(|_| one(self)).collect()), _ => *self.b(Ty::L, 1) };
                let notes = Box::new(notes); S::PlayNotes { notes, beats: self.b(Ty::N, 1), blocking: self.g.bool() } } },
            K::Keep => { self.keep(out, nest); return }
            K::TimerReset => S::ResetTimer,
            K::Pause => S::Pause,
        };
        let s = self.s(s);
        out.push(s);
    }
    /// Rings that capture a name which is then bound again (by a loop, handler, declaration or call), collected and called later.
    fn keep(&mut self, out: &mut Vec<Stmt>, nest: usize) {
        let zs = "zs";
        out.push(declare(&[zs]));
        out.push(assign(zs, list(vec![])));
        let v = self.g.pickc(&["n1", "k2", "x1", "v1"]);
        let two = self.g.chance(1, 3);
        let rounds = 1 + self.g.below(2);
        for _ in 0..rounds {
            let extra = if self.g.chance(1, 3) { self.writable(Ty::N).filter(|x| x != v) } else { None };
            let mut caps = vec![v];
            if let Some(x) = &extra { if self.frames.last().unwrap().locals.iter().any(|y| y == x) { caps.push(x) } }
            let shown = match &extra { Some(x) => list(vec![var(v), var(x)]), None => var(v) };
            let mut ring_body = vec![];
            match self.g.below(5) {
                0 => ring_body.push(assign(v, list(vec![var(v), num(1.0)]))),
                1 => { let e = self.lit(Ty::N); ring_body.push(assign(v, e)) }
                2 => { ring_body.push(declare(&[v])); ring_body.push(assign(v, num(7.0))) }
                _ => (),
            }
            ring_body.push(ret(shown));
            let kept = ring(&[], &caps, ring_body);
            let keepit = |r: Expr| st(S::ListInsertLast { list: Box::new(var(zs)), value: Box::new(r) });
            let mut inner = vec![keepit(kept.clone())];
            if two { inner.push(keepit(ring(&[], &[v], vec![ret(var(v))]))) }
            match self.g.below(6) {
                0 => { let e = self.lit(Ty::N); inner.push(assign(v, e)) }
                1 => { let e = self.lit(Ty::N); inner.insert(0, assign(v, e)) }
                2 => inner.push(declare(&[v])),
                3 if nest < self.p.nest => { let mut b = self.sub_body(nest); inner.append(&mut b) }
                _ => (),
            }
            let n = 1 + self.g.below(3);
            match self.g.below(7) {
                0 | 1 => { let t = self.g.pickc(&["one", "two", ""]); let code = if self.g.chance(1, 4) { let mut c = vec![keepit(kept.clone())]; c.push(st(S::Throw { error: Box::new(txt(t)) })); c } else { vec![st(S::Throw { error: Box::new(txt(t)) })] };
                    let s = st(S::TryCatch { code, var: vref(v), handler: inner }); if n > 1 && self.g.bool() { out.push(st(S::Repeat { times: Box::new(num(n as f64)), stmts: vec![s] })) } else { out.push(s) } }
                2 => out.push(st(S::ForLoop { var: vref(v), start: Box::new(num(1.0)), stop: Box::new(num(n as f64)), stmts: inner })),
                3 => { let items = (0..n).map(|_| self.lit(Ty::N)).collect(); out.push(st(S::ForeachLoop { var: vref(v), items: Box::new(list(items)), stmts: inner })) }
                4 => { inner.insert(0, declare(&[v])); out.push(st(S::Repeat { times: Box::new(num(n as f64)), stmts: inner })) }
                5 => { let f = ring(&[v], &[zs], inner); out.push(st(S::CallClosure { new_entity: None, closure: Box::new(f), args: vec![num(n as f64 * 10.0)] })) }
                _ => { out.push(declare(&[v])); out.append(&mut inner) }
            }
            // the same name may hold something else afterwards
            match self.g.below(6) { 0 => { out.push(declare(&[v])); let e = self.lit(Ty::N); out.push(assign(v, e)) } 1 => { out.push(declare(&[v])); } 2 => self.body(out, 1, nest + 1), _ => () }
        }
        let one = ex(E::CallClosure { new_entity: None, closure: Box::new(var("zr")), args: vec![] });
        let times = 1 + self.g.below(2);
        for _ in 0..times { out.push(st(S::ForeachLoop { var: vref("zr"), items: Box::new(var(zs)), stmts: vec![obs("kept", vec![one.clone()])] })) }
        if v.starts_with('n') || v.starts_with('v') { if self.g.bool() { self.frames.last_mut().unwrap().locals.push(v.into()) } }
    }
    fn loop_var(&mut self) -> String { let v = format!("k{}", 1 + self.nloops); self.frames.last_mut().unwrap().locals.push(v.clone()); v }
    fn prop_stmt(&mut self, d: usize) -> S {
        let v = if self.g.chance(3, 4) { Box::new(num(self.g.range(-40, 400) as f64)) } else { self.b(Ty::N, d) };
        match self.g.below(22) {
            0 => S::SetX { value: v }, 1 => S::ChangeX { delta: v }, 2 => S::SetY { value: v }, 3 => S::ChangeY { delta: v }, 4 => S::SetHeading { value: v }, 5 => S::TurnRight { angle: v }, 6 => S::TurnLeft { angle: v },
            7 => S::Forward { distance: v }, 8 => { let y = self.b(Ty::N, d); S::GotoXY { x: v, y } } 9 => { let y = self.b(Ty::N, d); S::PointTowardsXY { x: v, y } } 10 => { let t = if self.p.ents == 0 { ex(E::This) } else { self.entity_expr(0) }; S::Goto { target: Box::new(t) } }
            11 => { let t = if self.p.ents == 0 { ex(E::This) } else { self.entity_expr(0) }; S::PointTowards { target: Box::new(t) } } 12 => S::SetSize { value: v }, 13 => S::ChangeSize { delta: v }, 14 => S::SetVisible { value: self.g.bool() }, 15 => S::SetPenDown { value: self.g.bool() },
            16 => { let kind = self.effect(); if self.g.bool() { S::SetEffect { kind, value: v } } else { S::ChangeEffect { kind, delta: v } } } 17 => { let attr = self.pen(); if self.g.bool() { S::SetPenAttr { attr, value: v } } else { S::ChangePenAttr { attr, delta: v } } }
            18 => S::ClearEffects, 19 => S::PenClear, 20 => { let c = |g: &mut Gen| if g.bool() { 255u8 } else { 0 }; S::SetPenColor { color: (c(self.g), c(self.g), c(self.g), 255) } }
            _ => { let n = self.g.below(3); let n = if n == 0 { 2 } else { n + 1 }; let xs = (0..n).map(|_| num(self.g.range(-50, 50) as f64)).collect(); let t = Box::new(list(xs)); if self.g.bool() { S::Goto { target: t } } else { S::PointTowards { target: t } } }
        }
    }
    fn function(&mut self, sig: &FnSig) -> ast::Function {
        self.frames.push(Frame { locals: sig.params.clone(), captures: vec![], is_ring: false });
        self.in_fn = true; self.warp = 0; self.nloops = 0; self.guard = sig.guarded;
        let mut stmts = vec![];
        if sig.guarded { let e = self.expr(sig.ret, 1); stmts.push(st(S::If { condition: Box::new(bin(|left, right| E::LessEq { left, right }, var("k0"), num(0.0))), then: vec![ret(e)] })); }
        self.budget = 4 + self.g.below(4);
        let n = self.g.below(4);
        self.body(&mut stmts, n, 0);
        if !self.g.chance(1, 10) { let e = self.expr(sig.ret, self.p.depth); stmts.push(self.s(S::Return { value: Box::new(e) })); }
        self.guard = false; self.in_fn = false;
        self.frames.pop();
        ast::Function { name: sig.name.as_str().into(), trans_name: sig.name.as_str().into(), params: sig.params.iter().map(|x| vdef(x)).collect(), upvars: sig.upvars.iter().map(|x| vref(x)).collect(), returns: true, stmts }
    }
    pub fn script_body(&mut self, locals: Vec<String>) -> Vec<Stmt> {
        self.frames.push(Frame { locals, captures: vec![], is_ring: false });
        self.in_fn = false; self.warp = 0; self.nloops = 0; self.guard = false;
        self.budget = self.p.size / 2 + self.g.below(self.p.size.max(1));
        let n = 1 + self.g.below(7);
        let mut v = vec![];
        self.body(&mut v, n, 0);
        self.frames.pop();
        v
    }
    fn init_value(&mut self, name: &str) -> ast::Value {
        use ast::Value as V;
        match ty_of(name) {
            Ty::N => V::Number(self.small()), Ty::B => V::Bool(self.g.bool()), Ty::T => V::String(self.g.pickc(&["", "a", "foo", "7"]).into()),
            Ty::L => { self.nlists += 1; let n = self.g.below(4); V::List((0..n).map(|_| V::Number(self.g.below(5) as f64)).collect(), Some(ast::RefId(self.nlists))) }
            Ty::M => { let n = self.g.below(3); self.nlists += 1; let id = self.nlists; let rows = (0..n).map(|_| { self.nlists += 1; V::List((0..2).map(|_| V::Number(self.g.below(4) as f64)).collect(), Some(ast::RefId(self.nlists))) }).collect(); V::List(rows, Some(ast::RefId(id))) }
            _ => V::Number(0.0),
        }
    }
}
fn costume(name: &str, n: u8) -> ast::VariableDefInit { init(name, ast::Value::Image(std::rc::Rc::new((vec![n], None, name.into())))) }
fn sound(name: &str, n: u8) -> ast::VariableDefInit { init(name, ast::Value::Audio(std::rc::Rc::new((vec![n; n as usize], name.into())))) }

/// A whole project plus the history of events it is exposed to.
pub fn project(g: &mut Gen, p: &Prof) -> Setup {
    let between = |g: &mut Gen, r: (usize, usize)| r.0 + g.below(r.1 - r.0 + 1);
    let ns = between(g, p.sprites);
    let ent_names: Vec<String> = std::iter::once("Stage".to_string()).chain(["Ann", "Bob", "Cy"].into_iter().take(ns).map(|x| x.to_string())).collect();
    let mut pg = PG { g, p: *p, globals: vec![], fields: vec![], ent_names: ent_names.clone(), fns: vec![], frames: vec![], ent: 0, nloc: 0, nloops: 0, budget: 0, warp: 0, in_fn: false, guard: false, in_try: 0, has_clones: p.clone > 0, nlists: 0, loc_fmt: 0 };
    if p.locs { pg.loc_fmt = pg.g.below(5); }
    for n in NAMES { if pg.g.chance(p.shared_vars, 100) && !(matches!(ty_of(n), Ty::E | Ty::R(_)) && pg.g.chance(1, 2)) { pg.globals.push(n.to_string()); } }
    for _ in 0..=ns { let mut f = vec![]; for n in NAMES { if pg.g.chance(p.shared_vars / 2, 100) && !matches!(ty_of(n), Ty::E | Ty::R(_)) { f.push(n.to_string()); } } pg.fields.push(f); }
    // function signatures
    let nf = between(pg.g, p.fns);
    for i in 0..nf {
        let method_of = if pg.g.chance(1, 3) { Some(pg.g.below(ns + 1)) } else { None };
        let guarded = !p.unguarded || pg.g.chance(1, 2);
        let mut params = vec![];
        if guarded { params.push("k0".to_string()); }
        let np = pg.g.below(3);
        for _ in 0..np { let n = pg.g.pickc(&["n1", "n2", "n3", "l1", "t1", "q1", "v1"]).to_string(); if !params.contains(&n) { params.push(n); } }
        let mut upvars = vec![];
        if pg.g.chance(1, 4) { params.push("u1".into()); upvars.push("u1".to_string()); }
        let ret = match pg.g.below(4) { 0 => Ty::L, 1 => Ty::T, _ => Ty::N };
        // a block of the same name as one for all sprites or as one of another sprite
        if method_of.is_some() && pg.g.chance(1, 3) {
            let other: Vec<FnSig> = pg.fns.iter().filter(|f| f.method_of != method_of && !pg.fns.iter().any(|x| x.name == f.name && x.method_of == method_of)).cloned().collect();
            if !other.is_empty() { let f = pg.g.pick(&other).clone(); pg.fns.push(FnSig { method_of, ..f }); continue }
        }
        pg.fns.push(FnSig { name: format!("f{i}"), params, upvars, ret, guarded, method_of });
    }
    let mut r = role(vec![]);
    let globals = pg.globals.clone();
    for n in &globals { let v = pg.init_value(n); r.globals.push(init(n, v)); }
    for i in 0..=ns {
        let mut e = entity(&ent_names[i]);
        let fields = pg.fields[i].clone();
        for n in &fields { let v = pg.init_value(n); e.fields.push(init(n, v)); }
        if p.stmts.iter().any(|x| x.0 == K::Costume) { let n = pg.g.below(4); for k in 0..n { e.costumes.push(costume(["c1", "c2", "c3"][k], k as u8)); } if n > 0 && pg.g.bool() { e.active_costume = Some(pg.g.below(n)); } }
        if p.stmts.iter().any(|x| x.0 == K::Sound) { let n = pg.g.below(3); for k in 0..n { e.sounds.push(sound(["s1", "s2"][k], k as u8 + 1)); } }
        if p.prop > 0 { e.pos = (pg.g.range(-50, 50) as f64, pg.g.range(-50, 50) as f64); e.heading = pg.g.range(-90, 400) as f64; e.scale = pg.g.range(1, 8) as f64 / 4.0; e.visible = pg.g.bool(); }
        r.entities.push(e);
    }
    let sigs = pg.fns.clone();
    for sig in &sigs {
        pg.ent = sig.method_of.unwrap_or(0);
        // global blocks see no fields for certain
        let saved = if sig.method_of.is_none() { Some(std::mem::take(&mut pg.fields[0])) } else { None };
        let methods = if sig.method_of.is_none() { let all = pg.fns.clone(); pg.fns.retain(|f| f.method_of.is_none()); Some(all) } else { None };
        let f = pg.function(sig);
        if let Some(s) = saved { pg.fields[0] = s; }
        if let Some(m) = methods { pg.fns = m; }
        match sig.method_of { None => r.funcs.push(f), Some(i) => r.entities[i].funcs.push(f) }
    }
    for i in 0..=ns {
        pg.ent = i;
        let n = between(pg.g, p.scripts);
        for si in 0..n {
            let total: usize = p.hats.iter().map(|x| x.1).sum();
            let mut x = pg.g.below(total);
            let mut hk = p.hats[0].0;
            for (k, w) in p.hats { if x < *w { hk = *k; break } x -= w; }
            if p.start_first && i == 0 && si == 0 && pg.g.chance(4, 5) { hk = HK::Flag }
            let (kind, locals): (Option<H>, Vec<String>) = match hk {
                HK::Flag => (Some(H::OnFlag), vec![]),
                HK::Key => (Some(H::OnKey { key: pg.g.pickc(KEYS).into() }), vec![]),
                HK::Event => { let n = pg.g.below(3); let fs: Vec<&str> = ["n1", "t1", "l1"].into_iter().take(n).collect(); (Some(H::Unknown { name: pg.g.pickc(EVENTS).into(), fields: fs.iter().map(|x| vref(x)).collect() }), fs.iter().map(|x| x.to_string()).collect()) }
                HK::Message => (Some(H::LocalMessage { msg_type: Some(if pg.g.bool() { "go".into() } else { pg.g.pickc(MSGS).into() }) }), vec![]),
                HK::AnyMessage => (Some(H::LocalMessage { msg_type: None }), vec![]),
                HK::Clone => (Some(H::OnClone), vec![]),
                HK::Net => { let n = pg.g.below(4); let fs: Vec<&str> = ["n1", "t1", "l1"].into_iter().take(n).collect(); (Some(H::NetworkMessage { msg_type: pg.g.pickc(NETS).into(), fields: fs.iter().map(|x| vref(x)).collect() }), fs.iter().map(|x| x.to_string()).collect()) }
                HK::None => (None, vec![]),
            };
            let stmts = pg.script_body(locals);
            r.entities[i].scripts.push(ast::Script { hat: kind.and_then(hat), stmts });
        }
        if p.dump {
            let mut names: Vec<String> = pg.fields[i].clone();
            names.retain(|n| !matches!(ty_of(n), Ty::R(_)));
            let mut args: Vec<Expr> = vec![ex(E::This)];
            args.extend(names.iter().map(|n| var(n)));
            args.extend([ex(E::XPos), ex(E::YPos), ex(E::Heading), ex(E::Size), ex(E::CostumeNumber)]);
            r.entities[i].scripts.push(script(H::Unknown { name: "dump".into(), fields: vec![] }, vec![obs("dump", args)]));
        }
    }
    let mut s = Setup::new(r);
    s.acts = history(pg.g, p);
    if p.latency { let n = 1 + pg.g.below(5); s.latency = (0..n).map(|_| match pg.g.below(3) { 0 => 0, 1 => 1, _ => pg.g.below(8) as u32 }).collect(); }
    let n = 1 + pg.g.below(4);
    s.ticks = (0..n).map(|_| pg.g.pickc(&[1, 7, 20, 0, 100])).collect();
    if s.ticks.iter().all(|x| *x == 0) { s.ticks.push(5); }
    // some projects run for hours, days or years
    if p.time > 1 && pg.g.chance(1, 8) { let big = pg.g.pickc(&[3_600_000, 86_399_990, 100_000_007, 5_000_000_000, 70_000]); let i = pg.g.below(s.ticks.len()); s.ticks[i] = big; }
    let n = pg.g.below(4);
    s.replies = (0..n).map(|_| { let k = pg.g.below(4) as u32; let v = match pg.g.below(4) { 0 => None, 1 => Some(json!(pg.g.below(9))), 2 => Some(json!("reply")), _ => Some(json!([1, "x", [true]])) }; (k, v) }).collect();
    s.set = MSettings { max_call_depth: if p.small_depth { 2 + pg.g.below(12) } else { 30 }, soft_rpc: p.soft && pg.g.bool(), soft_sys: p.soft && pg.g.bool() };
    s.max_turns = p.turns;
    if p.time > 0 {
        let n = if p.time > 5 { 1 } else { 4 };
        s.clock = match pg.g.weighted(&[5 * n, 4, 1]) { 0 => crate::drive::HostClock::default(), 1 => crate::drive::HostClock { mode: crate::vm::TimeMode::Real, base: pg.g.range(1, 5_000_000) * 1_000_000, zone: pg.g.pickc(&[0, 3600, -18_000, 20_700]) }, _ => crate::drive::HostClock { mode: crate::vm::TimeMode::Timeless, ..crate::drive::HostClock::default() } };
    }
    if p.dump { s.acts.push((p.turns.saturating_sub(60).max(1), Act::Custom { name: "dump".into(), args: vec![], interrupt: false, max_queue: 0 })); s.acts.sort_by_key(|x| x.0); }
    s
}
pub fn msg_values(g: &mut Gen) -> Vec<(String, Snap)> {
    let mut v = vec![];
    for n in ["n1", "t1", "l1", "zz"] { if g.chance(3, 5) { let x = match n { "n1" => Snap::n(g.below(100) as f64), "t1" => Snap::t(g.pickc(&["a", "b", ""])), "l1" => Snap::List(0, vec![Snap::n(g.below(9) as f64), Snap::List(1, vec![Snap::t("in")])]), _ => Snap::Bool(true) }; v.push((n.to_string(), x)); } }
    v
}
pub fn history(g: &mut Gen, p: &Prof) -> Vec<(usize, Act)> {
    let mut acts: Vec<(usize, Act)> = if p.start_first { vec![(0, Act::Start)] } else { vec![] };
    let n = p.n_events.0 + g.below(p.n_events.1 - p.n_events.0 + 1);
    let mut t = 0;
    for i in 0..n {
        t += match g.below(4) { 0 => 0, 1 => 1, _ => g.below(p.event_span.max(1)) };
        acts.push((t, one_act(g, p.events, i)));
    }
    acts
}
/// Something that comes in from outside.
pub fn one_act(g: &mut Gen, events: &[(EK, usize)], i: usize) -> Act {
    let total: usize = events.iter().map(|x| x.1).sum();
    let mut x = g.below(total);
    let mut k = events[0].0;
    for (kk, w) in events { if x < *w { k = *kk; break } x -= w; }
    match k {
        EK::Start => Act::Start, EK::Stop => Act::Stop,
        EK::Key => Act::Key(key(g)), EK::KeyUp => Act::KeyUp(key(g)),
        EK::Event => Act::Custom { name: g.pickc(&["ev1", "ev2", "ev3", "ev1", "ev2", "Ev1", "ev1 "]).into(), args: msg_values(g), interrupt: g.bool(), max_queue: g.pickc(&[0, 1, 2, usize::MAX]) },
        EK::Msg => Act::Msg { msg_type: g.pickc(&["net1", "net2", "net3", "net1", "net2", "Net1"]).into(), values: msg_values(g), reply: if g.bool() { Some((format!("src{i}"), format!("req{i}"))) } else { None } },
    }
}
pub fn key(g: &mut Gen) -> MKey { match g.below(6) { 0 => MKey::Char('a'), 1 => MKey::Char(' '), 2 => MKey::Up, 3 => MKey::Char('b'), 4 => MKey::Enter, _ => MKey::Char('B') } }

// ---------------------------------------------------------------- showing programs
pub fn show(s: &Setup) -> String {
    let mut o = String::new();
    let r = &s.role;
    for g in &r.globals { o += &format!("global {} = {:?}\n", g.def.name, g.init); }
    for f in &r.funcs { o += &format!("define {}({:?}) up={:?}\n{}", f.name, f.params.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), f.upvars.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), show_stmts(&f.stmts, 1)); }
    for e in &r.entities {
        o += &format!("entity {} fields {:?}\n", e.name, e.fields.iter().map(|x| format!("{}={:?}", x.def.name, x.init)).collect::<Vec<_>>());
        for f in &e.funcs { o += &format!(" define {}({:?}) up={:?}\n{}", f.name, f.params.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), f.upvars.iter().map(|x| x.name.as_str()).collect::<Vec<_>>(), show_stmts(&f.stmts, 2)); }
        for sc in &e.scripts { o += &format!(" script {:?}\n{}", sc.hat.as_ref().map(|h| clean(&format!("{:?}", h.kind))), show_stmts(&sc.stmts, 2)); }
    }
    o += &format!("settings {:?} latency {:?} ticks {:?} clock {:?} replies {:?}\nhistory {:?}\nmidway {:?}\n", s.set, s.latency, s.ticks, s.clock, s.replies, s.acts, s.mid);
    o
}
fn clean(s: &str) -> String {
    // VariableRef { name: "x", trans_name: "x", location: Local } -> x, and drop block infos
    let mut out = s.to_string();
    for pat in [", info: BlockInfo { comment: None, location: None }", "Expr { kind: "] { out = out.replace(pat, if pat.starts_with("Expr") { "{" } else { "" }); }
    let mut res = String::new();
    let mut rest = out.as_str();
    while let Some(i) = rest.find("Variable") {
        let tail = &rest[i..];
        if let Some(r) = tail.strip_prefix("VariableRef { name: \"").or_else(|| tail.strip_prefix("VariableDef { name: \"")) {
            let q = r.find('"').unwrap();
            let close = r.find('}').unwrap();
            res += &rest[..i]; res += &r[..q];
            rest = &r[close + 1..];
        } else { res += &rest[..i + 8]; rest = &rest[i + 8..]; }
    }
    res + rest
}
pub fn show_stmts(v: &[Stmt], ind: usize) -> String {
    let pad = "  ".repeat(ind);
    let mut o = String::new();
    for s in v {
        let (head, bodies): (String, Vec<&Vec<Stmt>>) = match &s.kind {
            S::Warp { stmts } => ("warp".into(), vec![stmts]), S::InfLoop { stmts } => ("forever".into(), vec![stmts]),
            S::Repeat { times, stmts } => (format!("repeat {times:?}"), vec![stmts]), S::UntilLoop { condition, stmts } => (format!("until {condition:?}"), vec![stmts]),
            S::ForLoop { var, start, stop, stmts } => (format!("for {} = {start:?} to {stop:?}", var.name), vec![stmts]), S::ForeachLoop { var, items, stmts } => (format!("foreach {} in {items:?}", var.name), vec![stmts]),
            S::If { condition, then } => (format!("if {condition:?}"), vec![then]), S::IfElse { condition, then, otherwise } => (format!("ifelse {condition:?}"), vec![then, otherwise]),
            S::TryCatch { code, var, handler } => (format!("try catch {}", var.name), vec![code, handler]),
            k => (format!("{k:?}"), vec![]),
        };
        let loc = s.info.location.as_ref().map(|l| format!(" @{l}")).unwrap_or_default();
        o += &format!("{pad}{}{loc}\n", clean(&head));
        for (i, b) in bodies.iter().enumerate() { if i > 0 { o += &format!("{pad}--\n"); } o += &show_stmts(b, ind + 1); }
    }
    o
}
