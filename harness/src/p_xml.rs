//! Project files: the blocks of real projects (corpus/) spliced into each other as XML, parsed, and compared with the reference.
use crate::drive::*;
use crate::gprog::{history, show, Prof};
use crate::p_prog::*;
use crate::p_rel::{bounded, same_out};
use crate::runner::*;
use crate::tape::{Gen, Rng};
use crate::vm::*;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Node { pub tag: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Kid> }
#[derive(Clone, Debug)]
pub enum Kid { El(Node), Text(String) }
/// Reads the plain XML of the corpus (no comments, declarations or CDATA); entities stay as written.
pub fn parse(s: &str) -> Node {
    fn el(b: &[u8], i: &mut usize) -> Node {
        let ws = |b: &[u8], i: &mut usize| while b[*i].is_ascii_whitespace() { *i += 1 };
        let text = |a: usize, z: usize| String::from_utf8(b[a..z].to_vec()).unwrap();
        assert_eq!(b[*i], b'<'); *i += 1;
        let a = *i; while !b[*i].is_ascii_whitespace() && b[*i] != b'>' && b[*i] != b'/' { *i += 1 }
        let mut n = Node { tag: text(a, *i), attrs: vec![], kids: vec![] };
        loop {
            ws(b, i);
            if b[*i] == b'/' { *i += 2; return n }
            if b[*i] == b'>' { *i += 1; break }
            let a = *i; while b[*i] != b'=' { *i += 1 }
            let k = text(a, *i); *i += 1;
            let q = b[*i]; *i += 1;
            let a = *i; while b[*i] != q { *i += 1 }
            n.attrs.push((k, text(a, *i))); *i += 1;
        }
        loop {
            if b[*i] == b'<' {
                if b[*i + 1] == b'/' { while b[*i] != b'>' { *i += 1 } *i += 1; return n }
                n.kids.push(Kid::El(el(b, i)));
            } else { let a = *i; while b[*i] != b'<' { *i += 1 } let t = text(a, *i); if !t.trim().is_empty() { n.kids.push(Kid::Text(t)); } }
        }
    }
    el(s.trim().as_bytes(), &mut 0)
}
pub fn write(n: &Node, o: &mut String) {
    *o += "<"; *o += &n.tag;
    for (k, v) in &n.attrs { *o += &format!(" {k}=\"{}\"", v.replace('"', "&quot;").replace('<', "&lt;")); }
    *o += ">";
    for k in &n.kids { match k { Kid::El(n) => write(n, o), Kid::Text(t) => *o += t } }
    *o += &format!("</{}>", n.tag);
}
impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }
    pub fn find(&mut self, tag: &str) -> Option<&mut Node> {
        if self.tag == tag { return Some(self) }
        for k in &mut self.kids { if let Kid::El(n) = k { if let Some(x) = n.find(tag) { return Some(x) } } }
        None
    }
    fn each<'a>(&'a self, f: &mut dyn FnMut(&'a Node, Option<&'a Node>), up: Option<&'a Node>) { f(self, up); for k in &self.kids { if let Kid::El(n) = k { n.each(f, Some(self)); } } }
}
/// Where a node stands: as a block of a script, or as an input of a block.
fn slot(n: &Node, up: Option<&Node>) -> Option<bool> {
    let up = up?;
    match (n.tag.as_str(), up.tag.as_str()) {
        ("block" | "custom-block", "script") => if n.attr("s").is_some_and(|x| x.starts_with("receive")) { None } else { Some(true) },
        ("block" | "custom-block" | "l", "block" | "custom-block" | "autolambda" | "list") => Some(false),
        _ => None,
    }
}
/// Blocks with several acceptable outcomes (C36 judges those) stand aside for deterministic ones.
fn settle(n: &mut Node) {
    n.kids.retain(|k| !matches!(k, Kid::El(n) if n.tag == "block" && n.attr("s") == Some("bounceOffEdge")));
    for k in &mut n.kids { match k {
        Kid::Text(t) => if n.tag == "option" || n.tag == "l" { if t == "any" { *t = "last".into() } else if t.starts_with("random") { *t = "center".into() } },
        Kid::El(n) => {
            if n.tag == "block" { match n.attr("s") {
                Some("reportRandom") => n.attrs.iter_mut().for_each(|a| if a.0 == "s" { a.1 = "reportDifference".into() }),
                Some("reportDate") => *n = lit("5"),
                _ => (),
            } }
            settle(n)
        }
    } }
}
struct Corpus { projects: Vec<Node>, blocks: Vec<Node>, stmts: Vec<Node>, exprs: Vec<Node> }
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));
fn read(s: &str) -> Node { let mut n = parse(s); settle(&mut n); n }
fn corpus() -> &'static Corpus {
    static C: std::sync::OnceLock<Corpus> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut c = Corpus { projects: PROJECTS.iter().map(|x| read(x.1)).collect(), blocks: BLOCKS.iter().map(|x| read(x.1)).collect(), stmts: vec![], exprs: vec![] };
        let (mut st, mut ex) = (vec![], vec![]);
        for n in c.projects.iter().chain(&c.blocks) {
            n.each(&mut |n, up| match slot(n, up) { Some(true) => st.push(n.clone()), Some(false) if n.tag != "l" || n.kids.len() == 1 => ex.push(n.clone()), _ => () }, None);
        }
        c.stmts = st; c.exprs = ex;
        c
    })
}
fn el(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node { Node { tag: tag.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids: kids.into_iter().map(Kid::El).collect() } }
fn lit(t: &str) -> Node { Node { tag: "l".into(), attrs: vec![], kids: if t.is_empty() { vec![] } else { vec![Kid::Text(t.into())] } } }
const LITS: &[&str] = &["0", "1", "2", "3", "-1", "10", "0.5", "", "a", "hello", "1e3", "100", "-7", "0x1f", "last", "true", "[1, 2]", "1,2", "b c"];

/// The project wrapped around one to three of the block libraries, with scripts that call them.
fn around(g: &mut Gen) -> Node {
    let c = corpus();
    let mut root = parse(TEMPLATE);
    let mut defs = vec![];
    for _ in 0..1 + g.below(3) {
        let lib = &c.blocks[g.below(c.blocks.len())];
        for k in &lib.kids { if let Kid::El(d) = k {
            if let Some(i) = defs.iter().position(|x: &Node| x.attr("s") == d.attr("s")) { defs.remove(i); }
            defs.push(d.clone());
        } }
    }
    let mut scripts = vec![];
    for i in 0..1 + g.below(3) {
        let d = &defs[defs.len() - 1 - if g.chance(2, 3) { 0 } else { g.below(defs.len()) }];
        let d = if g.chance(2, 3) { defs.iter().rev().find(|x| x.attr("s").unwrap_or("").starts_with("main")).unwrap_or(d) } else { d };
        let mut types = vec![];
        d.each(&mut |n, up| if n.tag == "input" && up.is_some_and(|u| u.tag == "inputs") { types.push(n.attr("type").unwrap_or("%s").to_string()) }, None);
        let mut name = String::new();
        let mut rest = d.attr("s").unwrap_or("");
        let mut ti = 0;
        while let Some(p) = rest.find("%&apos;") {
            name += &rest[..p];
            let t = &rest[p + 7..]; let e = t.find("&apos;").unwrap();
            name += types.get(ti).map(|x| x.as_str()).unwrap_or("%s"); ti += 1;
            rest = &t[e + 6..];
        }
        name += rest;
        let call = el("custom-block", &[("s", &name)], (0..ti).map(|_| lit(g.pickc(LITS))).collect());
        let reporter = d.attr("type").is_some_and(|x| x != "command");
        let st = if reporter { el("block", &[("s", "doSetVar")], vec![lit("g0"), call]) } else { call };
        let hat = if i == 0 || g.bool() { el("block", &[("s", "receiveGo")], vec![]) } else { el("block", &[("s", "receiveKey")], vec![el("l", &[], vec![el("option", &[], vec![])])]) };
        let mut hat = hat;
        if let Some(o) = hat.find("option") { o.kids.push(Kid::Text("any key".into())); }
        scripts.push(el("script", &[("x", "0"), ("y", "0")], vec![hat, st]));
    }
    // every variable named anywhere exists
    let mut names: std::collections::BTreeSet<String> = ["g0".to_string()].into();
    for d in &defs { d.each(&mut |n, _| if n.tag == "block" {
        if let Some(v) = n.attr("var") { names.insert(v.to_string()); }
        if matches!(n.attr("s"), Some("doSetVar" | "doChangeVar" | "doShowVar" | "doHideVar")) { if let Some(Kid::El(l)) = n.kids.first() { if let Some(Kid::Text(t)) = l.kids.first() { names.insert(t.clone()); } } }
    }, None) }
    fn put(n: &mut Node, defs: &[Node], scripts: &[Node], names: &std::collections::BTreeSet<String>) {
        n.kids.retain(|k| !matches!(k, Kid::Text(t) if t.contains('{')));
        if n.tag == "project" {
            n.kids.push(Kid::El(el("blocks", &[], defs.to_vec())));
        }
        if n.tag == "scripts" { n.kids = scripts.iter().cloned().map(Kid::El).collect(); }
        let in_project = n.tag == "project";
        for k in &mut n.kids { if let Kid::El(x) = k {
            if in_project && x.tag == "variables" { for v in names { x.kids.push(Kid::El(el("variable", &[("name", v)], vec![lit("0")]))); } }
            put(x, defs, scripts, names);
        } }
    }
    put(&mut root, &defs, &scripts, &names);
    root
}
fn count(n: &Node, want: bool) -> usize { let mut c = 0; n.each(&mut |n, up| if slot(n, up) == Some(want) { c += 1 }, None); c }
/// Applies `f` to the kid list holding the i-th node in such a slot and its position there.
fn at(n: &mut Node, want: bool, i: &mut usize, f: &mut dyn FnMut(&mut Vec<Kid>, usize)) -> bool {
    for j in 0..n.kids.len() {
        let hit = match &n.kids[j] { Kid::El(x) => { let up = Node { tag: n.tag.clone(), attrs: vec![], kids: vec![] }; slot(x, Some(&up)) == Some(want) } _ => false };
        if hit { if *i == 0 { f(&mut n.kids, j); return true } *i -= 1; }
        if let Kid::El(x) = &mut n.kids[j] { if at(x, want, i, f) { return true } }
    }
    false
}
fn nth(n: &Node, want: bool, i: usize) -> Node { let mut c = i; let mut r = None; n.each(&mut |n, up| if slot(n, up) == Some(want) { if c == 0 && r.is_none() { r = Some(n.clone()) } c = c.wrapping_sub(1); }, None); r.unwrap() }
fn mutate(g: &mut Gen, root: &mut Node) {
    let c = corpus();
    let stmt = g.chance(2, 5);
    let n = count(root, stmt);
    if n == 0 { return }
    let mut i = g.below(n);
    let other = match g.below(3) { 0 => { let j = g.below(n); Some(nth(root, stmt, j)) } 1 => { let pool = if stmt { &c.stmts } else { &c.exprs }; Some(pool[g.below(pool.len())].clone()) } _ => None };
    let how = g.below(8);
    let l = g.pickc(LITS);
    at(root, stmt, &mut i, &mut |kids, j| match (stmt, how, &other) {
        (false, 0..=2, _) => kids[j] = Kid::El(lit(l)),
        (false, 3, None) => { kids.remove(j); }
        (_, 4, None) if j + 1 < kids.len() && j > 0 => kids.swap(j, j - 1),
        (true, 3, None) => { let x = kids[j].clone(); kids.insert(j, x); }
        (true, 0, None) => { kids.remove(j); }
        (true, 5..=7, Some(o)) => kids.insert(j, Kid::El(o.clone())),
        (_, _, Some(o)) => kids[j] = Kid::El(o.clone()),
        _ => (),
    });
}
thread_local! { static QUIET: RefCell<bool> = const { RefCell::new(false) } }
fn try_parse(n: &Node) -> Option<ast::Role> {
    let mut s = String::new(); write(n, &mut s);
    match std::panic::catch_unwind(|| ast::Parser::default().parse(&s).ok().and_then(|p| p.roles.into_iter().next())) { Ok(x) => x, Err(_) => None } // the parser is another project's
}
/// A role from a project file with some of its blocks replaced.
pub fn gen_role(g: &mut Gen, cx: &mut Ctx) -> Option<ast::Role> {
    let c = corpus();
    let mut root = if g.chance(3, 5) { around(g) } else { c.projects[g.below(c.projects.len())].clone() };
    let mut role = try_parse(&root);
    cx.label_if(role.is_none(), "file does not parse");
    let mut ok = 0;
    for _ in 0..g.below(14) {
        let mut next = root.clone();
        mutate(g, &mut next);
        if let Some(r) = try_parse(&next) { root = next; role = Some(r); ok += 1; }
    }
    cx.label_if(ok > 0, "with replaced blocks");
    if cx.verbose { let mut s = String::new(); write(&root, &mut s); eprintln!("{s}"); }
    role
}
pub const FILES: Prof = Prof { n_events: (0, 8), event_span: 20, events: ALL.events, latency: true, soft: true, ..crate::gprog::BASE };
pub fn gen_setup(g: &mut Gen, cx: &mut Ctx) -> Option<Setup> {
    let role = gen_role(g, cx)?;
    if let Err(e) = compile(&role) { cx.label("not supported"); if cx.verbose { eprintln!("{e}"); } return None }
    let mut s = Setup::new(role);
    if g.bool() { s.acts.extend(history(g, &FILES)); s.acts.sort_by_key(|x| x.0); }
    s.set.soft_rpc = g.bool(); s.set.soft_sys = g.bool();
    if g.chance(1, 3) { s.latency = (0..1 + g.below(3)).map(|_| g.below(4) as u32).collect(); }
    s.set.max_call_depth = g.pickc(&[40, 40, 10, 100]);
    s.ticks = vec![g.pickc(&[10, 1, 100, 1000])];
    s.max_turns = 150;
    Some(s)
}
pub fn files(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let Some(s) = gen_setup(g, cx) else { return Ok(()) };
    run_setup(cx, &s, |m| m.turns > 3 || m.stats.calls > 0)
}
pub fn files_gc(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let Some(mut s) = gen_setup(g, cx) else { return Ok(()) };
    let Some((m, o)) = bounded(&mut s, cx) else { return Ok(()) };
    cx.nt_if(m.turns > 3 || m.stats.calls > 0);
    let a = run_vm(&s, &o)?;
    let b = run_vm(&s, &VmOpts { gc: match g.below(3) { 0 => GcMode::EveryStep, 1 => GcMode::EveryTurn, _ => GcMode::Random(g.bits()) }, ..o.clone() })?;
    same_out(&a, &b, "without collections", "with collections")
}
pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C13", rule: "files: scripts and block libraries of real project files spliced into each other as XML, parsed and run against the reference (non-trivial = more than three turns or a call); blocks: every reporter and list block on hostile operands (non-trivial = a block gave a result)", assumptions: &[], subs: vec![Sub { name: "files", run: files, quick: 60_000, thorough: 1_000_000 }, Sub { name: "blocks", run: crate::p_ops::any_family, quick: 150_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C27", rule: "files: spliced project files run without and with collections (non-trivial = more than three turns or a call)", assumptions: &[], subs: vec![Sub { name: "files", run: files_gc, quick: 15_000, thorough: 400_000 }], probes: vec![] },
    ]
}
