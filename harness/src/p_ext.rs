//! C41: the script that the execution server offers to the editor, rendered for generated settings and run in the
//! stand-in for the editor of ext.js.
use crate::tape::Gen;
use crate::runner::*;
use crate::gens;
use crate::p_api::ensure;
use netsblox_vm::json::{json, Json};
use netsblox_vm::process::{ErrorSummary, TraceEntry, VarEntry};
use netsblox_vm::template::{ExtensionArgs, Status, SyscallMenu};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

// ------------------------------------------------------------------ the stand-in

struct Editor { child: Child, tx: ChildStdin, rx: BufReader<ChildStdout>, n: usize }
impl Drop for Editor { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static EDITOR: RefCell<Option<Editor>> = const { RefCell::new(None) }; }
fn editor(case: &Json) -> Result<Json, String> {
    EDITOR.with(|x| {
        let mut slot = x.borrow_mut();
        let mut ed = match slot.take().filter(|e| e.n < 3000) {
            Some(e) => e,
            None => {
                let mut cmd = Command::new("node");
                cmd.args(["-e", include_str!("ext.js")]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
                unsafe { cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
                let mut child = cmd.spawn().expect("node does not start");
                let (tx, rx) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
                Editor { child, tx, rx, n: 0 }
            }
        };
        ed.n += 1;
        let mut line = serde_json::to_string(case).unwrap();
        line.push('\n');
        ed.tx.write_all(line.as_bytes()).map_err(|e| format!("the stand-in is gone: {e}"))?;
        ed.tx.flush().map_err(|e| format!("the stand-in is gone: {e}"))?;
        let mut got = String::new();
        ed.rx.read_line(&mut got).map_err(|e| format!("the stand-in is gone: {e}"))?;
        let r: Json = serde_json::from_str(&got).map_err(|e| format!("the stand-in says {got:?}: {e}"))?;
        *slot = Some(ed);
        Ok(r)
    })
}

// ------------------------------------------------------------------ settings

fn label(g: &mut Gen) -> String {
    let mut t = match g.weighted(&[6, 2, 2, 2]) {
        0 => g.pickc(&["open", "close", "readLine", "a b", "C", "x.y", "get-it", "é", "1", "42", "-1", "4294967295", ""]).to_string(),
        1 => g.pickc(&["it's", "say \"hi\"", "back\\slash", "new\nline", "tab\t", "${x}", "{y}", "{{", "`tick`", "</script>", "//", "/* */", "\u{2028}", "\u{7f}", "e\u{301}", "\u{200b}", "😀", "\r", "\\n", "\\", "'"]).to_string(),
        2 => gens::text(g),
        _ => g.pickc(&["constructor", "toString", "name", "length", "prototype", "hasOwnProperty"]).to_string(),
    };
    t.retain(|c| c != '\0');
    if t == "__proto__" { t.clear() }
    t
}
fn menu(g: &mut Gen, depth: usize) -> Vec<SyscallMenu> {
    let mut seen = BTreeSet::new();
    let mut res = vec![];
    for _ in 0..g.len(6) {
        let l = label(g);
        if !seen.insert(l.clone()) { continue }
        res.push(match g.below(4) {
            0 if depth > 0 => SyscallMenu::Submenu { label: l, content: menu(g, depth - 1) },
            1 => SyscallMenu::simple_entry(l),
            _ => SyscallMenu::Entry { label: l, value: label(g) },
        });
    }
    res
}
fn whole(l: &str) -> bool { l.parse::<u32>().is_ok_and(|n| n != u32::MAX && n.to_string() == l) }
/// what the menu has to show: pairs of label and value or submenu. Only labels that read as whole numbers may move
fn shown(menu: &[SyscallMenu]) -> Json {
    let xs = menu.iter().map(|x| match x { SyscallMenu::Entry { label, value } => json!([label, value]), SyscallMenu::Submenu { label, content } => json!([label, shown(content)]) });
    in_order(Json::Array(xs.collect()))
}
fn in_order(x: Json) -> Json {
    let Json::Array(mut xs) = x else { return x };
    for x in &mut xs { let sub = in_order(x[1].take()); x[1] = sub; }
    if xs.iter().any(|x| x[0].as_str().is_some_and(whole)) { xs.sort_by(|a, b| a[0].as_str().cmp(&b[0].as_str())); }
    Json::Array(xs)
}

// ------------------------------------------------------------------ documents

enum Xml { Text(String), Elem(&'static str, String, Vec<Xml>) }
const NAMES: &[&str] = &["role", "project", "thumbnail", "pentrails", "history", "replay", "scene", "block", "l", "thumb", "historyEntry", "stage"];
fn elem(g: &mut Gen, name: &'static str, depth: usize) -> Xml {
    let mut attrs = String::new();
    for k in ["name", "thumbnail", "id"] { if g.chance(1, 4) { attrs += &format!(" {k}=\"{}\"", g.pickc(&["", "history", "a b", "&lt;replay&gt;", "x'y", "&quot;", "1"])); } }
    let mut content: Vec<Xml> = vec![];
    if depth > 0 {
        for _ in 0..g.len(7) {
            if g.chance(1, 4) { content.push(Xml::Text(g.pickc(&["text", "history", " ", "&lt;thumbnail/&gt;", "1 2\n3", "é😀", "&amp;"]).into())); }
            else { let n = g.pickc(NAMES); content.push(elem(g, n, depth - 1)); }
        }
    }
    Xml::Elem(name, attrs, content)
}
fn write_xml(x: &Xml, omit: &[&str], gone: &mut usize) -> String {
    match x {
        Xml::Text(t) => t.clone(),
        Xml::Elem(n, ..) if omit.contains(n) => { *gone += 1; String::new() }
        Xml::Elem(n, a, c) => {
            let inner: String = c.iter().map(|x| write_xml(x, omit, gone)).collect();
            if inner.is_empty() { format!("<{n}{a}/>") } else { format!("<{n}{a}>{inner}</{n}>") }
        }
    }
}

// ------------------------------------------------------------------ projects and errors

/// blocks of the project by key: the id of each
struct Blocks(Vec<Option<String>>);
fn id(g: &mut Gen) -> String { format!("item_{}", g.below(9)) }
fn tree(g: &mut Gen, bs: &mut Blocks, depth: usize) -> Json {
    let key = bs.0.len();
    let id = g.chance(3, 4).then(|| id(g));
    bs.0.push(id.clone());
    let children: Vec<Json> = if depth == 0 { vec![] } else { (0..g.len(4)).map(|_| tree(g, bs, depth - 1)).collect() };
    json!({ "id": id, "key": key, "children": children })
}
/// definitions of custom blocks, some of which are empty
fn defs(g: &mut Gen, bs: &mut Blocks) -> Vec<Json> { (0..g.len(3)).map(|_| if g.chance(1, 5) { Json::Null } else { tree(g, bs, 2) }).collect() }
fn word(g: &mut Gen) -> String { match g.below(3) { 0 => gens::text(g), 1 => g.pickc(&["x", "my var", "i", "$&", "undefined", "null", ""]).to_string(), _ => format!("v{}", g.below(100)) } }
fn vars(g: &mut Gen) -> Vec<VarEntry> { (0..g.len(3)).map(|_| VarEntry { name: word(g).into(), value: word(g).into() }).collect() }
fn error(g: &mut Gen, n: usize) -> ErrorSummary {
    ErrorSummary {
        cause: format!("cause {n} {}", word(g)).into(), entity: word(g).into(), globals: vars(g), fields: vars(g),
        trace: (0..g.len(5)).map(|_| TraceEntry { location: if g.chance(1, 6) { format!("item_{}", 20 + g.below(3)).into() } else { id(g).into() }, locals: vars(g) }).collect(),
    }
}

enum Step { Open, Close, Press(&'static str), Pause, Pull(u16, Option<Status>), Wait(usize) }
const MAX: usize = 1 << 20;

fn c41(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let server = g.pickc(&["http://127.0.0.1:6286", "http://localhost:80", "https://example.com", "http://10.0.0.7:65535/vm", "http://[::1]:8080"]);
    let syscalls = menu(g, 3);
    let omit: Vec<&str> = match g.below(4) { 0 => vec!["thumbnail", "pentrails", "history", "replay"], _ => { let mut o: Vec<&str> = (0..g.len(5)).map(|_| g.pickc(&NAMES[1..])).collect(); o.dedup(); o } };
    let every = g.pickc(&[250u64, 1, 10, 60, 1000, 33]);
    let code = ExtensionArgs { server, syscalls: &syscalls, omitted_elements: &omit, pull_interval: Duration::from_millis(every) }.render();
    terminal(g, cx, &code, server, &syscalls, &omit, every)
}
/// The script that the execution server hands out.
fn c41_served(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let fs = g.bool();
    let (code, server) = crate::p_server::extension(fs)?;
    let menu: Vec<SyscallMenu> = if fs { ["open", "close", "readLine", "writeLine"].iter().map(|x| SyscallMenu::simple_entry(x.to_string())).collect() } else { vec![] };
    terminal(g, cx, &code, &server, &menu, &["thumbnail", "pentrails", "history", "replay"], 250)
}
fn terminal(g: &mut Gen, cx: &mut Ctx, code: &str, server: &str, syscalls: &[SyscallMenu], omit: &[&str], every: u64) -> CheckResult {
    let doc = elem(g, "role", 4);
    let (role, mut gone) = (write_xml(&doc, &[], &mut 0), 0);
    let cleaned = write_xml(&doc, omit, &mut gone);
    let mut bs = Blocks(vec![]);
    let (world, globals, stage) = (tree(g, &mut bs, 3), defs(g, &mut bs), defs(g, &mut bs));
    let sprites: Vec<Vec<Json>> = (0..g.len(3)).map(|_| defs(g, &mut bs)).collect();
    let project = word(g);
    let refuse = g.chance(1, 5);
    let huge = g.chance(1, 400);

    let mut steps = vec![];
    let (mut open, mut ever, mut errs, mut waits) = (false, false, 0, 0);
    let mut pulls = 0;
    for _ in 0..4 + g.below(if huge { 8 } else { 24 }) {
        let s = match g.weighted(&[6, 6, 2, 2, 3]) {
            0 => {
                pulls += 1;
                if g.chance(1, 8) { Step::Pull(g.pickc(&[500, 404, 0, 503]), None) } else {
                    let mut output = match if huge { 0 } else { g.below(4) } { 0 => String::new(), 1 => gens::text(g), _ => format!("<{pulls}> {}\n", word(g)) };
                    if huge && g.bool() { output = format!("{pulls} {}\n", g.pickc(&["x", "é", "ab"]).repeat(g.pickc(&[1 << 20, 400_000, (1 << 20) - 3, (1 << 19) - 1]))); }
                    let errors = if g.chance(1, 3) { (0..1 + g.below(3)).map(|_| { errs += 1; error(g, errs) }).collect() } else { vec![] };
                    Step::Pull(200, Some(Status { running: g.chance(2, 3), output, errors }))
                }
            }
            1 => { waits += 1; Step::Wait(g.below(4 * every as usize)) }
            2 if !open => { (open, ever) = (true, true); Step::Open }
            2 => Step::Press("Clear"),
            3 if open => { if g.bool() { open = false; Step::Close } else { Step::Open } }
            _ if ever => match g.below(5) { 0 => Step::Pause, k => Step::Press(["Upload", "Download", "flag", "octagon"][k - 1]) },
            _ => { (open, ever) = (true, true); Step::Open }
        };
        steps.push(s);
    }
    if !open { steps.push(Step::Open); }
    steps.push(Step::Wait((pulls + 2) * (every as usize + 1)));

    let said: Vec<Json> = steps.iter().map(|s| match s {
        Step::Open => json!(["open"]), Step::Close => json!(["press", "Close"]), Step::Press(b) => json!(["press", b]), Step::Pause => json!(["pause"]), Step::Wait(n) => json!(["wait", n]),
        Step::Pull(status, body) => json!(["pull", [status, body.as_ref().map(|b| serde_json::to_string(b).unwrap()).unwrap_or_else(|| "unavailable".into())]]),
    }).collect();
    let case = json!({ "code": code, "server": server, "role": role, "project": project, "refuse": refuse, "world": world, "globals": globals, "stage": stage, "sprites": sprites, "steps": said });
    cx.nt_if(gone > 0 || errs > 0 && waits > 0);
    cx.label_if(gone > 1, "elements-omitted"); cx.label_if(errs > 1, "errors"); cx.label_if(huge, "clipped"); cx.label_if(refuse, "refused"); cx.label_if(!syscalls.is_empty(), "menu");
    cx.label_if(globals.iter().chain(&stage).chain(sprites.iter().flatten()).any(|x| x.is_null()), "empty-definition");
    cx.sample(|| { let mut c = case.clone(); c["code"] = json!("..."); if huge { c["steps"] = json!("..."); } format!("omit {omit:?}, every {every} ms: {c}") });
    let r = editor(&case)?;
    ensure!(r["fault"].is_null(), "the script does not run: {}", r["fault"]);
    ensure!(r["trouble"] == json!([]), "the script fails: {}", r["trouble"]);

    // what it adds
    let want = shown(syscalls);
    let got = in_order(r["menu"].clone());
    ensure!(got == want, "the menu shows {got} for {want}");
    let kinds: Vec<(&str, &str)> = r["blocks"].as_array().unwrap().iter().map(|b| (b[0].as_str().unwrap_or(""), b[1].as_str().unwrap_or(""))).collect();
    for want in [("nativeRunSyscall", "command"), ("nativeCallSyscall", "reporter"), ("nativeSyscallError", "reporter")] { ensure!(kinds.contains(&want), "no block {want:?} in {}", r["blocks"]); }
    ensure!(kinds.len() == 3, "blocks {}", r["blocks"]);
    for b in r["blocks"].as_array().unwrap() { ensure!(b[0] == "nativeSyscallError" || b[3].as_str().is_some_and(|s| s.contains("%syscall")), "block without a menu: {b}"); }
    for who in ["SpriteMorph", "StageMorph"] {
        let there: BTreeSet<&str> = r["palette"].as_array().unwrap().iter().filter(|p| p[2] == who).flat_map(|p| p[1].as_array().unwrap().iter().filter_map(|x| x.as_str())).collect();
        ensure!(kinds.iter().all(|k| there.contains(k.0)), "palette of {who}: {}", r["palette"]);
    }
    ensure!(r["dropped"] == json!([project]), "the editor is given {} for the project {project:?}", r["dropped"]);

    // what it does
    let (mut queue, mut text, mut clears, mut downloads, mut refused) = (VecDeque::new(), Vec::<u16>::new(), false, 0, 0);
    let mut running: Option<bool> = None;
    let mut seen: Vec<(&ErrorSummary, BTreeSet<usize>)> = vec![];
    let mut open = false;
    let mut shown_text = Json::Null;
    for (i, s) in steps.iter().enumerate() {
        let reqs: Vec<(&str, &str, Option<&str>)> = r["uploads"][i].as_array().unwrap().iter().map(|q| (q[0].as_str().unwrap(), q[1].as_str().unwrap().strip_prefix(server).unwrap_or("?"), q[2].as_str())).collect();
        let polls = reqs.iter().filter(|q| q.0 == "POST" && q.1 == "/pull").count();
        let others: Vec<_> = reqs.iter().filter(|q| q.1 != "/pull").copied().collect();
        let what = |s: &Step| -> Vec<(&str, &str, Option<&str>)> { match s {
            Step::Press("flag") => vec![("POST", "/input", Some("start"))],
            Step::Press("octagon") => vec![("POST", "/input", Some("stop"))],
            Step::Pause => vec![("POST", "/toggle-paused", None)],
            _ => vec![],
        } };
        match s {
            Step::Press("Upload") => { ensure!(others == [("POST", "/project", Some(if omit.is_empty() { role.as_str() } else { cleaned.as_str() }))], "step {i}: upload without {omit:?}\n  of    {role}\n  wants {cleaned}\n  sends {others:?}"); }
            // the project is asked for 500 ms after loading, which is over by now
            s => { let want = what(s); ensure!(others == want, "step {i}: requests {others:?}, expected {want:?}"); }
        }
        refused += refuse as usize * others.len();
        match s {
            Step::Open => open = true,
            Step::Close => open = false,
            Step::Press("Clear") => { text.clear(); clears = true; }
            Step::Press("Download") => downloads += 1,
            Step::Pull(st, body) => queue.push_back((*st, body.as_ref())),
            _ => (),
        }
        if let (Step::Wait(ms), true) = (s, open) {
            let (least, most) = ((*ms / (every as usize)).saturating_sub(1), *ms / every as usize + 1);
            ensure!((least..=most).contains(&polls), "step {i}: {polls} pulls in {ms} ms, one each {every} ms expected");
        }
        for _ in 0..polls {
            let Some((_, body)) = queue.pop_front() else { running = Some(true); continue };
            let Some(body) = body else { continue };
            running = Some(body.running);
            text.extend(body.output.encode_utf16());
            if text.len() > MAX { text.drain(..text.len() - MAX); }
            for e in &body.errors {
                let ids: BTreeSet<&str> = e.trace.iter().map(|t| t.location.as_str()).collect();
                seen.push((e, bs.0.iter().enumerate().filter(|(_, b)| b.as_deref().is_some_and(|b| ids.contains(b))).map(|x| x.0).collect()));
            }
        }
        if r["texts"][i] != json!(0) { shown_text = r["texts"][i].clone(); }
        if !matches!(s, Step::Wait(_)) { continue }
        if shown_text != Json::Null || !text.is_empty() {
            let want = String::from_utf16(&text).unwrap_or_default();
            let short = |s: &str| -> String { if s.len() > 400 { format!("{:?}… ({} bytes)", s.chars().take(60).collect::<String>(), s.len()) } else { format!("{s:?}") } };
            ensure!(shown_text.as_str() == Some(want.as_str()), "step {i}: the terminal shows {}, the output was {}", short(shown_text.as_str().unwrap_or("nothing")), short(&want));
        }
        if let Some(x) = running { ensure!(r["running"][i].as_str() == Some(if x { "pause" } else { "pointRight" }), "step {i}: the button shows {} while running is {x}", r["running"][i]); }
        let notes: BTreeMap<usize, &str> = r["comments"][i].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap())).collect();
        for (key, block) in bs.0.iter().enumerate() {
            let latest = seen.iter().rposition(|x| x.1.contains(&key));
            match (latest, notes.get(&key)) {
                (None, None) => (),
                (None, Some(t)) => return Err(format!("step {i}: block {key} {block:?} shows {t:?}, which no error is about")),
                // an error that shares a block with a later one may have gone altogether
                (Some(l), None) => ensure!(seen[l + 1..].iter().any(|x| !x.1.is_disjoint(&seen[l].1)), "step {i}: block {key} {block:?} shows nothing of {:?}", seen[l].0),
                (Some(l), Some(t)) => {
                    let e = seen[l].0;
                    let has = |vs: &[VarEntry]| vs.iter().all(|v| t.contains(&format!("{} = {}", v.name, v.value)));
                    ensure!(t.starts_with(e.cause.as_str()) && has(&e.fields) && has(&e.globals) && e.trace.iter().any(|x| Some(x.location.as_str()) == block.as_deref() && has(&x.locals)),
                        "step {i}: block {key} {block:?} shows {t:?} for {e:?}");
                }
            }
        }
    }
    cx.label_if(clears, "cleared");
    ensure!(r["left"] == json!(0), "{} reports were not taken", r["left"]);
    ensure!(r["opened"].as_array().unwrap().len() == downloads && r["opened"].as_array().unwrap().iter().all(|x| x.as_str() == Some(&format!("{server}/project"))), "downloads {}", r["opened"]);
    let alerts = r["alerts"].as_array().unwrap();
    ensure!(alerts.len() == refused && alerts.iter().all(|a| a[0] == "500"), "alerts {} for {refused} refused requests", r["alerts"]);
    Ok(())
}

// ------------------------------------------------------------------ fixed inputs

/// What blocks show after one report of an error with the given trace; the project has the given blocks and a custom block without definition.
fn shows(children: Json, globals: Json, trace: &[&str], want: Json) -> CheckResult {
    let code = ExtensionArgs { server: "http://localhost:1", syscalls: &[], omitted_elements: &[], pull_interval: Duration::from_millis(100) }.render();
    let trace: Vec<Json> = trace.iter().map(|x| json!({ "location": x, "locals": [] })).collect();
    let report = json!({ "running": true, "output": "", "errors": [{ "cause": "oops", "entity": "x", "globals": [], "fields": [], "trace": trace }] });
    let steps = json!([["pull", [200, report.to_string()]], ["open"], ["wait", 1000]]);
    let r = editor(&json!({ "code": code, "server": "http://localhost:1", "role": "<role/>", "project": "", "refuse": false, "world": { "id": null, "key": 0, "children": children }, "globals": globals, "stage": [], "sprites": [], "steps": steps }))?;
    let got: Vec<Json> = r["comments"][2].as_array().map(|x| x.iter().map(|x| x[0].clone()).collect()).unwrap_or_default();
    ensure!(json!(got) == want, "blocks {got:?} show the error, expected {want}; {}", r["fault"]);
    Ok(())
}
fn blocks() -> Json { json!([{ "id": "item_1", "key": 1, "children": [] }, { "id": "item_2", "key": 2, "children": [] }]) }
fn empty_definition() -> CheckResult { shows(blocks(), json!([null]), &["item_1"], json!([1])) }
fn gone_block() -> CheckResult { shows(blocks(), json!([]), &["item_7", "item_1"], json!([1])) }
fn passed_again() -> CheckResult { shows(blocks(), json!([]), &["item_1", "item_2", "item_2"], json!([1, 2])) }
fn omitted() -> CheckResult {
    let code = ExtensionArgs { server: "http://localhost:1", syscalls: &[], omitted_elements: &["history"], pull_interval: Duration::from_millis(100) }.render();
    let r = editor(&json!({ "code": code, "server": "http://localhost:1", "role": "<role><history/><history/><history/>x</role>", "project": "", "refuse": false, "world": { "id": null, "key": 0, "children": [] }, "globals": [], "stage": [], "sprites": [], "steps": [["open"], ["press", "Upload"]] }))?;
    ensure!(r["uploads"][1][0][2] == "<role>x</role>", "uploads {}; {}", r["uploads"], r["fault"]);
    Ok(())
}

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C41", rule: "settings, system call menus, role documents and histories of terminal commands and server reports given to the rendered editor script, run in a stand-in for the editor (non-trivial: something was omitted from an upload, or errors were reported)",
            assumptions: &["the stand-in (ext.js) has live element collections, timers, requests and block comments as browsers and the editor have them", "the address is a plain URL; labels differ within a menu, hold no NUL and are not __proto__", "reports of the server are well-formed"],
            subs: vec![Sub { name: "terminal", run: c41, quick: 40_000, thorough: 1_000_000 }, Sub { name: "served", run: c41_served, quick: 4_000, thorough: 40_000 }],
            probes: vec![Probe { id: "omitted", run: omitted }, Probe { id: "empty-definition", run: empty_definition }, Probe { id: "gone-block", run: gone_block }, Probe { id: "passed-again", run: passed_again }] },
    ]
}
