//! Runs the sub-checks of a property over generated cases, shrinks failures, writes evidence and replays.
use crate::tape::{Gen, hash_str, shrink, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Per-case context: classification and samples.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub verbose: bool,
    /// how many independent evaluations the case performed (batched cases)
    pub evals: u64,
}
impl Ctx {
    pub fn nt(&mut self) { self.nontrivial = true; }
    pub fn nt_if(&mut self, c: bool) { if c { self.nontrivial = true; } }
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample || self.verbose { let s = f(); if self.verbose { println!("CASE: {s}"); } self.sample = Some(s); } }
}

pub type CheckResult = Result<(), String>;
pub type CaseFn = fn(&mut Gen, &mut Ctx) -> CheckResult;

pub struct Sub {
    pub name: &'static str,
    pub run: CaseFn,
    pub quick: usize,
    pub thorough: usize,
}
/// A fixed regression input: `id` is referenced by the known-findings file.
pub struct Probe {
    pub id: &'static str,
    pub run: fn() -> CheckResult,
}
pub struct Claim {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub probes: Vec<Probe>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static ALLOC_WARNED: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(sub: &Sub, g: &mut Gen, ctx: &mut Ctx) -> CheckResult {
    guarded(|| (sub.run)(g, ctx))
}

pub fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| {
        // harness/ lies directly in the verification folder
        std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

struct Failure { order: usize, sub: usize, tape: Vec<u64>, msg: String }

fn with_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

pub fn replay(props: &[Claim], path: &str, verbose: bool) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let (pid, sname) = (j["property"].as_str().unwrap(), j["sub"].as_str().unwrap());
    let prop = props.iter().find(|p| p.id == pid).expect("property");
    let res = if let Some(id) = sname.strip_prefix("probe:") {
        let probe = prop.probes.iter().find(|p| p.id == id).expect("probe");
        with_big_stack(|| guarded(probe.run))
    } else {
        let sub = prop.subs.iter().find(|s| s.name == sname).expect("sub");
        let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        // a case that brought the process down is kept as the seed of its choices
        let mut g = match j["seed"].as_u64() { Some(x) => Gen::random(x), None => Gen::replay(tape) };
        with_big_stack(|| {
            let mut ctx = Ctx { verbose, ..Default::default() };
            let r = run_case(sub, &mut g, &mut ctx);
            if r.is_ok() && tries_of(prop.id) > 1 { failing(prop, sub, &g.tape).map_or(Ok(()), Err) } else { r }
        })
    };
    match res {
        Ok(()) => { println!("replay: property holds on this case"); 0 }
        Err(e) => { println!("{e}"); println!("VIOLATION property={pid} replay={path}"); 1 }
    }
}

/// How often a case is tried before its failure is put down to chance: the checks that go through sockets and clocks.
fn tries_of(prop: &str) -> usize { if matches!(prop, "C38" | "C39" | "C40" | "C41" | "C42") { 60 } else { 1 } }
fn failing(prop: &Claim, sub: &Sub, tape: &[u64]) -> Option<String> {
    let end = Instant::now() + Duration::from_secs(15);
    for _ in 0..tries_of(prop.id) {
        if let Err(e) = run_case(sub, &mut Gen::replay(tape.to_vec()), &mut Ctx::default()) { return Some(e) }
        if Instant::now() > end { break }
    }
    crate::mock::regain_patience();
    None
}

struct Known { open: Vec<(String, String)>, fixed: Vec<(String, String)> } // (probe id, text)
fn load_known(prop: &str) -> Known {
    // lines:  open: property=<id> probe=<probe> <what fails>   |   fixed: property=<id> <commit> probe=<probe> <what failed>
    let mut k = Known { open: vec![], fixed: vec![] };
    let text = std::fs::read_to_string(verif_root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for line in text.lines() {
        let line = line.trim();
        let (open, rest) = if let Some(r) = line.strip_prefix("open:") { (true, r) } else if let Some(r) = line.strip_prefix("fixed:") { (false, r) } else { continue };
        let mut pid = ""; let mut probe = ""; 
        for w in rest.split_whitespace() {
            if let Some(x) = w.strip_prefix("property=") { pid = x; }
            if let Some(x) = w.strip_prefix("probe=") { probe = x; }
        }
        if pid != prop { continue }
        let text = rest.split_whitespace().filter(|w| !w.starts_with("property=") && !w.starts_with("probe=")).collect::<Vec<_>>().join(" ");
        if open { k.open.push((probe.into(), text)) } else { k.fixed.push((probe.into(), text)) }
    }
    k
}

fn case_seed(base: u64, sub: &str, i: u64) -> u64 { Rng(base ^ hash_str(sub) ^ i.wrapping_mul(0x9E3779B97F4A7C15)).next() }
/// Runs one generated case (`sub#number`), as the check would.
pub fn case(props: &[Claim], id: &str, what: &str, seed: u64) -> i32 {
    let prop = props.iter().find(|p| p.id == id).unwrap();
    let (sub, i) = what.split_once('#').unwrap();
    let s = prop.subs.iter().find(|s| s.name == sub).unwrap();
    let cs = case_seed(Rng(seed ^ hash_str(prop.id)).next(), s.name, i.parse().unwrap());
    let t = Instant::now();
    let (r, cx) = with_big_stack(|| { let mut cx = Ctx { want_sample: true, ..Default::default() }; let mut g = Gen::random(cs); let r = run_case(s, &mut g, &mut cx); (r, cx.sample) });
    println!("{}\n{r:?} in {:?}", cx.unwrap_or_default(), t.elapsed());
    if r.is_err() { 1 } else { 0 }
}
const SLOT: usize = 96;
/// Runs the check in a child process. A case that kills it (native stack exhaustion, abort, memory) or never ends is found again and reported.
pub fn supervise(prop: &Claim, args: &[String], seed: u64) -> i32 {
    let t = Instant::now();
    match supervise_once(prop, args, seed) {
        // a case that took too long once, and not again: the machine was busy
        3 if t.elapsed() < Duration::from_secs(350) => { eprintln!("trying once more"); supervise_once(prop, args, seed) }
        x => x,
    }
}
fn supervise_once(prop: &Claim, args: &[String], seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let state = std::env::temp_dir().join(format!("nbv-{}.state", std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(args).env("NBV_CHILD", &state).spawn().unwrap();
    let (mut child, t) = (st, Instant::now());
    let st = loop {
        if let Some(x) = child.try_wait().unwrap() { break x }
        // only a quick run has to end within the time of a check
        if t.elapsed() > Duration::from_secs(700) && std::env::var("VERIF_TIER").unwrap_or_default() != "thorough" { child.kill().ok(); break child.wait().unwrap() }
        std::thread::sleep(Duration::from_millis(20));
    };
    let text = std::fs::read(&state).unwrap_or_default();
    std::fs::remove_file(&state).ok();
    let code = match st.code() { Some(c) if c != 3 => return c, c => c };
    eprintln!("the check ended with {}", match code { Some(c) => format!("code {c}"), None => format!("signal {:?}", st.signal()) });
    let base = Rng(seed ^ hash_str(prop.id)).next();
    for slot in text.chunks(SLOT) {
        let w = String::from_utf8_lossy(slot);
        let w = w.trim_matches(|c: char| c == '\0' || c == ' ');
        let Some((sub, i)) = w.split_once('#') else { continue };
        let Some(s) = prop.subs.iter().find(|s| s.name == sub) else { continue };
        let cs = case_seed(base, s.name, i.parse().unwrap());
        let dir = verif_root().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{}-{:08x}.json", prop.id, s.name, cs as u32));
        let j = serde_json::json!({ "property": prop.id, "sub": s.name, "tape": [], "seed": cs, "message": "the process dies, or the case does not end" });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        let mut c = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).spawn().unwrap();
        let t = Instant::now();
        let bad = loop {
            match c.try_wait().unwrap() {
                Some(x) => break if x.signal().is_some() { Some(format!("the process dies with signal {:?}", x.signal())) } else if x.code() == Some(1) { Some("the property fails".to_string()) } else { None },
                None if t.elapsed() > Duration::from_secs(60) => { c.kill().ok(); c.wait().ok(); break Some("the case does not end".into()) }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        match bad {
            Some(m) => {
                println!("property {} sub-check {}: on one generated case {m}", prop.id, s.name);
                let path = path.to_string_lossy();
                let ev = serde_json::json!({ "property": prop.id, "tier": "quick", "seed": seed, "level": "exploration", "coverage": { "evaluations": 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": [format!("{} case {i}: {m}", s.name)] }, "assumptions": prop.assumptions, "wall_s": 0.0, "violations": 1 });
                std::fs::create_dir_all(verif_root().join("evidence")).ok();
                std::fs::write(verif_root().join("evidence").join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").ok();
                println!("VIOLATION property={} replay={path}", prop.id);
                return 1
            }
            None => { std::fs::remove_file(&path).ok(); }
        }
    }
    code.unwrap_or(5)
}

fn write_replay(prop: &Claim, sub: &str, tape: &[u64], msg: &str, case: &str) -> String {
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let h = Rng(tape.iter().fold(hash_str(sub), |h, x| Rng(h ^ x).next())).next();
    let path = dir.join(format!("{}-{}-{:08x}.json", prop.id, sub.replace([':', '/'], "_"), h as u32));
    let j = serde_json::json!({ "property": prop.id, "sub": sub, "tape": tape, "message": msg, "case": case });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path.to_string_lossy().into_owned()
}

pub fn run(prop: &Claim, tier: &str, seed: u64, only_sub: Option<&str>, scale: f64) -> i32 {
    let start = Instant::now();
    let known = load_known(prop.id);
    let mut violations = 0usize;
    let mut out_lines: Vec<String> = vec![];
    let mut probe_report = vec![];
    let mut exit = 0;

    // probes (fixed regression inputs)
    if only_sub.is_none() {
        for probe in &prop.probes {
            let res = with_big_stack(|| guarded(probe.run));
            let open = known.open.iter().find(|k| k.0 == probe.id);
            match (&res, open) {
                (Ok(()), _) => probe_report.push(format!("{}: holds", probe.id)),
                (Err(e), Some(k)) => { println!("KNOWN-FINDING: property={} {} [probe {}: {}]", prop.id, k.1, probe.id, first_line(e)); probe_report.push(format!("{}: known finding", probe.id)); }
                (Err(e), None) => {
                    let path = write_replay(prop, &format!("probe:{}", probe.id), &[], e, probe.id);
                    println!("{e}");
                    out_lines.push(format!("VIOLATION property={} replay={}", prop.id, path));
                    violations += 1; exit = 1;
                }
            }
        }
    }

    // generated cases
    let counts: Vec<usize> = prop.subs.iter().map(|s| {
        if only_sub.is_some_and(|o| o != s.name) { return 0 }
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        ((n as f64 * scale).ceil() as usize).max(if n > 0 { 1 } else { 0 })
    }).collect();
    const CHUNK: usize = 16;
    // interleave chunks of the sub-checks so that a failure in any shows early
    let mut work: Vec<(usize, usize, usize)> = vec![];
    {
        let maxc = counts.iter().copied().max().unwrap_or(0);
        let rounds = maxc.div_ceil(CHUNK);
        for r in 0..rounds {
            for (i, c) in counts.iter().enumerate() {
                // proportional interleave
                let (a, b) = (c * r / rounds, c * (r + 1) / rounds);
                if b > a { work.push((i, a, b)); }
            }
        }
    }
    let order_base: Vec<usize> = { let mut acc = 0; work.iter().map(|w| { let o = acc; acc += w.2 - w.1; o }).collect() };
    let next = AtomicUsize::new(0);
    let fail_order = AtomicUsize::new(usize::MAX);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    struct Agg { evals: Vec<u64>, execs: Vec<u64>, labels: BTreeMap<String, u64>, nt: HashSet<u64>, samples: Vec<(usize, usize, String)>, cpu: Vec<f64> }
    let agg = Mutex::new(Agg { evals: vec![0; prop.subs.len()], execs: vec![0; prop.subs.len()], labels: BTreeMap::new(), nt: HashSet::new(), samples: vec![], cpu: vec![0.0; prop.subs.len()] });
    let threads: usize = std::env::var("NBV_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8));
    let base = Rng(seed ^ hash_str(prop.id)).next();
    // watchdog: a single case that makes no progress for minutes is an error of the check, not a verdict
    let beats: Vec<AtomicU64> = (0..threads + 1).map(|_| AtomicU64::new(0)).collect();
    let whats: Vec<Mutex<String>> = (0..threads + 1).map(|_| Mutex::new(String::new())).collect();
    let done = AtomicUsize::new(0);
    let t0 = Instant::now();
    let limit = Duration::from_secs(if tier == "thorough" { 300 } else { 60 });
    let state = std::env::var_os("NBV_CHILD").map(|p| std::fs::File::create(p).unwrap());

    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..threads {
            let (next, fail_order, failure, agg, work, order_base, beats, whats) = (&next, &fail_order, &failure, &agg, &work, &order_base, &beats, &whats);
            let state = &state;
            handles.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                let mut nt: HashSet<u64> = HashSet::new();
                let mut samples = vec![];
                let mut evals = vec![0u64; prop.subs.len()];
                let mut execs = vec![0u64; prop.subs.len()];
                let mut cpu = vec![0f64; prop.subs.len()];
                loop {
                    let w = next.fetch_add(1, Ordering::SeqCst);
                    if w >= work.len() { break }
                    if order_base[w] > fail_order.load(Ordering::SeqCst) { break }
                    let (si, a, b) = work[w];
                    let sub = &prop.subs[si];
                    let ts = Instant::now();
                    for i in a..b {
                        let order = order_base[w] + (i - a);
                        if order > fail_order.load(Ordering::SeqCst) { break }
                        beats[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let what = format!("{:<1$}", format!("{}#{i}", sub.name), SLOT);
                        if let Some(f) = state { use std::os::unix::fs::FileExt; f.write_at(what.as_bytes(), (t * SLOT) as u64).ok(); }
                        *whats[t].lock().unwrap() = what;
                        let cseed = case_seed(base, sub.name, i as u64);
                        let mut g = Gen::random(cseed);
                        let mut ctx = Ctx { want_sample: i < 3 || (i < 200 && i % 67 == 0), ..Default::default() };
                        let res = run_case(sub, &mut g, &mut ctx);
                        execs[si] += 1;
                        evals[si] += ctx.evals.max(1);
                        for (k, v) in &ctx.labels { *labels.entry(format!("{}/{}", sub.name, k)).or_insert(0) += v; }
                        if ctx.nontrivial { nt.insert(g.tape.iter().fold(hash_str(sub.name), |h, x| Rng(h ^ x).next())); *labels.entry(format!("{}/nontrivial", sub.name)).or_insert(0) += 1; }
                        if ctx.nontrivial && let Some(sm) = ctx.sample { samples.push((si, i, sm)); }
                        if let Err(msg) = res {
                            // where other threads and processes take part, once is not enough
                            beats[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            if tries_of(prop.id) > 1 && failing(prop, sub, &g.tape).is_none() {
                                eprintln!("case {i} of {} failed once and never again: {msg}", sub.name);
                                *labels.entry(format!("{}/failed once and never again", sub.name)).or_insert(0) += 1;
                                continue
                            }
                            fail_order.fetch_min(order, Ordering::SeqCst);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().is_none_or(|f| f.order > order) { *f = Some(Failure { order, sub: si, tape: g.tape.clone(), msg }); }
                            break;
                        }
                    }
                    cpu[si] += ts.elapsed().as_secs_f64();
                }
                beats[t].store(0, Ordering::Relaxed);
                let mut ag = agg.lock().unwrap();
                for (k, v) in labels { *ag.labels.entry(k).or_insert(0) += v; }
                ag.nt.extend(nt);
                ag.samples.extend(samples);
                for i in 0..evals.len() { ag.evals[i] += evals[i]; ag.execs[i] += execs[i]; ag.cpu[i] += cpu[i]; }
            }).unwrap());
        }
        let (beats, whats, done) = (&beats, &whats, &done);
        s.spawn(move || {
            // time during which this thread was not running either (the machine being suspended, say) does not count
            let (mut last, mut lost) = (0, 0);
            let mut since: Vec<(u64, u64)> = vec![(0, 0); beats.len()];
            while done.load(Ordering::SeqCst) == 0 {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                if now > last + 1000 { lost += now - last - 100; }
                last = now;
                for ((b, w), s) in beats.iter().zip(whats).zip(&mut since) {
                    let v = b.load(Ordering::Relaxed);
                    if s.0 != v { *s = (v, lost); }
                    let v = if v == 0 { 0 } else { v + (lost - s.1) };
                    if v != 0 && now > v && Duration::from_millis(now - v) > limit {
                        eprintln!("check error: no answer from case {} within {limit:?}", w.lock().unwrap());
                        std::process::exit(3);
                    }
                }
            }
        });
        for h in handles { if h.join().is_err() { eprintln!("check error: worker died"); std::process::exit(3) } }
        done.store(1, Ordering::SeqCst);
    });

    let failure = failure.into_inner().unwrap();
    if let Some(f) = failure {
        let sub = &prop.subs[f.sub];
        let deadline = Instant::now() + Duration::from_secs(20);
        // an unreproducible failure would be a defect of the harness: verify first
        let again = with_big_stack(|| failing(prop, sub, &f.tape));
        if again.is_none() && tries_of(prop.id) == 1 {
            eprintln!("check error: case of {} failed once but not on replay: {}", sub.name, f.msg);
            eprintln!("tape: {:?}", f.tape);
            std::process::exit(4);
        }
        let (tape, tries) = with_big_stack(|| shrink(f.tape.clone(), |t| run_case(sub, &mut Gen::replay(t.to_vec()), &mut Ctx::default()).is_err(), 4000, deadline));
        let (msg, case) = with_big_stack(|| {
            let mut ctx = Ctx { want_sample: true, ..Default::default() };
            let mut r = run_case(sub, &mut Gen::replay(tape.clone()), &mut ctx);
            if r.is_ok() && let Some(e) = failing(prop, sub, &tape) { r = Err(e); }
            (r.err().unwrap_or(f.msg.clone()), ctx.sample.unwrap_or_default())
        });
        println!("property {} sub-check {} failed (shrunk from {} to {} choices in {} tries)", prop.id, sub.name, f.tape.len(), tape.len(), tries);
        println!("case: {case}");
        println!("{msg}");
        let path = write_replay(prop, sub.name, &tape, &msg, &case);
        out_lines.push(format!("VIOLATION property={} replay={}", prop.id, path));
        violations += 1; exit = 1;
    }
    for l in &out_lines { println!("{l}"); }

    let mut ag = agg.into_inner().unwrap();
    ag.samples.sort();
    let mut samples: Vec<serde_json::Value> = vec![];
    for si in 0..prop.subs.len() {
        for s in ag.samples.iter().filter(|s| s.0 == si).take(2) {
            let mut text = s.2.clone();
            if text.len() > 1500 { let mut k = 1500; while !text.is_char_boundary(k) { k -= 1 } text.truncate(k); text.push('…'); }
            samples.push(serde_json::json!({ "sub": prop.subs[si].name, "case": s.1, "input": text }));
        }
    }
    let evaluations: u64 = ag.evals.iter().sum();
    let subs: BTreeMap<_, _> = prop.subs.iter().enumerate().map(|(i, s)| (s.name, serde_json::json!({ "cases": ag.execs[i], "evaluations": ag.evals[i], "cpu_s": (ag.cpu[i] * 10.0).round() / 10.0 }))).collect();
    let ev = serde_json::json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": ag.nt.len(),
            "rule": prop.rule,
            "samples": samples,
            "classes": ag.labels,
            "sub_checks": subs,
            "probes": probe_report,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    if only_sub.is_none() { std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap(); }
    println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s", prop.id, evaluations, ag.nt.len(), violations, start.elapsed().as_secs_f64());
    if only_sub.is_some() { println!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap()); for s in &samples { println!("{}", s["input"].as_str().unwrap()); } }
    exit
}
fn first_line(s: &str) -> &str { s.lines().next().unwrap_or("") }
