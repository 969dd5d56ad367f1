#![allow(dead_code, unused_imports, unused_macros)]
mod tape;
mod runner;
mod vm;
mod gens;
mod mval;
mod model;
mod drive;
mod gprog;
mod p_prog;
mod p_ops;
mod p_api;
mod p_misc;
mod p_rel;
mod p_more;
mod p_xml;
mod p_probes;
mod mock;
mod p_std;
mod p_server;
mod p_ext;
mod p_cli;

use runner::*;

fn all() -> Vec<Claim> {
    let mut v = vec![];
    v.extend(p_api::properties());
    v.extend(p_ops::properties());
    v.extend(p_prog::properties());
    v.extend(p_misc::properties());
    v.extend(p_rel::properties());
    v.push(Claim { id: "C34", rule: "random note-like texts against an independent parser; every MIDI number; non-trivial = valid note", assumptions: &[], subs: p_api::note_subs(), probes: vec![] });
    v.extend(p_more::properties());
    v.extend(p_xml::properties());
    v.extend(p_std::properties());
    v.extend(p_server::properties());
    v.extend(p_ext::properties());
    v.extend(p_cli::properties());
    v.extend(p_probes::properties());
    // several files contribute to some properties
    let mut out: Vec<Claim> = vec![];
    for c in v {
        match out.iter_mut().find(|x| x.id == c.id) { Some(x) => { x.subs.extend(c.subs); x.probes.extend(c.probes); if !c.rule.is_empty() { x.rule = Box::leak(format!("{}; {}", x.rule, c.rule).into_boxed_str()); } } None => out.push(c) }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    // the servers of the checks are on this machine: no proxy
    for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] { unsafe { std::env::remove_var(v) } }
    let props = all();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("NBV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let code = match args.first().map(|x| x.as_str()) {
        Some("list") => { for p in &props { println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")); } 0 }
        Some("case") => case(&props, &args[1], &args[2], seed),
        Some("replay") => replay(&props, &args[1], args.get(2).is_some()),
        Some(id) => match props.iter().find(|p| p.id == id) {
            Some(p) if std::env::var_os("NBV_CHILD").is_none() && std::env::var_os("NBV_DIRECT").is_none() => supervise(p, &args, seed),
            Some(p) => run(p, &tier, seed, args.get(1).map(|x| x.as_str()), scale),
            None => { eprintln!("unknown property {id}"); 2 }
        },
        None => { eprintln!("usage: nbv <ID> [sub] | list | replay <file>"); 2 }
    };
    std::process::exit(code);
}
