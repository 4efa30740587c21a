//! mpmon: runtime monitors for the marketplace contracts.
//!   mpmon check <PROP> [--tier quick|thorough] [--seed N]   decide one property
//!   mpmon replay <FILE>                                     replay a recorded violation
//!   mpmon survey <ENGINE> <N>                               all monitors of one engine, N histories
mod chain;
mod common;
#[cfg(feature = "shared")]
mod common_chk;
mod flood;
mod hostile;
mod ra;
mod schema;
mod ts;
mod v1;
mod v2;
use common::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn engines(prop: &str) -> Vec<&'static str> {
    ["v2", "v1", "ra", "common", "hostile", "flood", "ts", "tstypes", "cli"].into_iter().filter(|e| props(e).contains(&prop)).collect()
}
fn props(e: &str) -> &'static [Tag] {
    match e {
        "v2" => &v2::PROPS,
        "v1" => &v1::PROPS,
        "ra" => &ra::PROPS,
        "hostile" => &hostile::PROPS,
        "flood" => &flood::PROPS,
        "ts" => &ts::PROPS,
        "tstypes" => &ts::TYPE_PROPS,
        "cli" => &ts::CLI_PROPS,
        #[cfg(feature = "shared")]
        "common" => &common_chk::PROPS,
        _ => &[],
    }
}
fn make(e: &str, seed: u64, idx: u64, ctx: &mut Ctx) -> Box<dyn Engine> {
    match e {
        "v2" => Box::new(v2::V2::new(seed, idx, ctx)),
        "v1" => Box::new(v1::V1::new(seed, idx, ctx)),
        "ra" => Box::new(ra::Ra::new(seed, idx, ctx)),
        "hostile" => Box::new(hostile::Hostile::new(seed, idx, ctx)),
        "ts" => Box::new(ts::Clients::new(seed, idx, ctx)),
        "tstypes" => Box::new(ts::Types::new(seed, idx, ctx)),
        "cli" => Box::new(ts::Cli::new(seed, idx, ctx)),
        "flood" => Box::new(flood::Flood::new(seed, idx, ctx)),
        #[cfg(feature = "shared")]
        "common" => Box::new(common_chk::Common::new(seed, idx, ctx)),
        _ => panic!("no engine {e}"),
    }
}
/// steps of history `idx`: mostly medium, some short, some long
fn steps(idx: u64) -> usize {
    if bulk(idx).is_some() {
        return 40;
    }
    match idx % 8 {
        7 if idx % 128 == 15 => 900,
        7 => 260,
        3 => 50,
        _ => 110,
    }
}
/// runs one history; Err: the harness itself failed
/// X06: what was done twice came out the same
fn twice(ctx: &mut common::Ctx) {
    for (what, f, diff) in chain::Twice::notes() {
        ctx.eval("X06", &what, Some(f));
        if let Some(d) = diff {
            ctx.div(&["X06"], &format!("not-deterministic:{what}"), format!("{what} done twice on the same state came out differently: {d}"));
        }
    }
}
fn history(e: &str, seed: u64, idx: u64, ctx: &mut Ctx, until: Option<usize>) -> Result<(), String> {
    chain::Twice::every(match ctx.prop.as_deref() {
        Some("X06") => 1,
        None => 10,
        _ => 0,
    });
    catch_unwind(AssertUnwindSafe(|| {
        let mut g = make(e, seed, idx, ctx);
        let n = steps(idx);
        for i in 0..n {
            ctx.step = i;
            g.step(ctx);
            twice(ctx);
            if until.map_or(false, |u| i >= u) {
                return;
            }
        }
        ctx.step = n;
        if bulk(idx).is_none() {
            g.finish(ctx);
            twice(ctx);
        }
    }))
    .map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("{e} history {idx} step {}: harness panic: {m}", ctx.step)
    })
}

struct Finding {
    property: String,
    sig: String,
    what: String,
}
fn known(root: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(format!("{root}/known_findings.json")).unwrap_or_else(|_| "{}".into());
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|f| Finding { property: f["property"].as_str().unwrap().into(), sig: f["sig"].as_str().unwrap().into(), what: f["what"].as_str().unwrap().into() })
        .collect()
}

fn check(root: &str, prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let engs = engines(prop);
    if engs.is_empty() {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let known: Vec<Finding> = known(root).into_iter().filter(|f| f.property == prop).collect();
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let (n, cap) = if tier == "thorough" { (env("MPMON_HISTORIES").unwrap_or(40_000), 600) } else { (env("MPMON_HISTORIES").unwrap_or(2_400), 240) };
    // the shared-package monitor is much cheaper per history, the flooded twins are dearer
    let per: Vec<(&str, u64)> = engs.iter().map(|e| (*e, match *e { "common" => n * 2, "flood" => n / 2, "ts" | "cli" => n / 4, "tstypes" => n / 80, _ => n / engs.len() as u64 })).collect();
    let total: u64 = per.iter().map(|p| p.1).sum();
    let job = |i: u64| -> (&str, u64) {
        // interleave the engines
        let k = per.len() as u64;
        if total == per[0].1 * k {
            (per[(i % k) as usize].0, i / k)
        } else {
            let mut i = i;
            for (e, c) in &per {
                if i < *c {
                    return (*e, i);
                }
                i -= c;
            }
            unreachable!()
        }
    };
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let out_of_time = AtomicBool::new(false);
    let ran = AtomicU64::new(0);
    let nsteps = AtomicU64::new(0);
    struct Acc {
        stat: PropStat,
        counters: BTreeMap<String, u64>,
        bad: Vec<(u64, Div, Vec<String>)>,
        hits: BTreeMap<String, (u64, String)>,
        errs: Vec<String>,
        profiles: BTreeMap<String, u64>,
    }
    let acc = Mutex::new(Acc { stat: PropStat::default(), counters: BTreeMap::new(), bad: vec![], hits: BTreeMap::new(), errs: vec![], profiles: BTreeMap::new() });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let beat: Vec<Mutex<(Instant, String)>> = (0..threads).map(|_| Mutex::new((Instant::now(), String::new()))).collect();
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop_at, out, ran, nsteps, acc, known, beat, live, job) = (&next, &stop_at, &out_of_time, &ran, &nsteps, &acc, &known, &beat, &live, &job);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || i > stop_at.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed() > Duration::from_secs(cap) {
                        out.store(true, Ordering::SeqCst);
                        break;
                    }
                    let (e, idx) = job(i);
                    *beat[w].lock().unwrap() = (Instant::now(), format!("{e} {idx}"));
                    let mut ctx = Ctx::new(Some(prop.to_string()));
                    let r = history(e, seed, idx, &mut ctx, None);
                    ran.fetch_add(1, Ordering::SeqCst);
                    nsteps.fetch_add(if e == "tstypes" { 1 } else { steps(idx) as u64 }, Ordering::SeqCst);
                    let mut a = acc.lock().unwrap();
                    if let Some(st) = ctx.stats.remove(prop) {
                        a.stat.evals += st.evals;
                        a.stat.fps.extend(st.fps);
                        for (k, v) in st.kinds {
                            *a.stat.kinds.entry(k).or_default() += v;
                        }
                        for s in st.samples {
                            if a.stat.samples.len() < 12 {
                                a.stat.samples.push(format!("[{e} history {idx}] {s}"));
                            }
                        }
                    }
                    for (k, v) in ctx.counters {
                        *a.counters.entry(k).or_default() += v;
                    }
                    *a.profiles.entry(format!("{e} profile {}", idx % 5)).or_default() += 1;
                    for d in ctx.divs.drain(..) {
                        if known.iter().any(|f| f.sig == d.sig) {
                            a.hits.entry(d.sig.clone()).or_insert((0, format!("[{e} history {idx} step {}] {}", d.step, d.detail))).0 += 1;
                        } else {
                            stop_at.fetch_min(i, Ordering::SeqCst);
                            if !a.bad.iter().any(|b| b.0 == i) {
                                let log = ctx.log.clone();
                                a.bad.push((i, d, log));
                            }
                        }
                    }
                    if let Err(x) = r {
                        a.errs.push(x);
                    }
                }
                *beat[w].lock().unwrap() = (Instant::now(), String::new());
                live.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // watchdog: a history that does not come back is inconclusive, not a verdict, unless
        // another history already showed a violation
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(10));
            if beat.iter().any(|b| {
                let b = b.lock().unwrap();
                !b.1.is_empty() && b.0.elapsed() > Duration::from_secs(300)
            }) {
                let a = acc.lock().unwrap();
                if a.bad.is_empty() {
                    eprintln!("inconclusive: a history did not finish within 300 s: {:?}", beat.iter().map(|b| b.lock().unwrap().1.clone()).collect::<Vec<_>>());
                    ts::cleanup();
                    std::process::exit(3);
                }
                break;
            }
        }
        if live.load(Ordering::SeqCst) > 0 {
            let a = acc.lock().unwrap();
            finish(root, prop, tier, seed, t0, &a.stat, &a.counters, &a.bad, &a.hits, &a.errs, &a.profiles, ran.load(Ordering::SeqCst), nsteps.load(Ordering::SeqCst), true, &known, &|i| job(i));
            ts::cleanup();
            std::process::exit(1);
        }
    });
    let a = acc.into_inner().unwrap();
    finish(root, prop, tier, seed, t0, &a.stat, &a.counters, &a.bad, &a.hits, &a.errs, &a.profiles, ran.into_inner(), nsteps.into_inner(), out_of_time.into_inner(), &known, &|i| job(i))
}

#[allow(clippy::too_many_arguments)]
fn finish<'a>(
    root: &str,
    prop: &str,
    tier: &str,
    seed: u64,
    t0: Instant,
    st: &PropStat,
    counters: &BTreeMap<String, u64>,
    bad: &[(u64, Div, Vec<String>)],
    hits: &BTreeMap<String, (u64, String)>,
    errs: &[String],
    profiles: &BTreeMap<String, u64>,
    ran: u64,
    nsteps: u64,
    truncated: bool,
    known: &[Finding],
    job: &dyn Fn(u64) -> (&'a str, u64),
) -> i32 {
    for f in known {
        println!("KNOWN-FINDING: property={prop} {}: {}", f.sig, f.what);
    }
    let rule = "One evaluation is one judgement of this property by its monitor on the real contract code: the step checker compares the \
observed post-state (all queries, balances, token owners, hook calls) of one action, block event or query with what the reference model of \
the property derives from the observed pre-state. Histories are generated (seeded) by five workload profiles (balanced, deep book, \
admin-heavy, extreme amounts, hostile environment). A judgement is non-trivial when the action or event really bears on the property \
(monitor-specific: e.g. funds were in escrow, a sale happened, a guard decided), and distinct by a fingerprint of the judged situation.";
    let ts = prop.starts_with('T');
    let rule = match prop {
        "T01" => "One evaluation is one call of a real TypeScript client (bundled, run in node against a recording stand-in of the chain client) judged by decoding the recorded message with the contract's own Rust type and comparing message, sender, contract, funds, fee, memo, answer and cache key with what was asked. Requests are generated from the contract's schema. Distinct by kind of call, operation and arguments.",
        "T02" => "One evaluation is one message, argument object or answer, generated or recorded from real contract histories, judged by the TypeScript type checker against the declared type (or one damaged value that must be refused). Distinct by type and form of the value.",
        "T03" => "One evaluation is one command of the real command line (bundled, run in node against stand-ins of settings store, wallets and chain) whose settings, output and transactions are compared with a reference model, or one conversion. Distinct by command and judged situation.",
        _ => rule,
    };
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.fps.len(),
            "rule": rule,
            "samples": st.samples,
            "judgements_by_kind": st.kinds,
            "events_by_action_and_outcome": counters,
            "histories": ran, "steps": nsteps, "histories_by_workload": profiles,
            "stopped_by_time_cap": truncated,
            "known_findings_seen": hits.iter().map(|(k, v)| (k.clone(), json!({"times": v.0, "first": v.1}))).collect::<serde_json::Map<_, _>>(),
            "harness_errors": errs,
        },
        "assumptions": if ts { json!([
            "The stand-ins for the external packages (chain client, wallet, settings store, argument parser, react-query, lodash) record and answer like the real ones.",
            "Numbers stay below 2^53, the largest a JavaScript caller can pass exactly.",
            "Held on the executions counted here; nothing is claimed about situations the workload did not reach."
        ]) } else { json!([
            "The chain host of the harness reproduces the wasm module's semantics: atomic messages, depth-first submessages, reply_on_error isolation, bank sends rejecting zero or missing coins, a panic aborting the transaction.",
            "NFT collections answer like cw721/sg721 unless the workload makes them misbehave; the royalty registry and the fair-burn contract are modelled (fair-burn accepts any non-empty fee and keeps it).",
            "Held on the executions counted here; nothing is claimed about situations the workload did not reach."
        ]) },
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": bad.len(),
    });
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!("{prop}: {ran} histories, {nsteps} steps, {} judgements, {} distinct non-trivial, {:.1}s", st.evals, st.fps.len(), t0.elapsed().as_secs_f64());
    if let Some((i, d, log)) = bad.iter().min_by_key(|b| b.0) {
        let (e, idx) = job(*i);
        std::fs::create_dir_all(format!("{root}/replays")).unwrap();
        let path = format!("{root}/replays/{prop}-{seed}-{e}-{idx}.json");
        let r = json!({"property": prop, "engine": e, "seed": seed, "history": idx, "step": d.step, "signature": d.sig, "properties_concerned": d.tags, "detail": d.detail,
            "replay": format!("/verif/run_check replay {path}"), "log": log});
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").unwrap();
        println!("{} at {e} history {idx} step {}: {}", d.sig, d.step, d.detail);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(e) = errs.first() {
        // a history the harness itself could not follow is not judged; a few of them do not spoil the rest
        eprintln!("{} histories given up, harness error: {e}", errs.len());
        if errs.len() as u64 * 200 > ran {
            eprintln!("inconclusive");
            return 3;
        }
    }
    if st.evals == 0 || st.fps.len() < 10 {
        eprintln!("inconclusive: the monitor of {prop} judged only {} situations", st.fps.len());
        return 3;
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let (e, seed, idx, step) = (v["engine"].as_str().unwrap(), v["seed"].as_u64().unwrap(), v["history"].as_u64().unwrap(), v["step"].as_u64().unwrap() as usize);
    let mut ctx = Ctx::new(Some(v["property"].as_str().unwrap().into()));
    let r = history(e, seed, idx, &mut ctx, Some(step));
    for l in &ctx.log {
        println!("{l}");
    }
    if let Err(x) = r {
        println!("{x}");
    }
    let mut hit = false;
    for d in &ctx.divs {
        println!(">>> step {} {:?} {}: {}", d.step, d.tags, d.sig, d.detail);
        hit |= d.sig == v["signature"].as_str().unwrap();
    }
    println!("{}", if hit { "violation reproduced" } else { "violation not reproduced" });
    if hit {
        1
    } else {
        0
    }
}

fn survey(e: &str, n: u64, seed: u64) {
    let t = Instant::now();
    let next = AtomicU64::new(0);
    let tot: Mutex<(BTreeMap<String, (u64, u64, String)>, BTreeMap<String, u64>, BTreeMap<String, u64>, u64)> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let idx = next.fetch_add(1, Ordering::SeqCst);
                if idx >= n {
                    break;
                }
                let mut ctx = Ctx::new(None);
                let r = history(e, seed, idx, &mut ctx, None);
                let mut a = tot.lock().unwrap();
                a.3 += steps(idx) as u64;
                if let Err(x) = r {
                    println!("{x}");
                }
                for d in &ctx.divs {
                    let k = format!("{:?} {}", d.tags, d.sig);
                    let en = a.0.entry(k).or_insert((0, u64::MAX, String::new()));
                    en.0 += 1;
                    if idx < en.1 {
                        en.1 = idx;
                        en.2 = format!("h{idx} s{} {}", d.step, d.detail);
                    }
                }
                for (k, v) in ctx.counters {
                    *a.1.entry(k).or_default() += v;
                }
                for (k, v) in ctx.stats {
                    for (kk, c) in v.kinds {
                        *a.2.entry(format!("{k} {kk}")).or_default() += c;
                    }
                }
            });
        }
    });
    let a = tot.into_inner().unwrap();
    println!("{:#?}\n{:#?}", a.1, a.2);
    for (k, (c, _, d)) in &a.0 {
        println!("{c} {k}\n    {d}");
    }
    println!("{} steps {:?}", a.3, t.elapsed());
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("MPMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            check(&root, &a[2], &tier, seed)
        }
        Some("replay") => replay(&a[2]),
        Some("survey") => {
            survey(&a[2], a[3].parse().unwrap(), seed);
            0
        }
        Some("list") => {
            for e in ["v2", "v1", "ra", "common", "hostile", "flood", "ts", "tstypes", "cli"] {
                println!("{e} {:?}", props(e));
            }
            0
        }
        _ => {
            eprintln!("usage: mpmon check PROP | replay FILE | survey ENGINE N | list");
            2
        }
    };
    ts::cleanup();
    std::process::exit(code);
}
