//! Seeded search, minimisation, replay and evidence.

use crate::oracle::Viol;
use crate::rt;
use crate::run::*;
use crate::sim::*;
use crate::world;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Out = std::fs::File;
macro_rules! say { ($o:expr, $($t:tt)*) => { let _ = writeln!($o, $($t)*); } }

pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub threads: u64,
    pub dir: String,
}

pub const PROPS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
];
const QUICK_RUNS: u64 = 2400;
const THOROUGH_RUNS: u64 = 60_000;
/// Safety net only: a search this long is reported as incomplete in the evidence.
const CAP_QUICK_S: u64 = 400;
const CAP_THOROUGH_S: u64 = 3000;

/// Instructions whose executions count as evaluations of a property; empty = all.
fn kinds_of(p: &str) -> &'static [&'static str] {
    match p {
        "C03" | "C04" | "C05" | "C06" | "C15" | "C18" => &["swap", "swap2"],
        "C07" => &["swap", "swap2", "claim_trading_fee", "claim_creator_trading_fee", "claim_protocol_fee", "zap_protocol_fee"],
        "C09" => &[
            "swap",
            "swap2",
            "create_locker",
            "migrate_meteora_damm",
            "migration_damm_v2",
            "migration_meteora_damm_create_metadata",
            "transfer_pool_creator",
            "withdraw_leftover",
            "partner_withdraw_surplus",
            "creator_withdraw_surplus",
            "withdraw_migration_fee",
        ],
        "C10" => &["partner_withdraw_surplus", "creator_withdraw_surplus", "withdraw_migration_fee", "withdraw_leftover", "zap_protocol_fee"],
        "C11" => &["migrate_meteora_damm", "migration_damm_v2"],
        "C12" => &[
            "migrate_meteora_damm",
            "migration_damm_v2",
            "migrate_meteora_damm_lock_lp_token",
            "migrate_meteora_damm_claim_lp_token",
        ],
        "C13" => &["create_locker"],
        "C14" => &[
            "initialize_virtual_pool_with_spl_token",
            "initialize_virtual_pool_with_token2022",
            "create_virtual_pool_metadata",
            "create_partner_metadata",
        ],
        "C16" => &[
            "initialize_virtual_pool_with_spl_token",
            "initialize_virtual_pool_with_token2022",
            "claim_partner_pool_creation_fee",
            "claim_protocol_pool_creation_fee",
        ],
        "C17" => &["create_config", "initialize_virtual_pool_with_spl_token", "initialize_virtual_pool_with_token2022"],
        "C21" => &[
            "create_operator_account",
            "close_operator_account",
            "close_claim_protocol_fee_operator",
            "claim_protocol_fee",
            "claim_protocol_pool_creation_fee",
            "zap_protocol_fee",
        ],
        "C22" => &["transfer_pool_creator"],
        "C23" => &[
            "initialize_virtual_pool_with_spl_token",
            "initialize_virtual_pool_with_token2022",
            "create_locker",
            "migrate_meteora_damm",
            "migration_damm_v2",
            "migrate_meteora_damm_lock_lp_token",
        ],
        _ => &[],
    }
}

fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = Sha256::new();
    h.update(base.to_le_bytes());
    h.update(prop.as_bytes());
    h.update(i.to_le_bytes());
    u64::from_le_bytes(h.finalize()[..8].try_into().unwrap())
}

struct Known {
    property: String,
    sig: String,
    contains: String,
    what: String,
}
/// Committed list of recorded findings; never written here.
fn known(dir: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.json", dir)) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return vec![] };
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|k| Known {
                    property: k["property"].as_str().unwrap_or("").into(),
                    sig: k["sig"].as_str().unwrap_or("").into(),
                    contains: k["contains"].as_str().unwrap_or("").into(),
                    what: k["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

struct Found {
    index: u64,
    seed: u64,
    step: usize,
    viol: Viol,
}
struct Search {
    cov: Cov,
    found: Vec<Found>,
    known: BTreeMap<usize, u64>,
    digest: u64,
    done: u64,
    capped: bool,
    panics: Vec<(u64, String)>,
}

/// The weights of one run: mostly the property's own profile, sometimes that of another property,
/// so that no check is blind to situations its own profile makes rare.
fn weights(prop: &str, seed: u64) -> world::Prof {
    if (seed >> 9) % 4 == 0 {
        world::profile(PROPS[((seed >> 23) % PROPS.len() as u64) as usize])
    } else {
        world::profile(prop)
    }
}
fn one(seed: u64, prop: &str, keep: bool) -> Run {
    let mut r = Run::new();
    r.keep_steps = keep;
    world::simulate(&mut r, seed, &weights(prop, seed));
    r
}

/// Executes run indices 0..n on worker threads. What is reported depends only on (prop, base, n):
/// every index below the first failing one is always executed, and merged in index order.
fn search(prop: &str, base: u64, n: u64, threads: u64, cap: Duration, kn: &[Known]) -> Search {
    let next = AtomicU64::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let capped = AtomicU64::new(0);
    let t0 = Instant::now();
    let res: Mutex<Vec<(u64, u64, Vec<(usize, Viol)>, Cov)>> = Mutex::new(vec![]);
    let panics: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let workers = if threads > 0 {
        threads
    } else {
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 16)
    };
    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || i > first_bad.load(SeqCst) {
                        break;
                    }
                    if t0.elapsed() > cap {
                        capped.store(1, SeqCst);
                        break;
                    }
                    let seed = run_seed(base, prop, i);
                    let r = std::panic::catch_unwind(|| {
                        let r = one(seed, prop, false);
                        (r.digest, r.viols, r.cov)
                    });
                    match r {
                        Ok((d, v, c)) => {
                            let bad = v.iter().any(|(_, v)| v.props.contains(&prop) && !kn.iter().any(|k| hits(k, prop, v)));
                            if bad {
                                first_bad.fetch_min(i, SeqCst);
                            }
                            res.lock().unwrap().push((i, d, v, c));
                        }
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or("?".into());
                            panics.lock().unwrap().push((seed, m));
                        }
                    }
                })
                .expect("thread");
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let stop = first_bad.load(SeqCst);
    let mut out = Search {
        cov: Cov::default(),
        found: vec![],
        known: BTreeMap::new(),
        digest: 0,
        done: 0,
        capped: capped.load(SeqCst) == 1,
        panics: panics.into_inner().unwrap(),
    };
    for (i, d, viols, cov) in v {
        if i > stop {
            continue;
        }
        out.done += 1;
        out.digest = hash_bytes(out.digest, &d.to_le_bytes());
        out.cov.add(&cov);
        out.cov.runs += 1;
        for (step, viol) in viols {
            if !viol.props.contains(&prop) {
                continue;
            }
            match kn.iter().position(|k| hits(k, prop, &viol)) {
                Some(k) => *out.known.entry(k).or_default() += 1,
                None => out.found.push(Found { index: i, seed: run_seed(base, prop, i), step, viol }),
            }
        }
    }
    out
}
fn hits(k: &Known, prop: &str, v: &Viol) -> bool {
    k.property == prop && k.sig == v.sig() && v.what.contains(&k.contains)
}

// ------------------------------------------------------------------ minimisation
fn play(steps: &[Step]) -> Run {
    let mut r = Run::new();
    for s in steps {
        r.step(s.clone());
    }
    r.finish();
    r
}
/// First violation of the property with this signature.
fn fails(steps: &[Step], prop: &str, sig: &str) -> Option<(usize, Viol)> {
    play(steps).viols.into_iter().find(|(_, v)| v.sig() == sig && v.props.contains(&prop))
}
fn minimise(mut steps: Vec<Step>, prop: &str, sig: &str) -> (Vec<Step>, u64) {
    let mut tries = 0u64;
    let max = 600u64;
    let Some((at, _)) = fails(&steps, prop, sig) else { return (steps, 0) };
    let mut cut = steps.clone();
    cut.truncate(at + 1);
    if fails(&cut, prop, sig).is_some() {
        steps = cut;
    }
    let mut n = 2usize;
    while steps.len() > 1 && tries < max {
        let chunk = steps.len().div_ceil(n);
        let mut hit = false;
        let mut i = 0;
        while i * chunk < steps.len() && tries < max {
            let (a, b) = (i * chunk, ((i + 1) * chunk).min(steps.len()));
            let mut c = steps.clone();
            c.drain(a..b);
            tries += 1;
            if !c.is_empty() && fails(&c, prop, sig).is_some() {
                steps = c;
                hit = true;
            } else {
                i += 1;
            }
        }
        if chunk == 1 && !hit {
            break;
        }
        if !hit || chunk > 1 {
            n = (n * 2).min(steps.len().max(1));
        }
    }
    // simplify what is left
    for i in 0..steps.len() {
        let variants: Vec<Step> = match &steps[i] {
            Step::Tx(t) => {
                let mut v = vec![];
                for f in 0..5 {
                    let mut x = t.clone();
                    match f {
                        0 => x.abort_at = None,
                        1 => x.fail_nth = 0,
                        2 => x.misbehave = 0,
                        3 => x.take_less = 0,
                        _ => x.zap = 0,
                    }
                    v.push(Step::Tx(x));
                }
                v
            }
            _ => vec![],
        };
        for x in variants {
            if x.json() == steps[i].json() || tries >= max {
                continue;
            }
            // keep the other simplifications already made
            let mut c = steps.clone();
            if let (Step::Tx(a), Step::Tx(b)) = (&mut c[i], &x) {
                if b.abort_at.is_none() {
                    a.abort_at = None;
                }
                if b.fail_nth == 0 {
                    a.fail_nth = 0;
                }
                if b.misbehave == 0 {
                    a.misbehave = 0;
                }
                if b.take_less == 0 {
                    a.take_less = 0;
                }
                if b.zap == 0 {
                    a.zap = 0;
                }
            }
            tries += 1;
            if fails(&c, prop, sig).is_some() {
                steps = c;
            }
        }
        loop {
            let Step::Tx(t) = &steps[i] else { break };
            let mut better = None;
            for j in 0..t.ixs.len() {
                if t.ixs.len() < 2 || tries >= max {
                    break;
                }
                let mut c = steps.clone();
                if let Step::Tx(x) = &mut c[i] {
                    x.ixs.remove(j);
                }
                tries += 1;
                if fails(&c, prop, sig).is_some() {
                    better = Some(c);
                    break;
                }
            }
            match better {
                Some(c) => steps = c,
                None => break,
            }
        }
    }
    (steps, tries)
}
fn describe(s: &Step) -> String {
    match s {
        Step::Tx(t) => format!(
            "slot +{} time {} {}: {}{}",
            t.slot - S0,
            t.ts,
            t.tag,
            t.ixs.iter().map(what).collect::<Vec<_>>().join(" "),
            if t.injected() || t.take_less > 0 || t.zap > 0 {
                format!(" [fault: abort_at {:?} cpi_fail {} misbehave {} take_less {} zap {}]", t.abort_at, t.fail_nth, t.misbehave, t.take_less, t.zap)
            } else {
                String::new()
            }
        ),
        Step::Drive { pool, ts, .. } => format!("time {} liveness drive of {}", ts, pool),
        Step::Probe { kind, pool, ts, .. } => format!("time {} probe {} of {}", ts, kind, pool),
    }
}

// ------------------------------------------------------------------ commands
pub fn check(so: &mut Out, o: &Opts) -> i32 {
    let Some(prop) = PROPS.iter().find(|p| **p == o.property) else {
        say!(so, "unknown property {}", o.property);
        return 2;
    };
    let thorough = o.tier == "thorough";
    let n = o.runs.unwrap_or(if thorough { THOROUGH_RUNS } else { QUICK_RUNS });
    let cap = Duration::from_secs(if thorough { CAP_THOROUGH_S } else { CAP_QUICK_S });
    let kn = known(&o.dir);
    let t0 = Instant::now();
    let s = search(prop, o.seed, n, o.threads, cap, &kn);
    let search_s = t0.elapsed().as_secs_f64();
    for (k, c) in &s.known {
        say!(so, "KNOWN-FINDING: property={} {} ({} times)", prop, kn[*k].what, c);
    }
    let mut code = 0;
    if let Some((seed, m)) = s.panics.first() {
        // a run the generator itself could not finish tells nothing; many of them mean the check is broken
        say!(so, "note: {} of {} runs dropped by a harness error, the first (seed {}): {}", s.panics.len(), n, seed, m);
        if s.found.is_empty() && s.panics.len() as u64 * 200 > n {
            code = 2;
        }
    }
    // determinism witness: the first runs again, in this process, on one thread
    let again = n.min(3);
    let mut det = true;
    for i in 0..again {
        let a = one(run_seed(o.seed, prop, i), prop, false).digest;
        let b = one(run_seed(o.seed, prop, i), prop, false).digest;
        det &= a == b;
    }
    if !det {
        say!(so, "harness error in {}: a seed did not repeat exactly", prop);
        code = 2;
    }
    let mut replays = vec![];
    let mut done: BTreeSet<String> = BTreeSet::new();
    for f in &s.found {
        let sig = f.viol.sig();
        if done.len() >= 3 || !done.insert(sig.clone()) {
            continue;
        }
        let full = one(f.seed, prop, true);
        let (steps, tries) = minimise(full.steps.clone(), prop, &sig);
        let r = play(&steps);
        let Some((at, v)) = r.viols.iter().find(|(_, v)| v.sig() == sig && v.props.contains(prop)).cloned() else {
            say!(so, "harness error in {}: recorded schedule of seed {} does not reproduce {}", prop, f.seed, sig);
            code = 2;
            continue;
        };
        let dir = format!("{}/replays", o.dir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{:016x}.json", dir, prop, sig.replace('/', "_"), f.seed);
        let file = json!({
            "property": prop, "sig": sig, "what": v.what, "at_step": at,
            "seed": f.seed, "base_seed": o.seed, "run_index": f.index,
            "original_steps": full.steps.len(), "minimiser_executions": tries,
            "digest": format!("{:016x}", r.digest),
            "trace": steps.iter().map(describe).collect::<Vec<_>>(),
            "steps": steps.iter().map(|s| s.json()).collect::<Vec<_>>(),
        });
        if std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).is_err() {
            say!(so, "harness error in {}: cannot write {}", prop, path);
            code = 2;
            continue;
        }
        // a fresh process must see exactly the same thing
        let me = std::env::current_exe().unwrap_or_default();
        let same = std::process::Command::new(me).arg("replay").arg(&path).output().map(|x| x.status.code() == Some(1)).unwrap_or(false);
        if !same {
            say!(so, "harness error in {}: {} does not replay in a fresh process", prop, path);
            code = 2;
            continue;
        }
        say!(so, "{}: {} (seed {}, run {}, step {}; {} of {} steps kept)", sig, f.viol.what, f.seed, f.index, f.step, steps.len(), full.steps.len());
        for d in file["trace"].as_array().unwrap() {
            say!(so, "    {}", d.as_str().unwrap_or(""));
        }
        say!(so, "VIOLATION property={} replay={}", prop, path);
        replays.push(path);
    }
    if !replays.is_empty() {
        code = 1;
    }
    evidence(o, prop, &s, n, search_s, t0.elapsed().as_secs_f64(), replays.len(), det, so);
    if code == 0 {
        say!(
            so,
            "{} held on {} runs, {} transactions ({} instruction classes, {} states) in {:.1} s{}",
            prop,
            s.done,
            s.cov.txs,
            s.cov.classes.len(),
            s.cov.states.len(),
            search_s,
            if s.capped { " (stopped at the time cap)" } else { "" }
        );
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(o: &Opts, prop: &str, s: &Search, n: u64, search_s: f64, wall: f64, viols: usize, det: bool, so: &mut Out) {
    let ks = kinds_of(prop);
    let rel = |k: &str| ks.is_empty() || ks.contains(&k);
    let mut evals = 0u64;
    let mut outcomes: BTreeMap<String, BTreeMap<&str, u64>> = BTreeMap::new();
    for ((k, oc), c) in &s.cov.kinds {
        *outcomes.entry(k.to_string()).or_default().entry(oc).or_default() += c;
        if rel(k) {
            evals += c;
        }
    }
    let distinct = s.cov.classes.iter().filter(|(k, oc, _)| rel(k) && *oc != "skipped").count() as u64;
    // a few actual cases, from the first run of this search
    let seed0 = run_seed(o.seed, prop, 0);
    let r0 = one(seed0, prop, true);
    let mut samples: Vec<Value> = vec![json!({"seed": seed0, "steps": r0.steps.len(), "digest": format!("{:016x}", r0.digest)})];
    for st in r0.steps.iter() {
        let hit = match st {
            Step::Tx(t) => t.ixs.iter().any(|i| dbc_name(&i.data).map(rel).unwrap_or(false)),
            _ => samples.len() < 3,
        };
        if hit && samples.len() < 7 {
            samples.push(describe(st).into());
        }
    }
    let faults: BTreeMap<String, u64> = s.cov.faults.clone();
    let v = json!({
        "property": prop,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "violations": viols,
        "wall_s": (wall * 100.0).round() / 100.0,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": "Each simulated run is generated from its own seed. One evaluation is one execution, by the real program code, of an instruction this property speaks about, judged against the independent model (pre-state, arguments, clock -> post-state, token and lamport movements, events or refusal). Two evaluations are the same case when instruction, outcome and behaviour class (mode, direction, fee mode, side, progress, options, refusal reason) all agree; executions the oracle skipped are not counted as distinct.",
            "samples": samples,
            "simulated_runs": s.done,
            "runs_planned": n,
            "runs_dropped_by_harness_error": s.panics.len(),
            "stopped_at_time_cap": s.capped,
            "runs_per_hour": (s.done as f64 * 3600.0 / search_s.max(0.001)).round(),
            "seeds_per_hour": (s.done as f64 * 3600.0 / search_s.max(0.001)).round(),
            "search_s": search_s,
            "transactions": s.cov.txs,
            "transactions_committed": s.cov.tx_ok,
            "schedule_steps": s.cov.steps,
            "simulated_slots": s.cov.slots,
            "simulated_seconds": s.cov.secs,
            "faults_injected": faults,
            "instruction_outcomes": outcomes,
            "distinct_behaviour_classes_all_instructions": s.cov.classes.len(),
            "distinct_pool_states": s.cov.states.len(),
            "state_measure": "hash of (config shape, migration progress, status flags, bucketed price position, bucketed reserves and fees) of a pool after a committed transaction",
            "invariant_evaluations": s.cov.invariants,
            "sdk_quotes_compared": s.cov.quotes,
            "liveness_drives": s.cov.drives,
            "liveness_drives_reaching_the_end": s.cov.drives_done,
            "what_if_probes": s.cov.probes,
            "search_digest": format!("{:016x}", s.digest),
            "seeds_repeat_exactly": det,
            "real_components": ["dynamic-bonding-curve program (entrypoint, account validation, all instruction handlers, events, math, state)", "dynamic-bonding-curve-sdk quote functions", "spl-token", "spl-token-2022", "spl-associated-token-account"],
            "stub_components": ["Solana runtime (accounts, CPI, sysvars, rent, privileges, clock)", "system program", "Metaplex token metadata", "Meteora DAMM v1 and its vaults", "Meteora DAMM v2", "Meteora locker", "zap program validation library (verdict injected)"],
        },
        "assumptions": [
            "the simulated runtime enforces the Solana rules the program relies on (ownership, privileges, rent, lamport conservation, CPI depth and re-entrancy, instruction sysvar)",
            "third-party programs behave as their stubs do, apart from the injected failures and misbehaviour",
            "sampling: schedules outside the explored seeds are not covered"
        ],
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.dir));
    let p = format!("{}/evidence/{}.json", o.dir, prop);
    if std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n").is_err() {
        say!(so, "cannot write {}", p);
    }
}

pub fn replay(so: &mut Out, path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        say!(so, "cannot read {}", path);
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return 2 };
    let steps: Option<Vec<Step>> = v["steps"].as_array().map(|a| a.iter().filter_map(Step::parse).collect());
    let (Some(steps), Some(prop), Some(sig)) = (steps, v["property"].as_str(), v["sig"].as_str()) else {
        say!(so, "not a replay file: {}", path);
        return 2;
    };
    let mut r = Run::new();
    r.verbose = std::env::var("VERBOSE").is_ok();
    for s in &steps {
        r.step(s.clone());
    }
    r.finish();
    let hit = r.viols.iter().find(|(_, x)| x.sig() == sig && x.props.contains(&prop));
    let digest = format!("{:016x}", r.digest);
    match hit {
        Some((at, x)) => {
            let exact = x.what == v["what"].as_str().unwrap_or("") && Some(digest.as_str()) == v["digest"].as_str();
            say!(so, "{} at step {}: {}{}", sig, at, x.what, if exact { "" } else { " (differs from the recording)" });
            say!(so, "VIOLATION property={} replay={}", prop, path);
            if exact {
                1
            } else {
                3
            }
        }
        None => {
            say!(so, "{} does not occur", sig);
            0
        }
    }
}

/// One seed is one execution: the same seeds on one thread and on eight, twice, agree.
pub fn selftest(so: &mut Out) -> i32 {
    let mut bad = 0;
    for p in PROPS {
        let d: Vec<u64> = [1u64, 8, 3]
            .iter()
            .map(|t| search(p, 7, 40, *t, Duration::from_secs(600), &[]).digest)
            .collect();
        let ok = d.iter().all(|x| *x == d[0]);
        // and the recorded steps replay to the same digest
        let r = one(run_seed(7, p, 0), p, true);
        let q = play(&r.steps);
        let rep = q.digest == r.digest;
        say!(so, "{} {:016x} {} {}", p, d[0], if ok { "repeats" } else { "DIFFERS" }, if rep { "replays" } else { "DOES NOT REPLAY" });
        bad += (!ok || !rep) as i32;
    }
    (bad > 0) as i32 * 2
}

pub fn explore(so: &mut Out, prop: &str, n: u64, from: u64) -> i32 {
    let t0 = Instant::now();
    let mut cov = Cov::default();
    let mut sigs: BTreeMap<String, (u64, String)> = Default::default();
    for s in from..from + n {
        let s = if n == 1 { s } else { run_seed(77, prop, s) };
        let mut r = Run::new();
        r.verbose = n == 1;
        world::simulate(&mut r, s, &weights(prop, s));
        for (i, v) in &r.viols {
            let e = sigs.entry(v.sig()).or_insert((0, format!("seed {} step {} {:?} {}", s, i, v.props, v.what)));
            e.0 += 1;
        }
        cov.add(&r.cov);
    }
    say!(
        so,
        "{:?} txs {} ok {} states {} classes {} drives {}/{} in {:?}",
        n,
        cov.txs,
        cov.tx_ok,
        cov.states.len(),
        cov.classes.len(),
        cov.drives_done,
        cov.drives,
        t0.elapsed()
    );
    say!(so, "{:?}\n{:?}", cov.kinds, cov.faults);
    for (k, v) in sigs {
        say!(so, "{} x{}: {}", k, v.0, v.1);
    }
    0
}

/// For mutation campaigns: which checks report anything, and how soon.
pub fn matrix(so: &mut Out, n: u64, only: &[String]) -> i32 {
    let mut hit: BTreeMap<&str, u64> = BTreeMap::new();
    let mut sigs: BTreeMap<String, (u64, Vec<&'static str>, String)> = BTreeMap::new();
    let first = std::env::var("MATRIX_FIRST").is_ok();
    let mut stop = n;
    let mut panics = 0u64;
    let mut i = 0;
    while i < stop {
        for p in PROPS {
            if hit.contains_key(p) || !only.is_empty() && !only.iter().any(|x| x == p) {
                continue;
            }
            let seed = run_seed(1, p, i);
            let Ok(v) = std::panic::catch_unwind(|| one(seed, p, false).viols) else {
                panics += 1;
                continue;
            };
            for (_, v) in v {
                let e = sigs.entry(v.sig()).or_insert((0, v.props.clone(), v.what.chars().take(160).collect()));
                e.0 += 1;
                if v.props.contains(&p) && !hit.contains_key(p) {
                    hit.insert(p, i);
                    stop = stop.min(i + if first { 0 } else { 25 });
                }
            }
        }
        i += 1;
    }
    say!(so, "{}", json!({"hit": hit, "sigs": sigs, "panics": panics, "rounds": i}));
    0
}
