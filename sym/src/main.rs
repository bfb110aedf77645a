mod engine;
mod poly;
mod props;
mod smt;
mod sym;

use engine::*;
use smt::*;
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use sym::*;

#[derive(Clone)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub api: &'static str,
    pub sym: fn(),
    pub nat: fn(),
    pub thorough: bool,
}

fn run_native(nat: fn(), inputs: &HashMap<String, f64>) -> NativeOut {
    NAT.with(|n| {
        *n.borrow_mut() = Nat { inputs: inputs.clone(), ..Default::default() };
    });
    let r = catch_unwind(AssertUnwindSafe(|| nat()));
    let failed = NAT.with(|n| std::mem::take(&mut n.borrow_mut().failed));
    match r {
        Ok(()) => NativeOut { skipped: false, panicked: None, failed },
        Err(p) => {
            if p.is::<NatSkip>() {
                // goals that failed before a later assumption cut the run still count
                NativeOut { skipped: failed.is_empty(), panicked: None, failed }
            } else {
                NativeOut { skipped: false, panicked: Some(payload(&p)), failed }
            }
        }
    }
}
fn payload(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub struct HOut {
    pub name: String,
    pub api: String,
    pub paths: usize,
    pub aborted: usize,
    pub goals: Vec<GoalRec>,
    pub stats: Stats,
    pub stats2: Stats,
    pub disagreements: u64,
    pub decisions: u64,
    pub ident: u64,
    pub wall: f64,
    pub note: String,
    pub max_terms: usize,
    pub ops: u64,
    pub witness: bool,
}

fn run_harness(h: &Harness, cfg: &Cfg, budget: f64, max_paths: usize) -> HOut {
    let t0 = Instant::now();
    let nat = h.nat;
    let native: Native = Rc::new(move |m| {
        // the native run must not see the engine of this thread
        run_native(nat, m)
    });
    let mut p = Persist {
        z3: Z3::new(&["z3-new", "-in"]),
        stats: Stats::default(),
        stats2: Stats::default(),
        cache: HashMap::new(),
        goals: vec![],
        alts: vec![],
        disagreements: 0,
        ident_proved: 0,
        decisions: 0,
        seen_goal_names: BTreeSet::new(),
        deadline: t0 + Duration::from_secs_f64(budget),
        max_terms: 0,
        ops: 0,
    };
    let mut work: Vec<Vec<u8>> = vec![vec![]];
    let mut paths = 0;
    let mut aborted = 0;
    let mut note = String::new();
    while let Some(prefix) = work.pop() {
        if paths >= max_paths {
            note = format!("path bound {} reached; {} alternatives unexplored", max_paths, work.len() + 1);
            break;
        }
        paths += 1;
        ENG.with(|e| *e.borrow_mut() = Some(Eng::new(cfg.clone(), native.clone(), p, prefix)));
        let r = catch_unwind(AssertUnwindSafe(|| (h.sym)()));
        if let Err(pl) = r {
            if let Some(a) = pl.downcast_ref::<PathAbort>() {
                aborted += 1;
                if a.0 == "deadline" {
                    note = "time budget reached".into();
                }
                if a.0 == "operations" {
                    note = "operation bound reached".into();
                }
            } else {
                let msg = payload(&pl);
                eng(|e| e.goal_false("no-panic", &format!("panic: {}", msg)));
            }
        }
        let e = ENG.with(|e| e.borrow_mut().take().unwrap());
        p = e.p;
        work.append(&mut p.alts);
        let refuted = p.goals.iter().filter(|g| g.verdict == Verdict::Refuted).count();
        if refuted >= 3 || note.starts_with("time") || note.starts_with("operation") {
            break;
        }
    }
    let witness = p.goals.iter().any(|g| g.verdict == Verdict::Proved || g.verdict == Verdict::Known);
    HOut {
        name: h.name.into(),
        api: h.api.into(),
        paths,
        aborted,
        goals: p.goals,
        stats: p.stats,
        stats2: p.stats2,
        disagreements: p.disagreements,
        decisions: p.decisions,
        ident: p.ident_proved,
        wall: t0.elapsed().as_secs_f64(),
        note,
        max_terms: p.max_terms,
        ops: p.ops,
        witness,
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn soak(hs: &[Harness], n: u64, seed: u64, trace: Option<String>) {
    // isolated runs note the inputs first: the run may not return
    let run_native = |nat: fn(), m: &HashMap<String, f64>| {
        if let Some(f) = &trace {
            let s: String = m.iter().map(|(k, x)| format!("{} {:016x} {:?}\n", k, x.to_bits(), x)).collect();
            std::fs::write(f, s).ok();
        }
        run_native(nat, m)
    };
    let mut rng = Rng::new(seed);
    for h in hs {
        let mut bad: std::collections::BTreeMap<String, (u64, String)> = Default::default();
        let mut names: BTreeSet<String> = BTreeSet::new();
        let mut ran = 0;
        let mut good: Vec<HashMap<String, f64>> = vec![];
        for k in 0..n {
            // draws that satisfy the assumptions are kept and varied; several attempts per sample
            let mut m: HashMap<String, f64> = HashMap::new();
            let mut o = run_native(h.nat, &m);
            for _ in 0..if k == 0 { 0 } else { 30 } {
                let mode = rng.below(4);
                m = HashMap::new();
                let keep = if good.is_empty() || mode == 0 { None } else { Some(&good[rng.below(good.len() as u64) as usize]) };
                for x in &names {
                    let mut v = rng.below(17) as f64 - 8.0;
                    if mode == 2 || (good.is_empty() && mode == 1) {
                        v = v.abs() + 1.0;
                    }
                    let d = [1.0, 2.0, 3.0, 4.0, 7.0, 100.0, 1.5707963267948966][rng.below(7) as usize];
                    match keep {
                        Some(g) if rng.below(3) > 0 && g.contains_key(x) => m.insert(x.clone(), g[x]),
                        _ => m.insert(x.clone(), v / d),
                    };
                }
                o = run_native(h.nat, &m);
                NAT.with(|c| names.extend(c.borrow().asked.iter().cloned()));
                if !o.skipped {
                    good.push(m.clone());
                    break;
                }
            }
            NAT.with(|c| names.extend(c.borrow().asked.iter().cloned()));
            if k == 0 || o.skipped {
                continue;
            }
            ran += 1;
            let bad1 = |o: &NativeOut| !o.skipped && (o.panicked.is_some() || o.failed.iter().any(|f| !f.1.starts_with('~')));
            if bad1(&o) {
                let mut ok = 0;
                for _ in 0..6 {
                    let d: HashMap<String, f64> = m.iter().map(|(k, x)| (k.clone(), x * (1.0 + 1e-4 * (rng.below(2001) as f64 / 1000.0 - 1.0)))).collect();
                    ok += bad1(&run_native(h.nat, &d)) as u32;
                }
                if ok < 4 {
                    continue;
                }
            }
            let mut v: Vec<_> = m.into_iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            if let Some(p) = o.panicked {
                let e = bad.entry(format!("panic {}", p)).or_insert((0, format!("{:?}", v)));
                e.0 += 1;
            } else {
                for (g, d) in o.failed {
                    if d.starts_with('~') {
                        continue;
                    }
                    let e = bad.entry(g).or_insert((0, format!("{} {:?}", d, v)));
                    e.0 += 1;
                }
            }
        }
        println!("{} {} ran {}/{}", h.prop, h.name, ran, n);
        for (g, (c, d)) in bad {
            println!("   FAIL x{} {}: {}", c, g, d);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").unwrap_or_default();
    let only = get("--only");
    let exact = get("--exact");
    let skip: Vec<String> = get("--skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(300.0);
    let hs: Vec<Harness> = props::all()
        .into_iter()
        .filter(|h| (prop.is_empty() || h.prop == prop) && (thorough || !h.thorough))
        .filter(|h| only.as_ref().map(|o| h.name.starts_with(o.as_str())).unwrap_or(true))
        .filter(|h| exact.as_ref().map(|o| h.name == o).unwrap_or(true) && !skip.iter().any(|s| s == h.name))
        .collect();
    if let Some(n) = get("--soak") {
        // self-test of the native side: on a tree where everything is proved no goal may fail natively
        soak(&hs, n.parse().unwrap(), seed, get("--trace"));
        return;
    }
    if args.iter().any(|a| a == "--list") {
        for h in &hs {
            println!("{} {} {}", h.prop, h.name, h.api);
        }
        return;
    }
    if let Some(file) = get("--replay") {
        // file: harness name on the first line, then "name value-bits-hex value"
        let txt = std::fs::read_to_string(&file).expect("replay file");
        let mut it = txt.lines().filter(|l| !l.starts_with('#'));
        let name = it.next().unwrap().trim().to_string();
        let mut m = HashMap::new();
        for l in it {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() >= 2 {
                m.insert(f[0].to_string(), f64::from_bits(u64::from_str_radix(f[1], 16).unwrap()));
            }
        }
        let h = props::all().into_iter().find(|h| h.name == name).expect("harness");
        let o = run_native(h.nat, &m);
        println!("replay {} inputs {:?}", name, m);
        if let Some(p) = &o.panicked {
            println!("panicked: {}", p);
        }
        for f in &o.failed {
            println!("FAILED {}: {}", f.0, f.1);
        }
        std::process::exit(if o.panicked.is_some() || !o.failed.is_empty() { 1 } else { 0 });
    }
    let cfg = Cfg {
        seed,
        feas_ms: if thorough { 10000 } else { 3000 },
        goal_ms: if thorough { 40000 } else { 12000 },
        pin_ms: 2000,
        pins: if thorough { 40 } else { 24 },
        second: thorough,
        trace: get("--trace"),
    };
    let hs = Arc::new(hs);
    let next = Arc::new(AtomicUsize::new(0));
    let outs: Arc<Mutex<Vec<(usize, HOut)>>> = Arc::new(Mutex::new(vec![]));
    let nthreads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut th = vec![];
    let verbose = args.iter().any(|a| a == "-v");
    let t00 = Instant::now();
    // what each worker is doing (harness index + 1; 0: nothing; usize::MAX: finished)
    let doing: Arc<Vec<AtomicUsize>> = Arc::new((0..64).map(|_| AtomicUsize::new(0)).collect());
    let nworkers = nthreads.min(hs.len().max(1)).min(64);
    for w in 0..nworkers {
        let doing = doing.clone();
        let hs = hs.clone();
        let next = next.clone();
        let outs = outs.clone();
        let cfg = cfg.clone();
        th.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    WORKER.with(|x| x.set(w));
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= hs.len() {
                        doing[w].store(usize::MAX, Ordering::SeqCst);
                        break;
                    }
                    doing[w].store(i + 1, Ordering::SeqCst);
                    beat();
                    let left = (budget - t00.elapsed().as_secs_f64()).max(5.0);
                    let o = run_harness(&hs[i], &cfg, left, if thorough { 20000 } else { 2000 });
                    if verbose {
                        let c = |v: Verdict| o.goals.iter().filter(|g| g.verdict == v).count();
                        println!(
                            "{:40} paths {:4} (cut {:3}) goals: {} proved, {} known, {} refuted, {} undecided; {} queries {:.2}s, wall {:.2}s terms {} {}",
                            o.name,
                            o.paths,
                            o.aborted,
                            c(Verdict::Proved),
                            c(Verdict::Known),
                            c(Verdict::Refuted),
                            c(Verdict::Undecided),
                            o.stats.queries,
                            o.stats.time,
                            o.wall,
                            o.max_terms,
                            o.note
                        );
                        let mut seen = BTreeSet::new();
                        for g in &o.goals {
                            if (g.verdict == Verdict::Refuted || g.verdict == Verdict::Undecided) && seen.insert(g.name.clone()) {
                                println!("    {:?} {} path {} {} {:?}", g.verdict, g.name, g.path, g.note, g.inputs);
                            }
                        }
                    }
                    outs.lock().unwrap().push((i, o));
                })
                .unwrap(),
        );
    }
    // watchdog: a worker that shows no sign of life executes library code that does not return
    let quiet_limit: f64 = get("--quiet").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 300.0 } else { 90.0 });
    let mut last: Vec<(u64, Instant)> = (0..nworkers).map(|_| (0, Instant::now())).collect();
    let mut stuck: BTreeSet<usize> = BTreeSet::new();
    loop {
        let mut busy = false;
        for w in 0..nworkers {
            if doing[w].load(Ordering::SeqCst) == usize::MAX || th[w].is_finished() || stuck.contains(&w) {
                continue;
            }
            let b = BEATS[w].load(Ordering::Relaxed);
            if b != last[w].0 {
                last[w] = (b, Instant::now());
            } else if last[w].1.elapsed().as_secs_f64() > quiet_limit {
                stuck.insert(w);
                continue;
            }
            busy = true;
        }
        if !busy {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut outs = std::mem::take(&mut *outs.lock().unwrap());
    let hung: Vec<String> = stuck.iter().map(|&w| doing[w].load(Ordering::SeqCst)).filter(|&d| d > 0 && d != usize::MAX).map(|d| js(hs[d - 1].name)).collect();
    let died: Vec<String> = (0..hs.len()).filter(|i| next.load(Ordering::SeqCst) > *i && !outs.iter().any(|o| o.0 == *i)).map(|i| js(hs[i].name)).filter(|n| !hung.contains(n)).collect();
    outs.sort_by_key(|x| x.0);
    // JSON report
    if let Some(f) = get("--json") {
        let mut s = String::from("{\"harnesses\":[\n");
        for (n, (_, o)) in outs.iter().enumerate() {
            if n > 0 {
                s.push_str(",\n");
            }
            s.push_str(&format!(
                "{{\"name\":{},\"api\":{},\"paths\":{},\"cut\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"queries2\":{},\"disagreements\":{},\"decisions\":{},\"identities\":{},\"wall\":{:.3},\"note\":{},\"max_terms\":{},\"ops\":{},\"witness\":{},\"goals\":[",
                js(&o.name), js(&o.api), o.paths, o.aborted, o.stats.queries, o.stats.unsat, o.stats.sat, o.stats.unknown,
                o.stats.time, o.stats.max_time, o.stats2.queries, o.disagreements, o.decisions, o.ident, o.wall, js(&o.note), o.max_terms, o.ops, o.witness
            ));
            for (k, g) in o.goals.iter().enumerate() {
                if k > 0 {
                    s.push(',');
                }
                let ins: Vec<String> = g
                    .inputs
                    .iter()
                    .map(|(a, b)| format!("[{},{},\"{:016x}\"]", js(a), js(&format!("{:?}", b)), b.to_bits()))
                    .collect();
                s.push_str(&format!(
                    "{{\"name\":{},\"verdict\":\"{:?}\",\"path\":{},\"how\":{},\"note\":{},\"inputs\":[{}]}}",
                    js(&g.name), g.verdict, js(&g.path), js(&g.how), js(&g.note), ins.join(",")
                ));
            }
            s.push_str("]}");
        }
        s.push_str(&format!("\n],\"hung\":[{}],\"died\":[{}]}}\n", hung.join(","), died.join(",")));
        std::fs::write(f, s).expect("write report");
    }
    // workers that do not return are left behind
    std::process::exit(0);
}
