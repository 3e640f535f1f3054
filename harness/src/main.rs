mod circ; mod odfa; mod rgen; mod scan; mod props;
use serde_json::{json, Value};
use std::collections::{hash_map::DefaultHasher, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Ctx { pub repo: PathBuf, pub dir: PathBuf, pub thorough: bool, pub seed: u64, pub nat: std::cell::RefCell<Vec<Value>> }
/// Result of one case: a description (None: trivial), or a violation.
pub enum Out { Ok(Option<Value>), Viol(Value), Done }
pub struct Fam { pub name: &'static str, pub f: fn(&Ctx, &mut rgen::Rng, usize) -> Out }

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
fn case_seed(seed: u64, fam: &str, i: usize) -> u64 { let mut h = DefaultHasher::new(); (seed, fam, i).hash(&mut h); h.finish() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--only"); // family:index
    let dir = PathBuf::from(get("--dir").unwrap_or_else(|| format!("/tmp/zkr-{}", std::process::id())));
    std::fs::create_dir_all(&dir).unwrap();
    let ctx = Ctx { repo: PathBuf::from(get("--repo").unwrap_or("/repo".into())), dir: dir.clone(), thorough, seed, nat: Default::default() };
    let fams = props::families(&id);
    if fams.is_empty() { eprintln!("no families for {}", id); std::process::exit(3); }
    let cur = get("--current");
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let mut evals = 0usize;
    let mut seen = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut viol: Option<Value> = None;
    let mut per: Vec<(String, usize)> = fams.iter().map(|f| (f.name.to_string(), 0)).collect();
    let mut done = vec![false; fams.len()];
    let mut run = |k: usize, i: usize| -> bool {
        let f = &fams[k];
        if let Some(c) = &cur { let _ = std::fs::write(c, format!("{}:{}", f.name, i)); }
        let mut r = rgen::Rng::new(case_seed(seed, f.name, i));
        let o = match quiet(|| (f.f)(&ctx, &mut r, i)) { Ok(o) => o, Err(e) => { eprintln!("harness error in {}:{}: {}", f.name, i, e); std::process::exit(4) } };
        match o {
            Out::Done => return true,
            Out::Ok(None) => { evals += 1; per[k].1 += 1; }
            Out::Ok(Some(v)) => {
                evals += 1; per[k].1 += 1;
                let s = v.to_string();
                if seen.insert(s) && samples.len() < 12 && (per[k].1 <= 2) { samples.push(json!({"family": f.name, "case": v})); }
            }
            Out::Viol(v) => { VIOL.store(true, std::sync::atomic::Ordering::Relaxed); evals += 1; viol = Some(json!({"family": f.name, "index": i, "seed": seed, "case": v})); return true; }
        }
        false
    };
    if let Some(o) = only {
        let (n, i) = o.rsplit_once(':').unwrap();
        let k = fams.iter().position(|f| f.name == n).expect("family");
        run(k, i.parse().unwrap());
    } else {
        let cap = get("--cap").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
        let mut i = 0;
        'o: while t0.elapsed() < Duration::from_secs_f64(budget) && i < cap && !done.iter().all(|x| *x) {
            for k in 0..fams.len() {
                if done[k] { continue; }
                if t0.elapsed() > Duration::from_secs_f64(budget * 1.5) { break 'o; }
                if run(k, i) { done[k] = true; }
            }
            i += 1;
            // a violation ends the run
            if VIOL.load(std::sync::atomic::Ordering::Relaxed) { break; }
        }
    }
    drop(run);
    let out = json!({"property": id, "evaluations": evals, "distinct_nontrivial": seen.len(), "families": per, "samples": samples, "violation": viol, "wall_s": t0.elapsed().as_secs_f64(), "probe": props::probe_available()});
    let nat = ctx.nat.borrow();
    if let Some(p) = get("--native") { let mut s = String::new(); for v in nat.iter() { s += &v.to_string(); s.push('\n'); } std::fs::write(p, s).unwrap(); }
    if let Some(p) = get("--out") { std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).unwrap(); } else { println!("{}", serde_json::to_string_pretty(&out).unwrap()); }
    if get("--dir").is_none() { let _ = std::fs::remove_dir_all(&dir); }
}
pub static VIOL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
