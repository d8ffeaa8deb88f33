//! Running cases: worker processes, supervision, statistics, evidence.
use crate::rng::Rng;
use crate::san;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

pub struct Viol {
    pub msg: String,
    pub data: J,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(msg: impl Into<String>, data: J) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), data })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub c: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<J>,
    pub truncated: bool,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.c.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.c.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        match self.max.get_mut(k) {
            Some(x) => *x = (*x).max(n),
            None => {
                self.max.insert(k.to_string(), n);
            }
        }
    }
    pub fn nontrivial(&mut self, h: u64) {
        if self.hashes.len() < 4_000_000 {
            self.hashes.insert(h);
        }
    }
}

pub struct Cx {
    pub prop: &'static str,
    pub seed: u64,
    pub idx: u64,
    pub r: Rng,
    pub st: Stats,
    pub verbose: bool,
    /// Scratch directory for this worker.
    pub dir: PathBuf,
}
impl Cx {
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        let n = self.st.samples.len();
        // the first case, and a few later ones
        if n < 4 && (n == 0 || self.idx % 997 < 40 || self.idx > 2000 * n as u64) {
            let v = f();
            self.st.samples.push(v);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// number of cases in each tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: fn(&mut Cx) -> Res,
    /// stack given to the worker thread
    pub stack: usize,
    pub shards: u64,
    pub assumptions: &'static [&'static str],
}

const MAX_VIOL: usize = 3;

pub fn worker(p: &'static Prop, seed: u64, shard: u64, nshards: u64, from: u64, to: u64, deadline: u64, dir: &Path) {
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(p.stack)
        .spawn(move || {
            crate::run::quiet_panics();
            let start = Instant::now();
            let cur = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dir.join(format!("cur.{}", shard))).unwrap();
            let mut st = Stats::default();
            let mut viols: Vec<J> = vec![];
            let mut idx = from + shard;
            while idx < to {
                let _ = cur.write_at(&idx.to_le_bytes(), 0);
                let mut cx = Cx { prop: p.id, seed, idx, r: Rng::for_case(p.id, seed, idx), st, verbose: false, dir: dir.clone() };
                let t = Instant::now();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx)));
                st = cx.st;
                let ms = t.elapsed().as_millis() as u64;
                st.max("slowest_case_ms", ms);
                if ms > 2000 && std::env::var_os("VERIF_SLOW").is_some() {
                    eprintln!("case {} took {} ms", idx, ms);
                }
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => viols.push(json!({"idx": idx, "msg": v.msg, "data": v.data})),
                    Err(_) => viols.push(json!({"idx": idx, "msg": "HARNESS PANIC", "data": crate::run::last_panic()})),
                }
                if viols.len() >= MAX_VIOL {
                    break;
                }
                idx += nshards;
                if start.elapsed() > Duration::from_secs(deadline) {
                    st.truncated = true;
                    break;
                }
            }
            let _ = cur.write_at(&u64::MAX.to_le_bytes(), 0);
            let j = json!({
                "evals": st.evals, "c": st.c, "max": st.max, "samples": st.samples, "truncated": st.truncated,
                "viols": viols, "edges": san::edges_seen(), "edges_total": san::edges_total(), "steps": san::steps(),
            });
            std::fs::write(dir.join(format!("stat.{}", shard)), serde_json::to_vec(&j).unwrap()).unwrap();
            let mut hb = Vec::with_capacity(st.hashes.len() * 8);
            for h in &st.hashes {
                hb.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(dir.join(format!("hash.{}", shard)), hb).unwrap();
        })
        .unwrap();
    let _ = h.join();
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn describe(st: std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    if st.success() {
        return None;
    }
    if st.code() == Some(san::HANG_EXIT) {
        return Some("no answer within the step budget (a hang)".into());
    }
    match st.signal() {
        Some(9) => Some("worker was killed (no answer in time, or out of memory)".into()),
        Some(s) => Some(format!("process died from signal {} (abort, stack overflow or memory exhaustion)", s)),
        None => Some(format!("process exited with {:?}", st.code())),
    }
}

pub fn check(p: &'static Prop, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    let root = root();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let quick = tier == "quick";
    let total = match std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => if quick { p.quick } else { p.thorough },
    };
    let deadline: u64 = std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 240 } else { 700 });
    let n = p.shards;
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Child, u64, Instant)> = vec![];
    for s in 0..n {
        let c = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), &s.to_string(), &n.to_string(), "0", &total.to_string(), &deadline.to_string()])
            .arg(&dir)
            .spawn()
            .unwrap();
        kids.push((s, c, u64::MAX - 1, Instant::now()));
    }
    let mut viols: Vec<J> = vec![];
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < kids.len() {
            let (s, c, last, since) = &mut kids[i];
            let cur = std::fs::read(dir.join(format!("cur.{}", s)))
                .ok()
                .filter(|b| b.len() == 8)
                .map_or(u64::MAX - 1, |b| u64::from_le_bytes(b.try_into().unwrap()));
            if cur != *last {
                *last = cur;
                *since = Instant::now();
            }
            match c.try_wait() {
                Ok(Some(st)) => {
                    if let Some(why) = describe(st) {
                        viols.push(json!({"idx": cur, "msg": why, "data": J::Null}));
                    }
                    kids.remove(i);
                    continue;
                }
                _ => {
                    // A backstop only: hangs are found by counting steps.
                    if since.elapsed() > Duration::from_secs(120) {
                        let _ = c.kill();
                        let _ = c.wait();
                        viols.push(json!({"idx": cur, "msg": "no answer within 120 s", "data": J::Null}));
                        kids.remove(i);
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    // merge
    let mut evals = 0u64;
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut mx: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut edges: HashSet<u64> = HashSet::new();
    let mut edges_total = 0;
    let mut steps = 0u64;
    let mut truncated = false;
    let mut hashes: HashSet<u64> = HashSet::new();
    for s in 0..n {
        let Ok(b) = std::fs::read(dir.join(format!("stat.{}", s))) else { continue };
        let j: J = serde_json::from_slice(&b).unwrap();
        evals += j["evals"].as_u64().unwrap();
        for (k, v) in j["c"].as_object().unwrap() {
            *c.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        for (k, v) in j["max"].as_object().unwrap() {
            let e = mx.entry(k.clone()).or_default();
            *e = (*e).max(v.as_u64().unwrap());
        }
        for x in j["samples"].as_array().unwrap() {
            if samples.len() < 8 {
                samples.push(x.clone());
            }
        }
        for e in j["edges"].as_array().unwrap() {
            edges.insert(e.as_u64().unwrap());
        }
        edges_total = edges_total.max(j["edges_total"].as_u64().unwrap());
        steps += j["steps"].as_u64().unwrap();
        truncated |= j["truncated"].as_bool().unwrap();
        viols.extend(j["viols"].as_array().unwrap().iter().cloned());
        if let Ok(b) = std::fs::read(dir.join(format!("hash.{}", s))) {
            for ch in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.sort_by_key(|v| v["idx"].as_u64());
    let harness_bug = viols.iter().any(|v| v["msg"] == "HARNESS PANIC");
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "cases": c.get("cases").copied().unwrap_or(total),
            "observed": c,
            "maxima": mx,
            "instrumented_edges_hit": edges.len(),
            "instrumented_edges": edges_total,
            "instrumented_steps": steps,
            "stopped_early_on_time": truncated,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols.len(),
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: tier={} seed={} evaluations={} distinct_nontrivial={} edges={}/{} wall={:.1}s{}",
        p.id, tier, seed, evals, hashes.len(), edges.len(), edges_total, t0.elapsed().as_secs_f64(),
        if truncated { " (stopped on time)" } else { "" }
    );
    if harness_bug {
        eprintln!("the harness itself failed: {}", serde_json::to_string_pretty(&viols).unwrap());
        return 2;
    }
    if viols.is_empty() {
        return 0;
    }
    let rd = root.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    for v in viols.iter().take(5) {
        let idx = v["idx"].as_u64().unwrap_or(0);
        let path = rd.join(format!("{}-{}-{}.json", p.id, seed, idx));
        let j = json!({"property": p.id, "seed": seed, "idx": idx, "what": v["msg"], "case": v["data"],
            "replay": format!("bash run.sh replay replays/{}-{}-{}.json", p.id, seed, idx)});
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes());
        println!("{}", v["msg"].as_str().unwrap_or(""));
        let d = v["data"].to_string();
        println!("  case {}: {}", idx, d.chars().take(1200).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    1
}

pub fn replay(p: &'static Prop, seed: u64, idx: u64) -> i32 {
    let dir = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    let h = std::thread::Builder::new()
        .stack_size(p.stack)
        .spawn(move || {
            crate::run::quiet_panics();
            let mut cx = Cx { prop: p.id, seed, idx, r: Rng::for_case(p.id, seed, idx), st: Stats::default(), verbose: true, dir: d2 };
            match (p.run)(&mut cx) {
                Ok(()) => {
                    println!("{} case {}: holds", p.id, idx);
                    0
                }
                Err(v) => {
                    println!("{} case {}: VIOLATED: {}\n{}", p.id, idx, v.msg, serde_json::to_string_pretty(&v.data).unwrap());
                    1
                }
            }
        })
        .unwrap();
    let r = h.join().unwrap_or(1);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
