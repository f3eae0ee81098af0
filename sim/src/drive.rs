//! Commands: search, minimise, replay, evidence.

use crate::campaign::{self, Campaign, Twin};
use crate::report::{Dec, Enc, Report, V};
use crate::runner::{self, iso, Died, Shared};
use crate::source::{Rng, Source};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn seed0() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// What one run is made of.
#[derive(Clone)]
pub struct RunId {
    pub variant: u64,
    pub pseed: u64,
    pub seed: u64,
}

pub fn run_id(c: &Campaign, seed: u64, i: u64) -> RunId {
    let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ i.wrapping_mul(0xd1b54a32d192ed03);
    for b in c.id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    RunId { variant: i, pseed: r.next(), seed: r.next() }
}

fn exec_in(c: &'static Campaign, id: &RunId, list: Option<&[u32]>, trace: bool) -> Result<Report, Died> {
    let p = c.profile(id.variant, id.pseed);
    let b = iso(|| {
        let mut s = match list {
            Some(l) => Source::from_list(l),
            None => Source::from_seed(id.seed),
        };
        campaign::exec(c, &p, &mut s, trace).enc(false)
    })?;
    Report::dec(&b).ok_or(Died::Harness("unreadable report".into()))
}

/// As `exec_in`, but a run the library broke is a report with that violation.
pub fn execute(c: &'static Campaign, id: &RunId, list: Option<&[u32]>, trace: bool) -> Result<Report, String> {
    match exec_in(c, id, list, trace) {
        Ok(r) => Ok(r),
        Err(Died::Harness(m)) => Err(m),
        Err(Died::Library(class, msg)) => {
            let mut r = Report { worlds: 1, ..Default::default() };
            r.violate(class, 0, 0, msg);
            r.choices = match list {
                Some(l) => l.to_vec(),
                None => choices(c, id),
            };
            Ok(r)
        }
    }
}

/// The choices a run makes, without executing anything.
fn choices(c: &Campaign, id: &RunId) -> Vec<u32> {
    let p = c.profile(id.variant, id.pseed);
    let mut s = Source::from_seed(id.seed);
    if c.twin != Twin::Sign {
        crate::plan::scenario(&mut s, &p);
        if matches!(c.twin, Twin::Growth | Twin::Rng) {
            // decisions taken later in the run
            for _ in 0..64 {
                s.seed();
            }
        }
    } else {
        for _ in 0..400 {
            s.seed();
        }
    }
    s.rec
}

fn first(c: &Campaign, r: &Report) -> Option<V> {
    r.viol.iter().find(|v| c.accepts(&v.class)).cloned()
}

// ------------------------------------------------------------------ totals

#[derive(Default)]
struct Total {
    runs: u64,
    worlds: u64,
    attempts: u64,
    calls: u64,
    io: u64,
    sim: u64,
    abandoned: u64,
    counts: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    paths: HashSet<u64>,
    nontrivial: HashSet<u64>,
    digest: u64,
    fail: Option<u64>,
    /// what the failing run violated when it was first executed
    seen: BTreeMap<u64, V>,
    error: Option<String>,
}

impl Total {
    fn add(&mut self, i: u64, r: &Report) {
        self.runs += 1;
        self.worlds += r.worlds;
        self.attempts += r.attempts;
        self.calls += r.calls;
        self.io += r.io;
        self.sim += r.sim_time;
        for (k, n) in &r.counts {
            *self.counts.entry(k.clone()).or_insert(0) += n;
            *self.fired_runs.entry(k.clone()).or_insert(0) += (*n > 0) as u64;
        }
        for (k, n) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
        self.paths.insert(r.path);
        if r.nontrivial {
            self.nontrivial.insert(r.path);
        }
        self.digest = self.digest.wrapping_add(crate::world::mix(r.digest, i.wrapping_mul(0x9e3779b97f4a7c15)));
    }
    fn enc(&self) -> Vec<u8> {
        let mut e = Enc::default();
        for x in [self.runs, self.worlds, self.attempts, self.calls, self.io, self.sim, self.abandoned, self.digest] {
            e.u(x);
        }
        for m in [&self.counts, &self.fired_runs, &self.probes, &self.other] {
            e.u(m.len() as u64);
            for (k, n) in m {
                e.s(k);
                e.u(*n);
            }
        }
        for s in [&self.paths, &self.nontrivial] {
            e.u(s.len() as u64);
            for x in s {
                e.u(*x);
            }
        }
        e.u(self.fail.map(|x| x + 1).unwrap_or(0));
        e.u(self.seen.len() as u64);
        for (i, v) in &self.seen {
            e.u(*i);
            e.s(&v.class);
            e.u(v.obj);
            e.u(v.attempt);
            e.s(&v.msg);
        }
        e.s(self.error.as_deref().unwrap_or(""));
        e.0
    }
    fn merge(&mut self, b: &[u8]) -> Option<()> {
        let mut d = Dec(b);
        self.runs += d.u()?;
        self.worlds += d.u()?;
        self.attempts += d.u()?;
        self.calls += d.u()?;
        self.io += d.u()?;
        self.sim += d.u()?;
        self.abandoned += d.u()?;
        self.digest = self.digest.wrapping_add(d.u()?);
        for m in [&mut self.counts, &mut self.fired_runs, &mut self.probes, &mut self.other] {
            for _ in 0..d.u()? {
                let k = d.s()?;
                *m.entry(k).or_insert(0) += d.u()?;
            }
        }
        for s in [&mut self.paths, &mut self.nontrivial] {
            for _ in 0..d.u()? {
                s.insert(d.u()?);
            }
        }
        if let Some(f) = d.u()?.checked_sub(1) {
            self.fail = Some(self.fail.map_or(f, |x| x.min(f)));
        }
        for _ in 0..d.u()? {
            self.seen.insert(d.u()?, V { class: d.s()?, obj: d.u()?, attempt: d.u()?, msg: d.s()? });
        }
        let e = d.s()?;
        if !e.is_empty() && self.error.is_none() {
            self.error = Some(e);
        }
        Some(())
    }
}

fn search(c: &'static Campaign, seed: u64, n: u64, workers: u64, cap: Duration) -> Total {
    let t0 = Instant::now();
    let shared = Shared::new(u64::MAX);
    let kids: Vec<_> = (0..workers)
        .map(|w| {
            let shared = &shared;
            runner::spawn(move || {
                let mut t = Total::default();
                let mut i = w;
                while i < n && i < shared.at(0).load(SeqCst) && t0.elapsed() < cap {
                    match execute(c, &run_id(c, seed, i), None, false) {
                        Ok(r) => {
                            t.add(i, &r);
                            for v in &r.viol {
                                if !c.accepts(&v.class) {
                                    *t.other.entry(v.class.clone()).or_insert(0) += 1;
                                }
                            }
                            if let Some(v) = first(c, &r) {
                                t.seen.insert(i, v);
                                t.fail = Some(i);
                                shared.at(0).fetch_min(i, SeqCst);
                                break;
                            }
                        }
                        Err(e) if e.contains(runner::ABANDONED) && t.abandoned < 3 => t.abandoned += 1,
                        Err(e) => {
                            t.error = Some(format!("run {i}: {e}"));
                            break;
                        }
                    }
                    i += workers;
                }
                t.enc()
            })
        })
        .collect();
    let mut t = Total::default();
    for k in kids {
        match runner::join(k) {
            Ok(b) => {
                if t.merge(&b).is_none() {
                    t.error = Some("unreadable totals".into());
                }
            }
            Err(e) => t.error = Some(e),
        }
    }
    t
}

// ------------------------------------------------------------------ minimising

struct Min {
    c: &'static Campaign,
    id: RunId,
    class: String,
    evals: u32,
    end: Instant,
}

impl Min {
    fn spent(&self) -> bool {
        self.evals >= 2500 || Instant::now() > self.end
    }
    /// The choices actually made, if the violation is still there.
    fn fails(&mut self, l: &[u32]) -> Option<Vec<u32>> {
        if self.spent() {
            return None;
        }
        self.evals += 1;
        let r = execute(self.c, &self.id, Some(l), false).ok()?;
        // any violation of the same class will do
        let v = r.viol.iter().find(|v| v.class == self.class)?;
        let _ = v;
        let mut rec = if r.choices.len() <= l.len() { r.choices.clone() } else { l.to_vec() };
        while rec.last() == Some(&0) {
            rec.pop();
        }
        Some(rec)
    }
    fn shrink(&mut self, l: Vec<u32>) -> Vec<u32> {
        let mut best = l;
        if let Some(r) = self.fails(&best.clone()) {
            best = r;
        }
        loop {
            let before = (best.len(), best.iter().filter(|x| **x != 0).count(), best.iter().map(|x| *x as u64).sum::<u64>());
            // drop the tail
            let mut k = best.len() / 2;
            while k > 0 && !self.spent() {
                if k <= best.len() {
                    let cut = best[..best.len() - k].to_vec();
                    if let Some(r) = self.fails(&cut) {
                        best = r;
                        continue;
                    }
                }
                k /= 2;
            }
            // zero and delete pieces
            let mut size = (best.len() / 2).max(1);
            while size > 0 && !self.spent() {
                let mut at = 0;
                while at < best.len() && !self.spent() {
                    let end = (at + size).min(best.len());
                    if best[at..end].iter().any(|x| *x != 0) {
                        let mut z = best.clone();
                        z[at..end].iter_mut().for_each(|x| *x = 0);
                        if let Some(r) = self.fails(&z) {
                            best = r;
                        }
                    }
                    if size <= 64 && at < best.len() {
                        let end = (at + size).min(best.len());
                        let mut z = best.clone();
                        z.drain(at..end);
                        if let Some(r) = self.fails(&z) {
                            if r.len() < best.len() {
                                best = r;
                                continue;
                            }
                        }
                    }
                    at += size;
                }
                size /= 2;
            }
            // lower single choices
            let mut i = 0;
            while i < best.len() && !self.spent() {
                for f in [1u32, 2, 3] {
                    let x = best[i];
                    let y = match f {
                        1 => 1.min(x),
                        2 => x / 2,
                        _ => x.saturating_sub(1),
                    };
                    if y == x || y == 0 {
                        continue;
                    }
                    let mut z = best.clone();
                    z[i] = y;
                    if let Some(r) = self.fails(&z) {
                        best = r;
                        if i >= best.len() {
                            break;
                        }
                    }
                }
                i += 1;
            }
            let after = (best.len(), best.iter().filter(|x| **x != 0).count(), best.iter().map(|x| *x as u64).sum::<u64>());
            if after == before || self.spent() {
                return best;
            }
        }
    }
}

// ------------------------------------------------------------------ replay files

struct Replay {
    property: String,
    id: RunId,
    class: String,
    msg: String,
    digest: u64,
    list: Vec<u32>,
}

fn write_replay(path: &str, r: &Replay, trace: &[String]) {
    let mut s = String::new();
    s += &format!("property {}\n", r.property);
    s += &format!("profile {} {}\n", r.id.variant, r.id.pseed);
    s += &format!("seed {}\n", r.id.seed);
    s += &format!("class {}\n", r.class);
    s += &format!("message {}\n", r.msg.replace('\n', " "));
    s += &format!("digest {:016x}\n", r.digest);
    s += &format!("choices {}\n", r.list.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for t in trace {
        for l in t.lines() {
            let l: String = l.chars().take(4000).collect();
            s += &format!("# {l}\n");
        }
    }
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, s).expect("cannot write the replay file");
}

fn read_replay(path: &str) -> Option<Replay> {
    let s = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string());
    let prof = get("profile ")?;
    let mut p = prof.split(' ').map(|x| x.parse::<u64>());
    Some(Replay {
        property: get("property ")?,
        id: RunId { variant: p.next()?.ok()?, pseed: p.next()?.ok()?, seed: get("seed ")?.parse().ok()? },
        class: get("class ")?,
        msg: get("message ").unwrap_or_default(),
        digest: u64::from_str_radix(&get("digest ")?, 16).ok()?,
        list: get("choices ").unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap_or(0)).collect(),
    })
}

/// Executes a choice list with a trace that survives a crash.
fn traced(c: &'static Campaign, id: &RunId, list: &[u32]) -> Result<Report, String> {
    let path = format!("{}/replays/.echo-{}", verif(), std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/replays", verif()));
    let _ = std::fs::remove_file(&path);
    runner::echo_to(&path);
    let r = execute(c, id, Some(list), true);
    runner::echo_off();
    let echo = std::fs::read(&path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let mut r = r?;
    if r.trace.len() <= 2 {
        let mut t: Vec<String> = echo.lines().map(|l| l.to_string()).collect();
        t.append(&mut r.trace);
        r.trace = t;
    }
    Ok(r)
}

fn replay(path: &str) -> i32 {
    let Some(f) = read_replay(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(c) = campaign::find(&f.property) else {
        eprintln!("no campaign {}", f.property);
        return 2;
    };
    match traced(c, &f.id, &f.list) {
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        }
        Ok(r) => {
            for t in &r.trace {
                println!("{t}");
            }
            match r.viol.iter().find(|v| v.class == f.class) {
                Some(v) => {
                    let same = r.digest == f.digest;
                    println!("reproduced: {} {} (history {})", v.class, v.msg, if same { "identical" } else { "different" });
                    println!("VIOLATION property={} replay={}", f.property, path);
                    1
                }
                None => {
                    println!("not reproduced: {} {}", f.class, f.msg);
                    0
                }
            }
        }
    }
}

// ------------------------------------------------------------------ evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn jm(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

fn jl(l: &[String]) -> String {
    format!("[{}]", l.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
}

fn evidence(c: &'static Campaign, tier: &str, seed: u64, t: &Total, planned: u64, wall: f64, violations: u64, workers: u64) {
    let mut samples = vec![];
    let mut i = 0;
    let t0 = Instant::now();
    while samples.len() < 3 && i < 40 && t0.elapsed() < Duration::from_secs(30) {
        let id = run_id(c, seed, i);
        if let Ok(r) = execute(c, &id, None, true) {
            if r.nontrivial {
                let tr: Vec<String> = r
                    .trace
                    .iter()
                    .filter(|l| !l.starts_with("profile") && !l.starts_with("plan of"))
                    .take(40)
                    .map(|l| l.chars().take(300).collect())
                    .collect();
                samples.push(format!(
                    "{{\"run\": {i}, \"seed\": {}, \"choices\": {}, \"faults\": {}, \"history\": {}}}",
                    id.seed,
                    r.choices.len(),
                    jm(&r.counts),
                    jl(&tr)
                ));
            }
        }
        i += 1;
    }
    let sign = c.twin == Twin::Sign;
    let rule = if sign {
        "one case = one seed = 1..4 signing calls with a scripted random source; non-trivial: the source returned zero or a value that makes the signature zero; distinct: by digest of keys, hashes and values drawn"
    } else {
        "one case = one seed = one scenario (objects, attempts, configuration, random tape, server behaviour, attacker, delivery schedule, read and write plans, application behaviour) executed against the real client, with its comparison executions where the property has them; non-trivial: a ClientHello reached the model server and at least one fault, attack or interruption fired; distinct: by digest of the order of events, of every I/O callback's outcome in order and of how each attempt ended"
    };
    let real: &[&str] = if sign {
        &["crylib::ec::ecdsa (sign, verify_signature)", "crylib field, big-integer and curve arithmetic", "crylib::hash::Sha256"]
    } else {
        &["turtls (whole crate through its C API)", "crylib (all primitives the client uses)"]
    };
    let stub: &[&str] = if sign {
        &["random source: scripted tape", "oracle: independent P-256 arithmetic and ECDSA"]
    } else {
        &[
            "network: virtual-time link behind read_fn/write_fn/close_fn",
            "server: independent model TLS 1.3 server",
            "getrandom: scripted tape ([patch.crates-io])",
            "application: scripted",
            "allocator: system allocator with per-object accounting",
        ]
    };
    let zero: Vec<String> = t.probes.iter().filter(|(_, n)| **n == 0).map(|(k, _)| k.clone()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"planned_runs\": {planned},\n  \"runs_abandoned_for_cost\": {},\n  \"world_executions\": {},\n  \"connection_attempts\": {},\n  \"api_calls\": {},\n  \"io_callbacks\": {},\n  \"simulated_milliseconds\": {},\n  \"simulated_runs_per_hour (one seed each)\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"digest of event order, outcome of every I/O callback in order, and cause of the end of every attempt\",\n  \"faults_injected\": {},\n  \"runs_in_which_each_fault_fired\": {},\n  \"rare_conditions_reached\": {},\n  \"rare_conditions_not_reached\": {},\n  \"findings_left_to_other_properties\": {},\n  \"history_digest\": \"{:016x}\",\n  \"worker_processes\": {workers},\n  \"violation_classes_decided\": {},\n  \"components_real\": {},\n  \"components_simulated\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        js(c.id),
        js(tier),
        t.runs,
        t.nontrivial.len(),
        js(rule),
        samples.join(", "),
        t.abandoned,
        t.worlds,
        t.attempts,
        t.calls,
        t.io,
        t.sim,
        (t.runs as f64 / wall * 3600.0) as u64,
        t.paths.len(),
        jm(&t.counts),
        jm(&t.fired_runs),
        jm(&t.probes),
        jl(&zero),
        jm(&t.other),
        t.digest,
        jl(&c.classes.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jl(&real.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jl(&stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jl(&[
            "seeded sampling, not enumeration: a clean batch is evidence, not proof".to_string(),
            "the oracle's own SHA-256, HMAC, HKDF, AES-GCM, ChaCha20-Poly1305 and P-256 are correct (checked against published vectors by `tsim selftest`)".to_string(),
            "callbacks keep their documented contract; the configuration outlives the connection".to_string(),
        ]),
        wall,
    );
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", c.id), body).expect("cannot write the evidence file");
}

// ------------------------------------------------------------------ commands

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}

fn check(id: &str, tier: &str) -> i32 {
    let Some(c) = campaign::find(id) else {
        eprintln!("no campaign {id}");
        return 2;
    };
    let seed = seed0();
    let quick = tier != "thorough";
    let n = env_u64("TSIM_RUNS").unwrap_or(if quick { c.quick } else { c.thorough });
    let cap = env_u64("TSIM_CAP").unwrap_or(if quick { 300 } else { 720 });
    let workers = env_u64("TSIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 32));
    println!("{id} {tier}: VERIF_SEED {seed}, {n} runs, {workers} workers");
    let t0 = Instant::now();
    let t = search(c, seed, n, workers, Duration::from_secs(cap));
    let wall = t0.elapsed().as_secs_f64().max(0.001);
    println!(
        "{} runs ({} executions, {} attempts) in {wall:.1} s, {} distinct histories ({} non-trivial), digest {:016x}",
        t.runs,
        t.worlds,
        t.attempts,
        t.paths.len(),
        t.nontrivial.len(),
        t.digest
    );
    let Some(i) = t.fail else {
        if let Some(e) = &t.error {
            eprintln!("harness error: {e}");
            return 2;
        }
        evidence(c, tier, seed, &t, n, wall, 0, workers);
        println!("{id}: held in every run");
        return 0;
    };
    // the lowest failing run, minimised
    let rid = run_id(c, seed, i);
    let mut r = Report::default();
    for _ in 0..8 {
        r = match execute(c, &rid, None, false) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("harness error: run {i}: {e}");
                return 2;
            }
        };
        if first(c, &r).is_some() {
            break;
        }
    }
    let v = match (first(c, &r), t.seen.get(&i)) {
        (Some(v), _) => v,
        (None, Some(v)) if !matches!(v.class.as_str(), "Crash" | "Hang") => {
            // The simulator decides everything the client may depend on; what is left is memory the client
            // does not own, or another process.
            println!("run {i} does not fail again: the code under test depends on something outside of the simulation");
            v.clone()
        }
        _ => {
            eprintln!("run {i} does not fail again");
            return 2;
        }
    };
    println!("run {i} (seed {}): object {} attempt {}: {}: {}", rid.seed, v.obj, v.attempt, v.class, v.msg);
    let orig = r.choices.clone();
    let mut m = Min { c, id: rid.clone(), class: v.class.clone(), evals: 0, end: Instant::now() + Duration::from_secs(90) };
    let list = if std::env::var_os("TSIM_NOMIN").is_some() { orig.clone() } else { m.shrink(orig.clone()) };
    println!("minimised from {} to {} choices in {} executions", orig.len(), list.len(), m.evals);
    let mut list = list;
    let mut last = traced(c, &rid, &list);
    let ok = |r: &Result<Report, String>| r.as_ref().is_ok_and(|r| r.viol.iter().any(|x| x.class == v.class));
    if !ok(&last) {
        list = orig;
        last = traced(c, &rid, &list);
    }
    let (trace, msg, digest) = match &last {
        Ok(r) => (
            r.trace.clone(),
            r.viol.iter().find(|x| x.class == v.class).map(|x| x.msg.clone()).unwrap_or_else(|| v.msg.clone()),
            r.digest,
        ),
        Err(e) => (vec![e.clone()], v.msg.clone(), 0),
    };
    let path = format!("{}/replays/{}-{}-{:016x}.txt", verif(), c.id, v.class, rid.seed);
    write_replay(
        &path,
        &Replay { property: c.id.into(), id: rid, class: v.class.clone(), msg: msg.clone(), digest, list },
        &trace,
    );
    println!("{}: {}", v.class, msg);
    evidence(c, tier, seed, &t, n, wall, 1, workers);
    println!("VIOLATION property={} replay={}", c.id, path);
    let _ = std::io::stdout().flush();
    1
}

fn one(id: &str, i: u64) -> i32 {
    let Some(c) = campaign::find(id) else { return 2 };
    let rid = run_id(c, seed0(), i);
    if let Ok(p) = std::env::var("TSIM_ECHO") {
        runner::echo_to(&p);
    }
    match execute(c, &rid, None, std::env::var_os("TSIM_NOTRACE").is_none()) {
        Ok(r) => {
            for t in &r.trace {
                println!("{t}");
            }
            println!("path {:016x} digest {:016x} nontrivial {} {:?}", r.path, r.digest, r.nontrivial, r.counts);
            first(c, &r).is_some() as i32
        }
        Err(e) => {
            println!("harness error: {e}");
            2
        }
    }
}

pub fn main() -> i32 {
    runner::install_hook();
    crate::tls::table();
    crate::crypto::fp();
    crate::crypto::fq();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => check(arg(2), if arg(3).is_empty() { "quick" } else { arg(3) }),
        "replay" => replay(arg(2)),
        "one" => one(arg(2), arg(3).parse().unwrap_or(0)),
        "selftest" => crate::selftest::main(),
        // certificates the model takes for well-formed, to be looked at with other tools
        "certs" => {
            for i in 0..arg(2).parse::<u32>().unwrap_or(100) {
                let mut s = crate::source::Source::from_seed(i as u64);
                let c = crate::plan::cert_spec(&mut s);
                std::fs::write(format!("{}/{i}.der", arg(3)), crate::tls::good_cert(&c)).expect("cannot write");
            }
            0
        }
        "digest" => {
            // tsim digest ID RUNS WORKERS: for comparing executions
            let Some(c) = campaign::find(arg(2)) else { return 2 };
            let t = search(c, seed0(), arg(3).parse().unwrap_or(100), arg(4).parse().unwrap_or(8), Duration::from_secs(3600));
            println!("{} runs {} digest {:016x} paths {} fail {:?} error {:?}", c.id, t.runs, t.digest, t.paths.len(), t.fail, t.error);
            0
        }
        "list" => {
            for c in campaign::CAMPAIGNS {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: tsim check ID [quick|thorough] | replay FILE | one ID RUN | digest ID RUNS WORKERS | selftest | certs N DIR | list");
            2
        }
    }
}
