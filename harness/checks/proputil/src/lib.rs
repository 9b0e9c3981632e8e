//! Property-based testing core: every case is a pure function of a recorded sequence of bounded
//! choices, so a failing case is shrunk by editing that sequence and replayed from it.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

mod watch;

pub type R = Result<(), String>;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Source of choices: random while exploring, a fixed prefix (then zeros) while shrinking/replaying.
pub struct Src {
    rng: Option<u64>,
    fixed: Vec<u64>,
    pos: usize,
    rec: Vec<u64>,
    /// every choice is written down as it is made: what is left of a case that ends the process
    log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(seed), fixed: vec![], pos: 0, rec: vec![], log: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { rng: None, fixed: v, pos: 0, rec: vec![], log: None }
    }
    /// Uniform in 0..n (n > 0); 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(s) => splitmix(s) % n.max(1),
            None => {
                let v = self.fixed.get(self.pos).copied().unwrap_or(0);
                v.min(n.max(1) - 1)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = std::io::Write::write_all(f, format!("{v}\n").as_bytes());
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        (a << 32) | b
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(tot);
        for (i, k) in w.iter().enumerate() {
            if x < *k as u64 {
                return i;
            }
            x -= *k as u64;
        }
        w.len() - 1
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.us(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.bool() {
            Some(f(self))
        } else {
            None
        }
    }
    /// Fisher-Yates; the simplest choices give the identity.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len() {
            let j = i + self.below((v.len() - i) as u64) as usize;
            v.swap(i, j);
        }
    }
    /// i64 mixing small values, powers of two and extremes.
    pub fn int(&mut self) -> i64 {
        match self.weighted(&[6, 3, 1]) {
            0 => self.range(-5, 20),
            1 => {
                let b = self.below(40);
                let v = (1i64 << b) + self.range(-1, 1);
                if self.bool() { -v } else { v }
            }
            _ => *self.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64 + 1, i32::MIN as i64 - 1]),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        const A: &[&str] = &["a", "b", "c", "A", "z", "1", " ", "_", "é", "/", "\"", "日", "\n", "%", "-", ".", "😀"];
        let n = self.us(0, max);
        (0..n).map(|_| *self.pick(A)).collect()
    }
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    labels: Vec<String>,
    pub desc: String,
}
impl Case {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        self.desc.push_str(s.as_ref());
        self.desc.push('\n');
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Runs `f`, turning a panic into Err("panic at file:line: message").
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = outer);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

struct Suite {
    name: String,
    evaluations: u64,
    nontrivial: u64,
    rule: String,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    discarded: u64,
}

pub struct Prop {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    t0: Instant,
    suites: Vec<Suite>,
    violations: Vec<String>,
    known: Vec<String>,
    listed: Vec<(String, String)>,
    replay: Option<(String, Vec<u64>)>,
    pub threads: usize,
    pub assumptions: Vec<String>,
    /// A single case running longer than this is reported as not terminating.
    pub hang: Duration,
    dir: PathBuf,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn rss_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e9
}

fn hash_of(v: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

type CaseFn<'a> = &'a (dyn Fn(&mut Src, &mut Case) -> R + Sync);

fn exec(f: CaseFn, mut s: Src) -> (Vec<u64>, Case, R) {
    let mut c = Case::default();
    let r = match guarded(|| f(&mut s, &mut c)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    (s.rec, c, r)
}

impl Prop {
    pub fn new(id: &str) -> Self {
        watch::supervise(id);
        std::panic::set_hook(Box::new(|i| {
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = format!("panic at {loc}: {msg}");
            if QUIET.with(|q| *q.borrow()) {
                PANIC.with(|p| *p.borrow_mut() = Some(m));
            } else if std::env::var("PROP_VERBOSE").is_ok() {
                eprintln!("{m}");
            }
        }));
        let args: Vec<String> = std::env::args().collect();
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut replay = None;
        let mut i = 2;
        while i < args.len() {
            match args[i].as_str() {
                "quick" | "thorough" => tier = args[i].clone(),
                "--replay" => {
                    let p = args.get(i + 1).expect("--replay FILE");
                    let j: serde_json::Value =
                        serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json");
                    replay = Some((
                        j["suite"].as_str().unwrap_or("").to_string(),
                        j["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
                    ));
                    i += 1;
                }
                _ => {}
            }
            i += 1;
        }
        let listed = std::fs::read_to_string(verif().join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("finding: property=")?;
                let (p, rest) = l.split_once(' ')?;
                let slug = rest.split_whitespace().next()?;
                Some((p.to_string(), slug.to_string()))
            })
            .collect();
        let dir = PathBuf::from(format!("/tmp/vp-{}-{}", id, std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Prop {
            id: id.into(),
            thorough: tier == "thorough",
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            suites: vec![],
            violations: vec![],
            known: vec![],
            listed,
            replay,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8),
            assumptions: vec![],
            hang: Duration::from_secs(120),
            dir,
        }
    }

    fn violation(&mut self, suite: &str, case: u64, choices: &[u64], desc: &str, msg: &str) {
        let d = verif().join("build/replays");
        let _ = std::fs::create_dir_all(&d);
        let path = d.join(format!("{}-{}.json", self.id, suite));
        let j = serde_json::json!({
            "property": self.id, "suite": suite, "seed": self.seed, "case": case,
            "choices": choices, "input": desc, "failure": msg,
            "how": format!("bash /verif/check.sh {} quick --replay {}", self.id, path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("VIOLATION property={} replay={}", self.id, path.display());
        println!("  suite={suite} case={case}: {}", trunc(msg, if self.replay.is_some() { 1 << 20 } else { 2000 }));
        println!("  input: {}", trunc(desc, if self.replay.is_some() { 1 << 20 } else { 3000 }));
        self.violations.push(format!("{suite}: {}", trunc(msg, 500)));
    }

    /// Explore `quick`/`thorough` cases of one generated check.
    pub fn suite(
        &mut self,
        name: &str,
        rule: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src, &mut Case) -> R + Sync,
    ) {
        if let Ok(only) = std::env::var("PROP_SUITE") {
            if only != name {
                return;
            }
        }
        if let Some((s, ch)) = self.replay.clone() {
            if s == name {
                let (rec, c, r) = exec(&f, Src::replay(ch));
                match r {
                    Err(m) => self.violation(name, 0, &rec, &c.desc, &m),
                    Ok(()) => println!("replay of {name}: holds\n{}", c.desc),
                }
            }
            return;
        }
        if let Ok(one) = std::env::var("PROP_ONE") {
            // one case again, its choices written down
            let mut it = one.splitn(4, ':');
            let (seed, file, s) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
            if s == name {
                let mut src = Src::random(seed.parse().unwrap());
                src.log = std::fs::File::create(file).ok();
                let _ = exec(&f, src);
            }
            return;
        }
        let slots = watch::Slots::open();
        let mut n = if self.thorough { thorough } else { quick * quick_factor(&self.id) };
        if let Some(k) = std::env::var("PROP_CASES").ok().and_then(|x| x.parse().ok()) {
            n = k;
        }
        let base = hash_of(&(self.seed, &self.id, name));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Acc {
            evals: u64,
            seen: HashSet<u64>,
            nontrivial: u64,
            labels: BTreeMap<String, u64>,
            samples: BTreeMap<u64, String>,
            fail: Option<(u64, Vec<u64>, String, String)>,
            discarded: u64,
        }
        let acc = Mutex::new(Acc {
            evals: 0,
            seen: HashSet::new(),
            nontrivial: 0,
            labels: BTreeMap::new(),
            samples: BTreeMap::new(),
            fail: None,
            discarded: 0,
        });
        let running: Vec<Arc<Mutex<Option<(u64, Instant)>>>> =
            (0..self.threads).map(|_| Arc::new(Mutex::new(None))).collect();
        let left = AtomicUsize::new(self.threads);
        let done = AtomicBool::new(false);
        let hang = self.hang;
        let id = self.id.clone();
        let seed = self.seed;
        std::thread::scope(|sc| {
            for (k, slot) in running.iter().cloned().enumerate() {
                let (f, acc, next, stop, left, done, slots) = (&f, &acc, &next, &stop, &left, &done, &slots);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            *slot.lock().unwrap() = Some((i, Instant::now()));
                            let mut s = base ^ i.wrapping_mul(0xD1342543DE82EF95);
                            splitmix(&mut s);
                            slots.set(k, i, s, name);
                            let (rec, c, r) = exec(f, Src::random(s));
                            slots.clear(k);
                            *slot.lock().unwrap() = None;
                            let mut a = acc.lock().unwrap();
                            a.evals += 1;
                            match r {
                                Err(m) if m == "discard" => a.discarded += 1,
                                Err(m) => {
                                    // the lowest failing index wins, so that the report does not depend on timing
                                    if a.fail.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                        a.fail = Some((i, rec, c.desc, m));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                                Ok(()) => {
                                    if c.nontrivial && a.seen.insert(hash_of(&rec)) {
                                        a.nontrivial += 1;
                                        if a.samples.len() < 4 || a.samples.keys().next_back().map(|k| i < *k).unwrap_or(false) {
                                            a.samples.insert(i, trunc(&c.desc, 1500));
                                            while a.samples.len() > 4 {
                                                a.samples.pop_last();
                                            }
                                        }
                                    }
                                    for l in c.labels {
                                        *a.labels.entry(l).or_default() += 1;
                                    }
                                }
                            }
                        }
                        if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                    })
                    .unwrap();
            }
            let running = &running;
            let done = &done;
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(5));
                    let full = rss_gb() > 10.0;
                    for s in running {
                        if let Some((i, t)) = *s.lock().unwrap() {
                            if t.elapsed() > hang || (full && t.elapsed() > Duration::from_millis(500)) {
                                let what = if full { "memory above 10 GB and still".to_string() } else { format!("after {hang:?} still") };
                                let d = verif().join("build/replays");
                                let _ = std::fs::create_dir_all(&d);
                                let path = d.join(format!("{id}-{name}.json"));
                                let _ = std::fs::write(
                                    &path,
                                    serde_json::json!({"property": id, "suite": name, "seed": seed, "case": i,
                                        "failure": format!("the case does not finish ({what} running)")})
                                    .to_string(),
                                );
                                println!("VIOLATION property={id} replay={}", path.display());
                                println!("  suite={name} case={i}: does not finish ({what} running)");
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        });
        let mut a = acc.into_inner().unwrap();
        if let Some((i, rec, desc, msg)) = a.fail.take() {
            let (rec, desc, msg) = self.shrink(&f, rec, desc, msg);
            self.violation(name, i, &rec, &desc, &msg);
        }
        self.suites.push(Suite {
            name: name.into(),
            evaluations: a.evals,
            nontrivial: a.nontrivial,
            rule: rule.into(),
            labels: a.labels,
            samples: a.samples.into_values().collect(),
            discarded: a.discarded,
        });
    }

    fn shrink(&self, f: CaseFn, rec: Vec<u64>, desc: String, msg: String) -> (Vec<u64>, String, String) {
        let mut best = (rec, desc, msg);
        let t0 = Instant::now();
        let budget = Duration::from_secs(if self.thorough { 120 } else { 40 });
        let mut tries = 0u32;
        let mut attempt = |v: Vec<u64>, best: &mut (Vec<u64>, String, String)| -> bool {
            if t0.elapsed() > budget || tries > 5000 {
                return false;
            }
            tries += 1;
            let (rec, c, r) = exec(f, Src::replay(v));
            match r {
                Err(m) if m != "discard" => {
                    let better = rec.len() < best.0.len() || (rec.len() == best.0.len() && rec < best.0);
                    if better {
                        *best = (rec, c.desc, m);
                    }
                    better
                }
                _ => false,
            }
        };
        loop {
            let mut progress = false;
            let mut k = best.0.len() / 2;
            while k > 0 {
                let mut i = 0;
                while i < best.0.len() {
                    let mut v = best.0.clone();
                    v.drain(i..(i + k).min(v.len()));
                    if attempt(v, &mut best) {
                        progress = true;
                    } else {
                        i += k;
                    }
                }
                k /= 2;
            }
            let mut i = 0;
            while i < best.0.len() {
                let cur = best.0[i];
                for c in [0, cur / 2, cur.saturating_sub(1)] {
                    if i < best.0.len() && c < best.0[i] {
                        let mut v = best.0.clone();
                        v[i] = c;
                        progress |= attempt(v, &mut best);
                    }
                }
                // lower a (length-like) choice and delete what follows it
                if i < best.0.len() && best.0[i] > 0 {
                    for d in 1..6 {
                        if i + 1 + d <= best.0.len() && best.0[i] > 0 {
                            let mut v = best.0.clone();
                            v[i] -= 1;
                            v.drain(i + 1..i + 1 + d);
                            if attempt(v, &mut best) {
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
            if !progress || t0.elapsed() > budget {
                return best;
            }
        }
    }

    /// A deterministic witness of a defect that is recorded, not repaired.
    pub fn finding(&mut self, slug: &str, what: &str, f: impl Fn() -> R + Send + Sync) {
        if self.replay.is_some() || std::env::var("PROP_ONE").is_ok() {
            return;
        }
        let r = guarded(&f).unwrap_or_else(Err);
        if let Err(m) = r {
            if self.listed.iter().any(|(p, s)| *p == self.id && s == slug) {
                println!("KNOWN-FINDING: property={} {slug} {what}", self.id);
                self.known.push(format!("{slug}: {}", trunc(&m, 300)));
            } else {
                self.violation(slug, 0, &[], what, &m);
            }
        }
    }

    /// Scratch directory of this run (removed by `finish`).
    pub fn scratch(&self) -> PathBuf {
        self.dir.clone()
    }

    pub fn finish(self) -> ! {
        let _ = std::fs::remove_dir_all(&self.dir);
        if std::env::var("PROP_ONE").is_ok() {
            std::process::exit(0);
        }
        if self.replay.is_some() {
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        let evaluations: u64 = self.suites.iter().map(|s| s.evaluations).sum();
        let nontrivial: u64 = self.suites.iter().map(|s| s.nontrivial).sum();
        let mut rule = String::new();
        for s in &self.suites {
            let _ = write!(rule, "[{}] {} ", s.name, s.rule);
        }
        let samples: Vec<serde_json::Value> = self
            .suites
            .iter()
            .flat_map(|s| s.samples.iter().map(move |x| serde_json::json!({"suite": s.name, "case": x})))
            .collect();
        let suites: Vec<serde_json::Value> = self
            .suites
            .iter()
            .map(|s| {
                serde_json::json!({"suite": s.name, "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial,
                    "discarded": s.discarded, "labels": s.labels})
            })
            .collect();
        let j = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": rule.trim(),
                "samples": samples,
                "suites": suites,
                "known_findings": self.known,
            },
            "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let d = verif().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!(
            "property={} {} evaluations={evaluations} nontrivial={nontrivial} known={} violations={} {:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.known.len(),
            self.violations.len(),
            self.t0.elapsed().as_secs_f64()
        );
        for s in &self.suites {
            println!("  {}: {} cases, {} non-trivial, {:?}", s.name, s.evaluations, s.nontrivial, s.labels);
            if s.evaluations > 0 && s.nontrivial == 0 && self.violations.is_empty() {
                println!("ERROR: suite {} explored nothing non-trivial", s.name);
                std::process::exit(2);
            }
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, want {:?}", format!($($t)*), a, b));
        }
    }};
}

/// How many times the cases a suite names fit into half a minute of a quick run of the property.
fn quick_factor(id: &str) -> u64 {
    match id {
        "C06" | "C07" => 4,
        i if i.starts_with('C') => 8,
        "M06" | "M11" | "S05" | "S11" => 5,
        "I02" | "I03" | "I04" | "I06" | "M12" | "Q06" => 4,
        "I01" | "M01" | "M05" | "M07" | "M08" | "Q07" | "S01" | "S08" => 3,
        "M09" | "M10" => 2,
        "S10" | "S13" => 6,
        _ => 1,
    }
}
