//! The check runs in a child process: a case that ends the process (an allocation that cannot be made, a stack
//! that overflows, a double panic) is found again, shrunk and reported by the parent.
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const SLOT: usize = 128;

/// What each thread is at, in a file.
pub struct Slots(Option<File>);
impl Slots {
    pub fn open() -> Slots {
        Slots(std::env::var("PROP_SLOTS").ok().and_then(|p| File::options().write(true).open(p).ok()))
    }
    pub fn set(&self, k: usize, case: u64, seed: u64, suite: &str) {
        self.put(k, &format!("{case}:{seed}:{suite}"));
    }
    pub fn clear(&self, k: usize) {
        self.put(k, "");
    }
    fn put(&self, k: usize, s: &str) {
        if let Some(f) = &self.0 {
            let mut b = [b' '; SLOT];
            b[SLOT - 1] = b'\n';
            let n = s.len().min(SLOT - 1);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
            let _ = f.write_all_at(&b, (k * SLOT) as u64);
        }
    }
}
fn child(more: &[(&str, &str)], args: &[String], quiet: bool) -> (u32, ExitStatus) {
    let mut c = Command::new(std::env::current_exe().expect("the check's own path"));
    c.args(args).env("PROP_CHILD", "1").envs(more.iter().copied());
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    unsafe {
        // it ends with its parent
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("the check itself");
    let id = p.id();
    (id, p.wait().expect("the check's end"))
}
/// The signals by which a program ends itself.
fn died(s: &ExitStatus) -> Option<i32> {
    s.signal().filter(|n| [4, 6, 7, 8, 11].contains(n))
}
fn write(path: &Path, id: &str, suite: &str, case: u64, choices: &[u64], msg: &str) {
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let j = serde_json::json!({
        "property": id, "suite": suite, "case": case, "choices": choices, "failure": msg,
        "how": format!("bash /verif/check.sh {id} quick --replay {}", path.display()),
    });
    let _ = std::fs::write(path, j.to_string());
}
/// Does not return in the parent.
pub fn supervise(id: &str) {
    if std::env::var("PROP_CHILD").is_ok() {
        return;
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let me = std::process::id();
    let tmp = |n: &str| PathBuf::from(format!("/tmp/vp-{id}-{me}.{n}"));
    let slots = tmp("slots");
    let _ = std::fs::write(&slots, "");
    let (pid, st) = child(&[("PROP_SLOTS", &slots.to_string_lossy())], &args, false);
    let at = std::fs::read_to_string(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    let gone = |pid: u32| {
        let _ = std::fs::remove_dir_all(format!("/tmp/vp-{id}-{pid}"));
    };
    gone(pid);
    let Some(sig) = died(&st) else {
        exit(st.code().unwrap_or_else(|| 128 + st.signal().unwrap_or(0)));
    };
    let msg = format!("the process ends by signal {sig}");
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        println!("VIOLATION property={id} replay={}", args.get(i + 1).map_or("", |x| x));
        println!("  {msg}");
        exit(1);
    }
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("build/replays");
    let mut cases: Vec<(u64, String, String)> = at
        .lines()
        .filter_map(|l| {
            let mut it = l.trim().splitn(3, ':');
            Some((it.next()?.parse().ok()?, it.next()?.to_string(), it.next()?.to_string()))
        })
        .collect();
    cases.sort();
    for (case, seed, suite) in &cases {
        let log = tmp("choices");
        let one = format!("{seed}:{}:{suite}", log.display());
        let (pid, st) = child(&[("PROP_ONE", &one)], &args, true);
        gone(pid);
        let choices: Vec<u64> = std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
        let _ = std::fs::remove_file(&log);
        if died(&st).is_none() {
            continue;
        }
        let path = dir.join(format!("{id}-{suite}.json"));
        let mut best = choices;
        let t0 = Instant::now();
        let mut k = best.len();
        let dies = |v: &[u64]| {
            let f = tmp("try.json");
            write(&f, id, suite, *case, v, "");
            let (pid, st) = child(&[], &[id.to_string(), "quick".into(), "--replay".into(), f.to_string_lossy().into()], true);
            gone(pid);
            let _ = std::fs::remove_file(&f);
            died(&st).is_some()
        };
        while k > 0 && t0.elapsed() < Duration::from_secs(40) {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < Duration::from_secs(40) {
                let mut v = best.clone();
                v.drain(i..(i + k).min(v.len()));
                if dies(&v) {
                    best = v;
                } else {
                    i += k;
                }
            }
            k /= 2;
        }
        write(&path, id, suite, *case, &best, &msg);
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  suite={suite} case={case}: {msg} ({} choices)", best.len());
        exit(1);
    }
    let path = dir.join(format!("{id}-process.json"));
    write(&path, id, cases.first().map_or("", |c| &c.2), cases.first().map_or(0, |c| c.0), &[], &format!("{msg}, with these cases at work: {cases:?}"));
    println!("VIOLATION property={id} replay={}", path.display());
    println!("  {msg}, with these cases at work: {cases:?}");
    exit(1)
}
