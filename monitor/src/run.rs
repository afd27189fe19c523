//! Case runner: worker threads, panic capture, CPU watchdog, crash supervisor, evidence and replay files.
use crate::mon;
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub prop: &'static str,
    pub stage: &'static str,
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub fails: Vec<String>,
    pub obs: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub sample: Option<String>,
    pub want_sample: bool,
}
impl Ctx {
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.fails.len() < 5 {
            let mut m: String = m.into();
            if m.len() > 4000 {
                let mut i = 4000;
                while !m.is_char_boundary(i) {
                    i -= 1;
                }
                m.truncate(i);
            }
            self.fails.push(m);
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.obs.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.obs.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.obs.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// One execution was observed; `h` identifies it if it was non-trivial.
    pub fn eval(&mut self, h: Option<u64>) {
        self.evals += 1;
        if let Some(h) = h {
            self.nontrivial.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
            }
            self.sample = Some(s);
        }
    }
    /// Moves violations noticed by online monitors into the case, and their counts into the observations.
    pub fn drain(&mut self, what: &dyn Fn() -> String) {
        let v = mon::take_violations();
        for m in v {
            self.fail(format!("{} [{}]", m, what()));
        }
        let counts = mon::with(|t| std::mem::take(&mut t.counts));
        for (k, n) in counts {
            *self.obs.entry(k).or_default() += n;
        }
    }
}

pub type CaseFn = fn(&mut Ctx);
pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    pub rule: &'static str,
    /// observations that must not be zero, lest the check says nothing
    pub must: &'static [&'static str],
    pub level: &'static str,
    /// known findings: (id, probe); the probe says what still fails
    pub findings: Vec<(&'static str, fn() -> Option<String>)>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{} at {}", m, at));
            }
        });
        if std::env::var_os("MONITOR_TRACE").is_some() {
            eprintln!("panic: {} at {}\n{}", m, at, std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub fn run_case(p: &Prop, st: &Stage, idx: u64, seed: u64, thorough: bool, want_sample: bool) -> Ctx {
    let sh = crate::rng::hash_bytes(p.id.as_bytes()) ^ crate::rng::hash_bytes(st.name.as_bytes()).rotate_left(17);
    let mut c = Ctx {
        prop: p.id,
        stage: st.name,
        idx,
        thorough,
        rng: Rng::new(mix(seed ^ mix(sh ^ mix(idx)))),
        fails: vec![],
        obs: BTreeMap::new(),
        evals: 0,
        nontrivial: HashSet::new(),
        sample: None,
        want_sample,
    };
    mon::reset(0);
    let r = catch_unwind(AssertUnwindSafe(|| (st.f)(&mut c)));
    if r.is_err() {
        let m = last_panic();
        c.fails.push(if m.starts_with("HARNESS") { format!("harness panic: {}", m) } else { format!("panic: {}", m) });
    }
    c
}

// ---------------------------------------------------------------------------------------------
// Shared slots (visible to the supervisor after a crash).

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}
pub struct Slots(*mut AtomicU64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
const SLOT: usize = 4; // seq, stage, idx, hang flag
impl Slots {
    pub fn open(path: &str) -> Option<Slots> {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(4096).ok()?;
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return None;
        }
        Some(Slots(p as *mut AtomicU64))
    }
    fn at(&self, w: usize, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(w * SLOT + i) }
    }
}
pub const WORKERS: usize = 8;
const HANG_CPU_S: f64 = 20.0;

fn cpu_of(clock: i32) -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(clock, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}
fn my_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}

pub struct Totals {
    pub evals: u64,
    pub cases: u64,
    pub obs: BTreeMap<&'static str, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<(String, u64, Vec<String>)>,
    pub stopped_early: bool,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub dir: String,
    pub budget_s: f64,
}

pub fn run_all(p: &Prop, env: &Env, slots: Option<&Slots>) -> Totals {
    let start = Instant::now();
    let tot = Mutex::new(Totals {
        evals: 0,
        cases: 0,
        obs: BTreeMap::new(),
        nontrivial: HashSet::new(),
        samples: vec![],
        fails: vec![],
        stopped_early: false,
    });
    let stop = AtomicBool::new(false);
    let clocks: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let running = AtomicBool::new(true);
    std::thread::scope(|sc| {
        if let Some(sl) = slots {
            let (clocks, running) = (&clocks, &running);
            sc.spawn(move || {
                let mut seen = [(0u64, 0f64); WORKERS];
                while running.load(Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    for w in 0..WORKERS {
                        let c = clocks[w].load(Relaxed);
                        if c == 0 {
                            continue;
                        }
                        let seq = sl.at(w, 0).load(Relaxed);
                        let cpu = cpu_of((c as u32) as i32);
                        if seq != seen[w].0 {
                            seen[w] = (seq, cpu);
                        } else if seq % 2 == 1 && cpu - seen[w].1 > HANG_CPU_S {
                            sl.at(w, 3).store(1, SeqCst);
                            unsafe { _exit(77) };
                        }
                    }
                }
            });
        }
        let n_stages = p.stages.len();
        for si in 0..n_stages {
            let st = &p.stages[si];
            let total = if env.thorough { st.thorough } else { st.quick };
            let next = AtomicU64::new(0);
            // Stages share the budget in order; none starves.
            let share = env.budget_s * (si as f64 + 1.0) / n_stages as f64;
            std::thread::scope(|s2| {
                for w in 0..WORKERS {
                    let (next, stop, tot, clocks) = (&next, &stop, &tot, &clocks);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s2, move || {
                            clocks[w].store(my_clock() as u32 as u64, Relaxed);
                            let mut loc = Totals {
                                evals: 0,
                                cases: 0,
                                obs: BTreeMap::new(),
                                nontrivial: HashSet::new(),
                                samples: vec![],
                                fails: vec![],
                                stopped_early: false,
                            };
                            loop {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= total || stop.load(Relaxed) {
                                    break;
                                }
                                if start.elapsed().as_secs_f64() > share {
                                    loc.stopped_early = true;
                                    break;
                                }
                                if let Some(sl) = slots {
                                    sl.at(w, 1).store(si as u64, Relaxed);
                                    sl.at(w, 2).store(i, Relaxed);
                                    sl.at(w, 0).fetch_add(1, SeqCst);
                                }
                                let c = run_case(p, st, i, env.seed, env.thorough, i < 2);
                                if let Some(sl) = slots {
                                    sl.at(w, 0).fetch_add(1, SeqCst);
                                }
                                loc.cases += 1;
                                loc.evals += c.evals;
                                for (k, n) in c.obs {
                                    let e = loc.obs.entry(k).or_default();
                                    if k.starts_with("max_") {
                                        *e = (*e).max(n);
                                    } else {
                                        *e += n;
                                    }
                                }
                                if loc.nontrivial.len() < 2_000_000 {
                                    loc.nontrivial.extend(c.nontrivial);
                                }
                                if let Some(s) = c.sample {
                                    loc.samples.push(format!("{}#{}: {}", st.name, i, s));
                                }
                                if !c.fails.is_empty() {
                                    loc.fails.push((st.name.to_string(), i, c.fails));
                                    if loc.fails.len() >= 3 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                            clocks[w].store(0, Relaxed);
                            let mut t = tot.lock().unwrap();
                            t.evals += loc.evals;
                            t.cases += loc.cases;
                            for (k, n) in loc.obs {
                                let e = t.obs.entry(k).or_default();
                                if k.starts_with("max_") {
                                    *e = (*e).max(n);
                                } else {
                                    *e += n;
                                }
                            }
                            if t.nontrivial.len() < 20_000_000 {
                                t.nontrivial.extend(loc.nontrivial);
                            }
                            t.samples.extend(loc.samples);
                            t.fails.extend(loc.fails);
                            t.stopped_early |= loc.stopped_early;
                        })
                        .expect("HARNESS: thread");
                }
            });
            if stop.load(Relaxed) {
                break;
            }
        }
        running.store(false, Relaxed);
    });
    tot.into_inner().unwrap()
}
extern "C" {
    fn _exit(c: i32) -> !;
}

pub fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(p: &Prop, env: &Env, t: &Totals, wall: f64, extra: &[(String, String)], assumptions: &[&str]) {
    let _ = fs::create_dir_all(format!("{}/evidence", env.dir));
    let mut s = String::new();
    let mut samples = t.samples.clone();
    samples.sort();
    if samples.is_empty() {
        samples.push("(none recorded)".into());
    }
    let obs: Vec<String> = t.obs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let ex: String = extra.iter().map(|(k, v)| format!(",{}:{}", js(k), js(v))).collect();
    s += &format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"cases\":{},\"observed\":{{{}}},\"stopped_by_time_budget\":{},\"samples\":[{}]{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(p.id),
        js(if env.thorough { "thorough" } else { "quick" }),
        env.seed,
        js(p.level),
        t.evals,
        t.nontrivial.len(),
        js(p.rule),
        t.cases,
        obs.join(","),
        t.stopped_early,
        samples.iter().take(40).map(|x| js(x)).collect::<Vec<_>>().join(","),
        ex,
        assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        wall,
        t.fails.len()
    );
    let path = format!("{}/evidence/{}.json", env.dir, p.id);
    let _ = fs::write(&path, s);
}

pub fn replay_path(p: &Prop, env: &Env, stage: &str, idx: u64) -> String {
    let d = format!("{}/evidence/replay", env.dir);
    let _ = fs::create_dir_all(&d);
    format!("{}/{}-{}-{}-{}.txt", d, p.id, stage, env.seed, idx)
}
pub fn report(p: &Prop, env: &Env, stage: &str, idx: u64, msgs: &[String]) {
    let path = replay_path(p, env, stage, idx);
    let body = format!(
        "property={}\nstage={}\nidx={}\nseed={}\ntier={}\nrerun: ./check.sh {} --replay {}\n\n{}\n",
        p.id,
        stage,
        idx,
        env.seed,
        if env.thorough { "thorough" } else { "quick" },
        p.id,
        path,
        msgs.join("\n")
    );
    let _ = fs::write(&path, body);
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "VIOLATION property={} replay={}", p.id, path);
    for m in msgs.iter().take(3) {
        let _ = writeln!(o, "  {}", m.chars().take(700).collect::<String>());
    }
}

/// Listed findings of the property: `finding: property=<id> id=<fid> <text>`.
pub fn known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={} id=", prop)) {
            if let Some((id, text)) = r.split_once(' ') {
                v.push((id.to_string(), text.to_string()));
            }
        }
    }
    v
}

/// Runs the checks of a property in this process; returns the exit code.
pub fn child(p: &Prop, env: &Env, slots: Option<&Slots>) -> i32 {
    let start = Instant::now();
    let listed = known(&env.dir, p.id);
    let mut bad = 0;
    let mut extra = vec![];
    for (id, probe) in &p.findings {
        match catch_unwind(AssertUnwindSafe(probe)) {
            Ok(Some(what)) => {
                if listed.iter().any(|(l, _)| l == id) {
                    println!("KNOWN-FINDING: property={} {} {}", p.id, id, what);
                    extra.push((format!("known_finding_{}", id), what));
                } else {
                    report(p, env, id, 0, &[what]);
                    bad += 1;
                }
            }
            Ok(None) => extra.push((format!("known_finding_{}", id), "does not manifest".to_string())),
            Err(_) => {
                report(p, env, id, 0, &[format!("probe panicked: {}", last_panic())]);
                bad += 1;
            }
        }
    }
    let mut t = run_all(p, env, slots);
    t.fails.sort();
    let wall = start.elapsed().as_secs_f64();
    write_evidence(p, env, &t, wall, &extra, crate::ASSUMPTIONS);
    for (st, i, m) in t.fails.iter().take(3) {
        report(p, env, st, *i, m);
    }
    if bad > 0 || !t.fails.is_empty() {
        return 1;
    }
    for m in p.must {
        if t.obs.get(m).copied().unwrap_or(0) == 0 {
            println!("ERROR: {} observed no '{}': the check says nothing", p.id, m);
            return 2;
        }
    }
    if t.evals == 0 || t.nontrivial.is_empty() {
        println!("ERROR: {} observed nothing", p.id);
        return 2;
    }
    println!(
        "OK {} seed={} {}: {} cases, {} executions observed, {} distinct non-trivial, {:.1}s",
        p.id,
        env.seed,
        if env.thorough { "thorough" } else { "quick" },
        t.cases,
        t.evals,
        t.nontrivial.len(),
        wall
    );
    0
}

/// Supervises the checks in a child process, so that aborts, crashes and hangs become verdicts.
pub fn supervise(p: &Prop, env: &Env, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let _ = fs::create_dir_all(format!("{}/evidence", env.dir));
    let sp = format!("{}/evidence/.slots-{}-{}", env.dir, p.id, std::process::id());
    let _ = fs::remove_file(&sp);
    let st = std::process::Command::new(&exe).args(args).arg("--child").arg(&sp).status();
    let code = match st {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(77), _) => Err("a case did not end within its CPU budget".to_string()),
            (Some(c), _) => Ok(c),
            (_, Some(sig)) => Err(format!("the process died from signal {}", sig)),
            _ => Err("unknown end".into()),
        },
        Err(e) => {
            println!("ERROR: cannot start: {}", e);
            Ok(2)
        }
    };
    let code = match code {
        Ok(c) => c,
        Err(why) => {
            let mut res = 2;
            if let Some(sl) = Slots::open(&sp) {
                let mut cands: Vec<(u64, u64, u64)> = vec![];
                for w in 0..WORKERS {
                    if sl.at(w, 0).load(SeqCst) % 2 == 1 {
                        cands.push((1 - sl.at(w, 3).load(SeqCst).min(1), sl.at(w, 1).load(SeqCst), sl.at(w, 2).load(SeqCst)));
                    }
                }
                cands.sort();
                for (_, si, i) in cands {
                    let stage = p.stages[si as usize].name;
                    let sp2 = format!("{}-one", sp);
                    let _ = fs::remove_file(&sp2);
                    let r = std::process::Command::new(&exe)
                        .args(args)
                        .args(["--one", stage, &i.to_string()])
                        .arg("--child")
                        .arg(&sp2)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status();
                    let _ = fs::remove_file(&sp2);
                    if let Ok(r) = r {
                        if r.code() == Some(77) || r.signal().is_some() {
                            let t = Totals {
                                evals: 1,
                                cases: 1,
                                obs: BTreeMap::new(),
                                nontrivial: [1].into_iter().collect(),
                                samples: vec![format!("{}#{}: {}", stage, i, why)],
                                fails: vec![(stage.into(), i, vec![why.clone()])],
                                stopped_early: true,
                            };
                            write_evidence(p, env, &t, 0.0, &[], crate::ASSUMPTIONS);
                            report(p, env, stage, i, &[format!("{} (reproduced by this case alone)", why)]);
                            res = 1;
                            break;
                        }
                    }
                }
            }
            if res == 2 {
                println!("ERROR: {} ({}), not reproduced by any single case", p.id, why);
            }
            res
        }
    };
    let _ = fs::remove_file(&sp);
    code
}
/// Runs one case with the watchdog.
pub fn one(p: &Prop, env: &Env, stage: &str, idx: u64, slots: Option<&Slots>) -> i32 {
    let Some((si, st)) = p.stages.iter().enumerate().find(|(_, s)| s.name == stage) else {
        println!("ERROR: no stage {}", stage);
        return 2;
    };
    let done = AtomicBool::new(false);
    let clock = AtomicU64::new(0);
    let mut code = 0;
    std::thread::scope(|s| {
        let (done, clock) = (&done, &clock);
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                clock.store(my_clock() as u32 as u64, SeqCst);
                if let Some(sl) = slots {
                    sl.at(0, 1).store(si as u64, SeqCst);
                    sl.at(0, 2).store(idx, SeqCst);
                    sl.at(0, 0).store(1, SeqCst);
                }
                let c = run_case(p, st, idx, env.seed, env.thorough, true);
                done.store(true, SeqCst);
                c
            })
            .expect("HARNESS: thread");
        while !done.load(SeqCst) && !h.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let c = clock.load(SeqCst);
            if c != 0 && !h.is_finished() && cpu_of(c as u32 as i32) > HANG_CPU_S {
                unsafe { _exit(77) };
            }
        }
        let c = h.join().expect("HARNESS: join");
        println!("{} {}#{}: {} executions, sample: {:?}", p.id, stage, idx, c.evals, c.sample);
        if !c.fails.is_empty() {
            report(p, env, stage, idx, &c.fails);
            for m in &c.fails {
                println!("  {}", m);
            }
            code = 1;
        }
    });
    code
}
