//! Case runner, counters, evidence, replay files and verdict.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    only: Option<String>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub outcomes: Mutex<BTreeSet<String>>,
    cases: AtomicU64,
    samples: Mutex<Vec<String>>,
    viol: Mutex<Vec<(u64, String, String)>>,
    notes: Mutex<Vec<String>>,
    tallies: Mutex<BTreeMap<String, u64>>,
    seq: AtomicU64,
    start: Instant,
    beat: AtomicU64,
    running: Mutex<BTreeSet<String>>,
    done: AtomicBool,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// Runs f, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guard(f).is_err()
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    pub fn thorough(&self) -> bool {
        !self.quick()
    }
    /// pick by tier
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, SeqCst);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, SeqCst);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, SeqCst);
    }
    /// n model states visited, each with one checked transition replayed on the implementation
    pub fn point(&self, n: u64) {
        self.st(n);
        self.tr(n);
        self.trace(n);
    }
    pub fn outcome(&self, s: &str) {
        let mut o = self.outcomes.lock().unwrap();
        if o.len() < 64 && !o.contains(s) {
            o.insert(s.to_string());
        }
    }
    pub fn tally(&self, s: &str) {
        *self.tallies.lock().unwrap().entry(s.to_string()).or_default() += 1;
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            v.push(s);
        }
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    /// expensive extra explorations are skipped once a violation is known or a quick run is late
    pub fn spare(&self) -> bool {
        if !self.viol.lock().unwrap().is_empty() {
            return false;
        }
        if self.quick() && self.start.elapsed().as_secs() > 400 {
            self.tally("explorations skipped after 400 s");
            return false;
        }
        true
    }
    /// progress on stderr when asked for
    pub fn lap(&self, n: usize) {
        if std::env::var_os("MC_LAPS").is_some() {
            eprintln!("{:.1} s: {} more cases", self.start.elapsed().as_secs_f64(), n);
        }
    }
    pub fn beat(&self) {
        self.beat.store(self.start.elapsed().as_secs(), SeqCst);
    }
    fn skip(&self, name: &str) -> bool {
        match &self.only {
            Some(o) => name != o,
            None => self.viol.lock().unwrap().len() >= 40,
        }
    }
    pub fn fail(&self, name: &str, msg: String) {
        let s = self.seq.fetch_add(1, SeqCst);
        self.viol.lock().unwrap().push((s, name.to_string(), msg));
    }
    pub fn case(&self, name: &str, f: impl FnOnce() -> Res) {
        if self.skip(name) {
            return;
        }
        self.cases.fetch_add(1, SeqCst);
        self.running.lock().unwrap().insert(name.to_string());
        let r = catch_unwind(AssertUnwindSafe(f));
        self.running.lock().unwrap().remove(name);
        self.beat();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.fail(name, m),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                self.fail(name, format!("unexpected panic: {}", m))
            }
        }
    }
    /// Runs the named cases on all cores.
    pub fn par<T: Send + Sync>(
        &self,
        items: Vec<(String, T)>,
        f: impl Fn(&T) -> Res + Send + Sync,
    ) {
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        std::thread::scope(|s| {
            for _ in 0..n {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        let (name, it) = &items[i];
                        self.case(name, || f(it));
                    })
                    .unwrap();
            }
        });
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn run(prop: &str, assumptions: &[&str], exhaustive: bool, f: impl FnOnce(&Ctx) + Send) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    if tier != "quick" && tier != "thorough" {
        eprintln!("unknown tier {}", tier);
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let ctx = Ctx {
        prop: prop.into(),
        tier,
        only,
        states: Default::default(),
        transitions: Default::default(),
        traces: Default::default(),
        outcomes: Default::default(),
        cases: Default::default(),
        samples: Default::default(),
        viol: Default::default(),
        notes: Default::default(),
        tallies: Default::default(),
        seq: Default::default(),
        start: Instant::now(),
        beat: Default::default(),
        running: Default::default(),
        done: Default::default(),
    };
    let hang: u64 = ctx.t(400, 3600);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .spawn_scoped(s, || {
                while !ctx.done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let idle = ctx.start.elapsed().as_secs().saturating_sub(ctx.beat.load(SeqCst));
                    if idle > hang {
                        let r: Vec<String> = ctx.running.lock().unwrap().iter().cloned().collect();
                        ctx.fail(
                            r.get(0).map(|s| s.as_str()).unwrap_or("?"),
                            format!("no case finished for {} s (hang); running: {:?}", hang, r),
                        );
                        finish(&ctx, &[], false);
                    }
                }
            })
            .unwrap();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(|| f(&ctx))).is_ok())
            .unwrap();
        let ok = h.join().unwrap_or(false);
        ctx.done.store(true, SeqCst);
        if !ok {
            eprintln!("harness panicked outside a case");
            let v = ctx.viol.lock().unwrap().len();
            if v == 0 {
                std::process::exit(2);
            }
        }
    });
    finish(&ctx, assumptions, exhaustive)
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> case=<case name> <what fails>"
    let txt = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} case=", prop)) {
            let mut it = r.splitn(2, ' ');
            v.push((it.next().unwrap().to_string(), it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn finish(ctx: &Ctx, assumptions: &[&str], exhaustive: bool) -> ! {
    let mut viol = ctx.viol.lock().unwrap().clone();
    let known = known_findings(&ctx.prop);
    for (c, w) in &known {
        if viol.iter().any(|v| &v.1 == c) {
            println!("KNOWN-FINDING: property={} {} {}", ctx.prop, c, w);
        }
    }
    viol.retain(|v| !known.iter().any(|k| k.0 == v.1));
    viol.sort();
    let dir = verif_dir();
    let replay = dir.join("replays").join(format!("{}.txt", ctx.prop));
    let mut code = 0;
    if !viol.is_empty() {
        code = 1;
        let mut s = String::new();
        for (_, c, m) in &viol {
            s += &format!("case: {}\n  {}\n", c, m);
        }
        s += &format!(
            "\nreplay one case without the rest of the exploration:\n  cd /verif && ./check.sh {} {} --only '{}'\n",
            ctx.prop, ctx.tier, viol[0].1
        );
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let _ = std::fs::write(&replay, &s);
        for (_, c, m) in viol.iter().take(5) {
            let m: String = m.chars().take(600).collect();
            println!("case {}: {}", c, m);
        }
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let (st, tr, tc) =
        (ctx.states.load(SeqCst), ctx.transitions.load(SeqCst), ctx.traces.load(SeqCst));
    if ctx.only.is_none() {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = serde_json::json!({
            "property": ctx.prop,
            "tier": ctx.tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": st,
                "transitions": tr,
                "traces_validated_against_impl": tc,
                "cases": ctx.cases.load(SeqCst),
                "distinct_outcomes": ctx.outcomes.lock().unwrap().iter().cloned().collect::<Vec<_>>(),
                "samples": ctx.samples.lock().unwrap().clone(),
                "tallies": ctx.tallies.lock().unwrap().clone(),
                "notes": ctx.notes.lock().unwrap().clone(),
                "exhaustive": exhaustive && viol.is_empty(),
            },
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": viol.len(),
        });
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        let p = dir.join("evidence").join(format!("{}.json", ctx.prop));
        if std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            eprintln!("cannot write evidence");
            if code == 0 {
                code = 2;
            }
        }
    }
    println!(
        "{} {}: cases={} states={} transitions={} traces={} violations={} wall={:.1}s",
        ctx.prop,
        ctx.tier,
        ctx.cases.load(SeqCst),
        st,
        tr,
        tc,
        viol.len(),
        wall
    );
    if code == 1 {
        println!("VIOLATION property={} replay={}", ctx.prop, replay.display());
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
