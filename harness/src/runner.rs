//! Runs cases on worker threads, classifies panics, watches for calls that never return or memory that
//! never stops growing, and writes evidence and replay files.
use crate::vclock;
use crate::world::{Finding, Props, World};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub findings: Vec<Finding>,
    pub cov: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub log: Vec<String>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, verbose: bool) -> Ctx {
        Ctx { seed, thorough, verbose, findings: vec![], cov: BTreeMap::new(), hash: 0, log: vec![] }
    }
    /// Takes over what a world observed.
    pub fn finish(&mut self, w: &World) {
        let mut m = w.m();
        self.findings.append(&mut m.findings);
        for (k, v) in std::mem::take(&mut m.cov) {
            *self.cov.entry(k).or_default() += v;
        }
        self.hash = crate::prng::mix(self.hash ^ m.hash);
        if let Some(l) = m.log.as_mut() {
            self.log.append(l)
        }
    }
    pub fn find(&mut self, props: Props, msg: String) {
        if self.verbose {
            self.log.push(format!("!! {props:?} {msg}"))
        }
        self.findings.push(Finding { props, msg })
    }
    pub fn cov_hash(&mut self, v: u64) {
        self.hash = crate::prng::mix(self.hash ^ v);
    }
    pub fn hit(&mut self, k: &'static str, n: u64) {
        *self.cov.entry(k).or_default() += n;
    }
}

pub type Family = (&'static str, fn(&mut Ctx));

pub struct Plan {
    pub id: &'static str,
    /// Family, quick cases, relative weight in thorough.
    pub fams: Vec<(&'static str, u64)>,
    /// A case counts as non-trivial for the property when all of one group of counters are non-zero.
    pub relevant: &'static [&'static [&'static str]],
    pub level: &'static str,
    pub rule: &'static str,
}

// ---- per-thread state for the watchdog and the panic hook --------------------------------------------

struct Slot {
    clock: AtomicI32,
    beat: AtomicU64,
    cpu_at_beat: AtomicU64,
    last: AtomicU64,
    cpu_at_start: AtomicU64,
    case: Mutex<Option<(&'static str, u64)>>,
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static CHECK: Mutex<Option<(String, String)>> = Mutex::new(None);
static ABORTING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static MINE: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn heartbeat() {
    MINE.with(|m| {
        if let Some(s) = m.borrow().as_ref() {
            s.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    });
}

thread_local! {
    static FATAL: RefCell<Vec<Finding>> = const { RefCell::new(Vec::new()) };
}

/// Ends the case at once: what was found makes going on pointless.
pub fn fatal(props: Props, msg: String) -> ! {
    FATAL.with(|f| f.borrow_mut().push(Finding { props, msg }));
    std::panic::resume_unwind(Box::new("case ended"))
}

fn cur_case() -> Option<(&'static str, u64)> {
    MINE.with(|m| m.borrow().as_ref().and_then(|s| *s.case.lock().unwrap()))
}

/// Ends the whole run with a violation that cannot be survived.
fn abort_run(case: Option<(&'static str, u64)>, msg: &str) -> ! {
    vclock::stop();
    if ABORTING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1))
        }
    }
    let (id, tier) = CHECK.lock().unwrap().clone().unwrap_or(("?".into(), "quick".into()));
    let (fam, seed) = case.unwrap_or(("?", 0));
    let path = replay_path(&id, 0);
    write_replay(&path, &id, &tier, fam, seed, &[msg.to_string()], &[]);
    println!("{msg} (family {fam}, seed {seed})");
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1)
}

pub fn memory_blown() {
    let c = cur_case();
    abort_run(c, "memory used on behalf of the peer grows without bound");
}

/// In some cases every message the library logs is really formatted, as a user's logger would.
struct Sink;
thread_local! {
    static LOGGED: Cell<(bool, u64)> = const { Cell::new((false, 0)) };
}
struct Bin(usize);
impl std::fmt::Write for Bin {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        // Bodies of frames need not be printed whole.
        if self.0 > 4096 {
            Err(std::fmt::Error)
        } else {
            Ok(())
        }
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGED.with(|l| l.get().0)
    }
    fn log(&self, r: &log::Record) {
        LOGGED.with(|l| {
            if l.get().0 {
                use std::fmt::Write;
                let _ = Bin(0).write_fmt(*r.args());
                l.set((true, l.get().1 + 1))
            }
        })
    }
    fn flush(&self) {}
}

fn install_hook() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|i| {
        crate::race::note_panic(i);
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let last = msg.contains("cannot unwind") || msg.contains("destructor during cleanup");
        let first = PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg))
            }
            p.clone().unwrap()
        });
        if last {
            // The process is about to be aborted: a second panic while the first unwinds.
            let (loc, msg) = first;
            if of_harness(&loc) {
                eprintln!("internal error: harness panic at {loc}: {msg}");
                std::process::exit(2)
            }
            abort_run(cur_case(), &format!("panic at {loc}: {msg} (and another one while unwinding)"))
        }
    }));
}

fn of_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

/// Forgets a panic that was expected.
pub fn clear_panic() {
    PANIC.with(|p| p.borrow_mut().take());
}

/// Runs one case; `Err` is a defect of the harness itself.
pub fn run_case(fam: &Family, seed: u64, thorough: bool, verbose: bool) -> Result<Ctx, String> {
    let mut c = Ctx::new(seed, thorough, verbose);
    MINE.with(|m| {
        if let Some(s) = m.borrow().as_ref() {
            s.cpu_at_start.store(vclock::read_clock(s.clock.load(SeqCst)) as u64, SeqCst);
            *s.case.lock().unwrap() = Some((fam.0, seed));
        }
    });
    heartbeat();
    clear_panic();
    crate::alloc::set_limit(3 << 30);
    LOGGED.with(|l| l.set((crate::prng::mix(seed ^ 0x10C) % 16 == 0, 0)));
    let r = catch_unwind(AssertUnwindSafe(|| (fam.1)(&mut c)));
    let (on, n) = LOGGED.with(|l| l.replace((false, 0)));
    if on {
        c.hit("log_records", n);
    }
    crate::alloc::set_limit(i64::MAX / 2);
    vclock::stop();
    heartbeat();
    let fatal = FATAL.with(|f| std::mem::take(&mut *f.borrow_mut()));
    if !fatal.is_empty() {
        if verbose {
            c.log.extend(fatal.iter().map(|f| format!("!! {:?} {}", f.props, f.msg)))
        }
        c.findings.extend(fatal);
    } else if r.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if of_harness(&loc) {
            return Err(format!("harness panic at {loc}: {msg}"));
        }
        c.findings.push(Finding { props: &["*"], msg: format!("panic at {loc}: {msg}") });
    }
    Ok(c)
}

pub fn verif_dir() -> String {
    std::env::var("YV_DIR").unwrap_or_else(|_| "/verif".into())
}

fn replay_path(id: &str, n: usize) -> String {
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    format!("{d}/replay-{id}-{n}.txt")
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "chk"
    } else {
        "release"
    }
}

fn report(id: &str, tier: &str, found: &[(&'static str, u64, Vec<String>)]) {
    for (n, (f, seed, msgs)) in found.iter().enumerate() {
        let path = replay_path(id, n);
        write_replay(&path, id, tier, f, *seed, msgs, &[]);
        for m in msgs.iter().take(5) {
            println!("{f} seed {seed}: {m}");
        }
        println!("VIOLATION property={id} replay={path}");
    }
}

fn write_replay(path: &str, id: &str, tier: &str, fam: &str, seed: u64, msgs: &[String], log: &[String]) {
    let mut s = format!("property {id}\nfamily {fam}\nseed {seed}\ntier {tier}\nprofile {}\n", profile());
    for m in msgs {
        s.push_str(&format!("finding {m}\n"));
    }
    s.push_str("--- trace\n");
    for l in log {
        s.push_str(l);
        s.push('\n');
    }
    let _ = std::fs::write(path, s);
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    out: Mutex<Out>,
}

#[derive(Default)]
struct Out {
    cases: u64,
    cov: BTreeMap<&'static str, u64>,
    per_fam: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    all_hashes: HashSet<u64>,
    samples: Vec<String>,
    found: Vec<(&'static str, u64, Vec<String>)>,
    other: BTreeMap<String, (u64, String)>,
    errors: Vec<String>,
    known: Vec<String>,
}

fn known_list(id: &str) -> Vec<String> {
    let f = format!("{}/known_findings.txt", verif_dir());
    let Ok(t) = std::fs::read_to_string(f) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} match=")))
        .map(|s| s.split(" ## ").next().unwrap().trim().to_string())
        .collect()
}

pub struct Args {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub budget: f64,
    pub scale: f64,
    pub threads: usize,
    pub evidence: bool,
    /// Write a summary of this run here.
    pub brief: String,
    /// Take a summary of another run into the evidence.
    pub extra: String,
    /// Development aid: stop at the first finding of any kind.
    pub first: bool,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(plan: Plan, fams: &'static [Family], a: Args) -> i32 {
    install_hook();
    let t0 = vclock::real();
    let thorough = a.tier == "thorough";
    *CHECK.lock().unwrap() = Some((a.id.clone(), a.tier.clone()));
    // The case list: families interleaved in proportion to their counts.
    let mut list: Vec<(&'static Family, u64)> = Vec::new();
    let mut todo: Vec<(&'static Family, u64, u64)> = plan
        .fams
        .iter()
        .map(|(n, k)| {
            let f = fams.iter().find(|f| f.0 == *n).unwrap_or_else(|| panic!("no family {n}"));
            (f, ((*k as f64 * a.scale).ceil() as u64).max(1), 0)
        })
        .collect();
    let total: u64 = todo.iter().map(|t| t.1).sum();
    for i in 0..total {
        let t = todo
            .iter_mut()
            .filter(|t| t.2 < t.1)
            .min_by(|x, y| ((x.2 + 1) * y.1).cmp(&((y.2 + 1) * x.1)))
            .unwrap();
        let _ = i;
        list.push((t.0, t.2));
        t.2 += 1;
    }
    let list = Arc::new(list);
    let sh = Arc::new(Shared { next: AtomicU64::new(0), stop: AtomicBool::new(false), out: Mutex::new(Out::default()) });
    let known = Arc::new(known_list(&a.id));
    let mut hs = Vec::new();
    let rel = plan.relevant;
    for _ in 0..a.threads {
        let first = a.first;
        let (sh, list, id, seed0, budget, known) = (sh.clone(), list.clone(), a.id.clone(), a.seed, a.budget, known.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let slot = Arc::new(Slot {
                        clock: AtomicI32::new(vclock::my_cpu_clock()),
                        beat: AtomicU64::new(0),
                        cpu_at_beat: AtomicU64::new(0),
                        last: AtomicU64::new(0),
                        cpu_at_start: AtomicU64::new(0),
                        case: Mutex::new(None),
                    });
                    SLOTS.lock().unwrap().push(slot.clone());
                    MINE.with(|m| *m.borrow_mut() = Some(slot.clone()));
                    loop {
                        if sh.stop.load(SeqCst) {
                            break;
                        }
                        let i = sh.next.fetch_add(1, SeqCst);
                        let el = (vclock::real() - t0) as f64 / 1e9;
                        if el > budget || (!thorough && i >= list.len() as u64) {
                            break;
                        }
                        let (f, k) = list[(i % list.len() as u64) as usize];
                        let round = i / list.len() as u64;
                        let seed = crate::prng::mix(
                            seed0.wrapping_mul(0x9E37_79B9) ^ crate::prng::mix(k + (round << 32)) ^ hash_str(f.0),
                        ) >> 1;
                        let r = run_case(f, seed, thorough, false);
                        let mut o = sh.out.lock().unwrap();
                        o.cases += 1;
                        *o.per_fam.entry(f.0).or_default() += 1;
                        match r {
                            Err(e) => {
                                if o.errors.len() < 20 {
                                    o.errors.push(format!("{} seed {seed}: {e}", f.0));
                                }
                                sh.stop.store(true, SeqCst);
                            }
                            Ok(c) => {
                                for (k, v) in &c.cov {
                                    *o.cov.entry(k).or_default() += v;
                                }
                                o.all_hashes.insert(c.hash);
                                let nt = rel.iter().any(|g| g.iter().all(|k| c.cov.get(k).map_or(false, |v| *v > 0)));
                                if nt && o.hashes.insert(c.hash) && (o.samples.len() < 4 || (o.samples.len() < 8 && !o.samples.iter().any(|s| s.starts_with(f.0)))) {
                                    let d: Vec<String> = c.cov.iter().map(|(k, v)| format!("{k}={v}")).collect();
                                    o.samples.push(format!("{} seed={seed} trace={:016x} {}", f.0, c.hash, d.join(" ")));
                                }
                                if first && !c.findings.is_empty() {
                                    sh.stop.store(true, SeqCst)
                                }
                                let mut mine = Vec::new();
                                for x in &c.findings {
                                    if x.props.contains(&"*") || x.props.contains(&id.as_str()) {
                                        if let Some(k) = known.iter().find(|k| x.msg.contains(k.as_str())) {
                                            if !o.known.contains(k) {
                                                o.known.push(k.clone())
                                            }
                                        } else {
                                            mine.push(x.msg.clone())
                                        }
                                    } else {
                                        let n = x.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>();
                                        let e = o.other.entry(format!("{:?} {n}", x.props)).or_default();
                                        e.0 += 1;
                                        e.1 = format!("{} {seed}", f.0);
                                    }
                                }
                                if !mine.is_empty() {
                                    o.found.push((f.0, seed, mine));
                                    if o.found.len() >= 5 {
                                        sh.stop.store(true, SeqCst)
                                    }
                                }
                            }
                        }
                    }
                    *slot.case.lock().unwrap() = None;
                })
                .unwrap(),
        );
    }
    // Watchdog: a single call that burns 40 s of CPU without returning control never will.
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let (sh2, id2, tier2) = (sh.clone(), a.id.clone(), a.tier.clone());
    let longest = if thorough { 900_000_000_000 } else { 240_000_000_000 };
    let found = |sh: &Shared| sh.out.try_lock().map_or(false, |o| !o.found.is_empty());
    let mut since: Option<std::time::Instant> = None;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if d2.load(SeqCst) {
            return;
        }
        for s in SLOTS.lock().unwrap().iter() {
            let c = *s.case.lock().unwrap();
            if c.is_none() {
                continue;
            }
            let cpu = vclock::read_clock(s.clock.load(SeqCst)) as u64;
            let b = s.beat.load(SeqCst);
            if b != s.last.load(SeqCst) {
                s.last.store(b, SeqCst);
                s.cpu_at_beat.store(cpu, SeqCst);
            } else if cpu.saturating_sub(s.cpu_at_beat.load(SeqCst)) > 40_000_000_000 {
                abort_run(c, "a call into the library does not return (40 s of CPU time)");
            }
            // Nor is there a case that takes this long on a healthy tree.
            if !found(&sh2) && cpu.saturating_sub(s.cpu_at_start.load(SeqCst)) > longest {
                abort_run(c, "the endpoint does not come to rest (one case goes on and on)");
            }
        }
        // Something is wrong already: do not wait for cases that take for ever because of it.
        if found(&sh2) {
            let n = *since.get_or_insert_with(std::time::Instant::now);
            if n.elapsed().as_secs() > 45 {
                let o = sh2.out.lock().unwrap();
                report(&id2, &tier2, &o.found);
                std::process::exit(1)
            }
        }
    });
    for h in hs {
        let _ = h.join();
    }
    done.store(true, SeqCst);
    let o = std::mem::take(&mut *sh.out.lock().unwrap());
    let mut out = std::io::stdout();
    let wall = (vclock::real() - t0) as f64 / 1e9;
    let _ = writeln!(out, "{} {} seed {}: {} cases, {} non-trivial distinct, {:.1} s ({})", a.id, a.tier, a.seed, o.cases, o.hashes.len(), wall, profile());
    let cov: Vec<String> = o.cov.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let _ = writeln!(out, "observed: {}", cov.join(" "));
    for (k, v) in &o.other {
        let _ = writeln!(out, "note (other properties): {}x {k} [{}]", v.0, v.1);
    }
    for k in &o.known {
        let _ = writeln!(out, "KNOWN-FINDING: property={} {k}", a.id);
    }
    let mut code = 0;
    if !o.found.is_empty() {
        report(&a.id, &a.tier, &o.found);
        code = 1;
        // Run again with a full trace, as long as that does not take for ever.
        std::thread::spawn(|| {
            std::thread::sleep(std::time::Duration::from_secs(60));
            std::process::exit(1)
        });
        for (n, (f, seed, msgs)) in o.found.iter().enumerate() {
            let fam = fams.iter().find(|x| x.0 == *f).unwrap();
            let log = run_case(fam, *seed, thorough, true).map(|c| c.log).unwrap_or_default();
            write_replay(&replay_path(&a.id, n), &a.id, &a.tier, f, *seed, msgs, &log);
        }
    }
    if code == 0 && !o.errors.is_empty() {
        for e in &o.errors {
            eprintln!("internal error: {e}");
        }
        code = 2;
    }
    if code == 0 && o.hashes.is_empty() {
        eprintln!("internal error: nothing relevant to {} was observed", a.id);
        code = 3;
    }
    if !a.brief.is_empty() {
        let cov: Vec<String> = o.cov.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let _ = std::fs::write(
            &a.brief,
            format!("{{\"profile\": {}, \"seed\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {wall:.2}, \"observed\": {{{}}}}}", js(profile()), a.seed, o.cases, o.hashes.len(), cov.join(", ")),
        );
    }
    if a.evidence {
        let extra = std::fs::read_to_string(&a.extra).unwrap_or_else(|_| "null".into());
        let fams: Vec<String> = o.per_fam.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let cov: Vec<String> = o.cov.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let samples: Vec<String> = o.samples.iter().map(|s| js(s)).collect();
        let e = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"distinct_traces\": {},\n  \"rule\": {},\n  \"cases_per_family\": {{{}}},\n  \"observed\": {{{}}},\n  \"other_build\": {extra},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the transport and executor of the harness behave like conforming AsyncRead/AsyncWrite and executors\", \"build profile {}\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            js(&a.id), js(&a.tier), a.seed, js(plan.level), o.cases, o.hashes.len(), o.all_hashes.len(), js(plan.rule),
            fams.join(", "), cov.join(", "), samples.join(", "), profile(), wall, o.found.len()
        );
        let d = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        if let Err(e) = std::fs::write(format!("{d}/{}.json", a.id), e) {
            eprintln!("cannot write evidence: {e}");
            code = 4;
        }
    }
    code
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| crate::prng::mix(h ^ b as u64))
}

pub fn replay(path: &str, fams: &'static [Family]) -> i32 {
    install_hook();
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    one(&get("family"), get("seed").parse().unwrap_or(0), get("tier") == "thorough", fams)
}

pub fn one(fam: &str, seed: u64, thorough: bool, fams: &'static [Family]) -> i32 {
    install_hook();
    let f = fams.iter().find(|f| f.0 == fam).expect("family");
    match run_case(f, seed, thorough, true) {
        Err(e) => {
            println!("{e}");
            2
        }
        Ok(c) => {
            for l in &c.log {
                println!("{l}")
            }
            println!("coverage {:?}", c.cov);
            for x in &c.findings {
                println!("FINDING {:?} {}", x.props, x.msg)
            }
            !c.findings.is_empty() as i32
        }
    }
}

/// Development aid: the most expensive cases of a family.
pub fn bench(fam: &str, n: u64, fams: &'static [Family]) -> i32 {
    install_hook();
    let f = fams.iter().find(|f| f.0 == fam).expect("family");
    let mut v = Vec::new();
    let mut sum = 0.0;
    for i in 0..n {
        let seed = crate::prng::mix(i + 77) >> 1;
        let a = vclock::real();
        let r = run_case(f, seed, false, false);
        let d = (vclock::real() - a) as f64 / 1e6;
        sum += d;
        if let Ok(c) = r {
            v.push((d, seed, format!("steps={:?} frames_tx={:?} bytes={:?} findings={}", c.cov.get("steps"), c.cov.get("frames_tx"), c.cov.get("bytes_tx"), c.findings.len())))
        }
    }
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    println!("{fam}: {:.1} ms per case", sum / n as f64);
    for x in v.iter().take(6) {
        println!("  {:.0} ms {} {}", x.0, x.1, x.2)
    }
    0
}
