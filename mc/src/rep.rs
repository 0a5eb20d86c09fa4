//! Case enumeration over all cores, violation reports and replay, known findings, evidence files.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Lower bound of a number of distinct items: hashes into a bitmap.
pub struct Distinct {
    bits: Vec<AtomicU64>,
    n: AtomicU64,
}
const DISTINCT_LOG: u32 = 27;
impl Distinct {
    fn new() -> Self {
        Self { bits: (0..(1usize << (DISTINCT_LOG - 6))).map(|_| AtomicU64::new(0)).collect(), n: AtomicU64::new(0) }
    }
    pub fn add(&self, h: u64) {
        let k = (h >> (64 - DISTINCT_LOG)) as usize;
        let (w, m) = (&self.bits[k / 64], 1u64 << (k % 64));
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 {
            self.n.fetch_add(1, Relaxed);
        }
    }
    pub fn count(&self) -> u64 {
        self.n.load(Relaxed)
    }
}

pub enum Level {
    /// states, transitions, traces_validated_against_impl
    ModelChecking,
    /// evaluations, distinct_nontrivial
    Exploration,
    FaultEnumeration,
}

struct Viol {
    space: String,
    idx: u64,
    msg: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    level: Level,
    start: Instant,
    viols: Mutex<Vec<Viol>>,
    nviols: AtomicU64,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeMap<String, String>>,
    states: Distinct,
    cases: Distinct,
    trans: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    nontriv: AtomicBool,
    samples: Mutex<Vec<String>>,
    spaces: Mutex<Vec<(String, u64, f64)>>,
    replay: Option<(String, u64)>,
    replay_ran: AtomicBool,
    extra: Mutex<BTreeMap<String, String>>,
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// Runs `f`, turning a panic into its message and place.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// Crashes which are no panics (an abort, as when a destructor panics during a panic; a memory fault;
/// running out of memory) are violations too. The crashing worker tells its number and stops there; the
/// watchdog reports.
mod crash {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    pub static CRASHED: AtomicU64 = AtomicU64::new(0);
    thread_local! { pub static WORKER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        fn signal(sig: i32, handler: usize) -> usize;
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
        fn usleep(us: u32) -> i32;
    }
    extern "C" fn on_crash(sig: i32) {
        let w = WORKER.with(|w| w.get());
        if w == 0 {
            // not in a case
            unsafe { signal(sig, 0) };
            return;
        }
        let _ = CRASHED.compare_exchange(0, w | (sig as u64) << 32, SeqCst, SeqCst);
        loop {
            unsafe { usleep(100_000) };
        }
    }
    pub fn install(thorough: bool) {
        const SA_ONSTACK: i32 = 0x0800_0000;
        for sig in [6, 11, 7, 4, 8] {
            let a = SigAction { handler: on_crash as *const () as usize, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
            unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
        }
        let gb = (if thorough { 20u64 } else { 8 }) << 30;
        unsafe { setrlimit(9, &[gb, gb]) };
    }
    pub fn what(sig: u64) -> &'static str {
        match sig {
            6 => "the process aborts (a panic while unwinding, or no memory left)",
            11 | 7 => "memory fault or stack overflow",
            _ => "the process is killed by a fault",
        }
    }
}

/// What a case reports to.
pub struct Rec<'c> {
    ctx: &'c Ctx,
    space: &'c str,
    idx: u64,
    failed: u32,
    evals: u64,
    trans: u64,
    traces: u64,
}

impl<'c> Rec<'c> {
    pub fn fail(&mut self, msg: impl Into<String>) {
        self.failed += 1;
        self.ctx.violation(self.space, self.idx, msg.into());
    }
    /// A failure identified by `key`, which the known-findings file may list.
    pub fn fail_keyed(&mut self, key: &str, msg: impl Into<String>) {
        if self.ctx.known.iter().any(|(k, _)| k == key) {
            let mut s = self.ctx.known_seen.lock().unwrap();
            s.entry(key.into()).or_insert_with(|| msg.into());
        } else {
            self.fail(format!("[{key}] {}", msg.into()));
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.ctx.known.iter().any(|(k, _)| k == key)
    }
    pub fn failed(&self) -> bool {
        self.failed > 0
    }
    /// Counts a transition of the model (a step compared with the implementation).
    pub fn step(&mut self) {
        self.trans += 1;
    }
    pub fn state(&self, h: u64) {
        self.ctx.states.add(h);
    }
    /// A complete history which was run on the implementation and compared.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// One input tried; `h` identifies it when it is non-trivial.
    pub fn eval(&mut self, nontrivial: Option<u64>) {
        self.evals += 1;
        if let Some(h) = nontrivial {
            self.ctx.cases.add(h);
            if !self.ctx.nontriv.load(Relaxed) {
                self.ctx.nontriv.store(true, Relaxed);
            }
        }
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        self.ctx.sample(self.space, self.idx, f);
    }
}

impl Ctx {
    pub fn new(id: &'static str, level: Level) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        crash::install(tier == Tier::Thorough);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        std::panic::set_hook(Box::new(|i| {
            let m = i.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = m);
        }));
        let mut known = vec![];
        let kf = format!("{}/known_findings.txt", root());
        for line in std::fs::read_to_string(&kf).unwrap_or_default().lines() {
            // finding: property=<id> key=<key> <what fails>
            if let Some(r) = line.strip_prefix("finding: ") {
                let mut w = r.splitn(3, ' ');
                let (p, k, t) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
                if p == format!("property={id}") {
                    known.push((k.trim_start_matches("key=").to_string(), t.to_string()));
                }
            }
        }
        let mut replay = None;
        let args: Vec<String> = std::env::args().collect();
        if let Some(k) = args.iter().position(|a| a == "--replay") {
            let t = std::fs::read_to_string(&args[k + 1]).expect("replay file");
            let get = |key: &str| {
                t.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{key}\": "))).map(|v| v.trim_end_matches(',').trim_matches('"').to_string())
            };
            replay = Some((get("space").expect("space"), get("index").expect("index").parse().unwrap()));
        }
        Self {
            id,
            tier,
            seed,
            level,
            start: Instant::now(),
            viols: Mutex::new(vec![]),
            nviols: AtomicU64::new(0),
            known,
            known_seen: Mutex::new(BTreeMap::new()),
            states: Distinct::new(),
            cases: Distinct::new(),
            trans: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            nontriv: AtomicBool::new(false),
            samples: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            replay,
            replay_ran: AtomicBool::new(false),
            extra: Mutex::new(BTreeMap::new()),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn note(&self, key: &str, text: impl Into<String>) {
        self.extra.lock().unwrap().insert(key.into(), text.into());
    }

    fn sample(&self, space: &str, idx: u64, f: impl FnOnce() -> String) {
        let wanted = {
            let s = self.samples.lock().unwrap();
            s.iter().filter(|x| x.starts_with(&format!("{space}#"))).count() < 2 && s.len() < 40
        };
        if wanted {
            let t = format!("{space}#{idx}: {}", f());
            self.samples.lock().unwrap().push(t);
        }
    }

    fn violation(&self, space: &str, idx: u64, msg: String) {
        self.nviols.fetch_add(1, SeqCst);
        let mut v = self.viols.lock().unwrap();
        if v.len() < 8 {
            v.push(Viol { space: space.into(), idx, msg });
        }
    }

    /// Runs cases 0..n of a named space on all cores. Each case is wrapped: a panic or a case
    /// that does not return within `limit` seconds is a violation.
    pub fn space(&self, name: &str, n: u64, f: impl Fn(u64, &mut Rec) + Sync) {
        self.run_space(name, n, 30, false, f)
    }

    pub fn space_limit(&self, name: &str, n: u64, limit: u64, f: impl Fn(u64, &mut Rec) + Sync) {
        self.run_space(name, n, limit, false, f)
    }

    /// A space whose run produces the next one; it runs in a replay of a later one, too.
    pub fn space_search(&self, name: &str, n: u64, f: impl Fn(u64, &mut Rec) + Sync) {
        self.run_space(name, n, 30, true, f)
    }

    fn run_space(&self, name: &str, n: u64, limit: u64, search: bool, f: impl Fn(u64, &mut Rec) + Sync) {
        // a replay runs its one case the same way
        let (first, n) = match &self.replay {
            Some((s, i)) if s == name => {
                self.replay_ran.store(true, SeqCst);
                (*i, *i + 1)
            }
            Some(_) if !search || self.replay_ran.load(SeqCst) => return,
            _ => (0, n),
        };
        if self.nviols.load(SeqCst) > 0 || n == 0 {
            return;
        }
        let t0 = Instant::now();
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        let next = AtomicU64::new(first);
        let grain = (n / (threads as u64 * 64)).clamp(1, 4096);
        let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let since: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicUsize::new(threads);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (f, next, cur, since, live) = (&f, &next, &cur, &since, &live);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rec = Rec { ctx: self, space: name, idx: 0, failed: 0, evals: 0, trans: 0, traces: 0 };
                        crash::WORKER.with(|w| w.set(t as u64 + 1));
                        'outer: loop {
                            let a = next.fetch_add(grain, Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + grain).min(n) {
                                if self.nviols.load(Relaxed) > 3 {
                                    break 'outer;
                                }
                                rec.idx = i;
                                rec.failed = 0;
                                since[t].store(t0.elapsed().as_millis() as u64, Relaxed);
                                cur[t].store(i, Relaxed);
                                if let Err(p) = no_panic(|| f(i, &mut rec)) {
                                    rec.fail(format!("panic: {p}"));
                                }
                            }
                        }
                        crash::WORKER.with(|w| w.set(0));
                        cur[t].store(u64::MAX, Relaxed);
                        self.evals.fetch_add(rec.evals, Relaxed);
                        self.trans.fetch_add(rec.trans, Relaxed);
                        self.traces.fetch_add(rec.traces, Relaxed);
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                let c = crash::CRASHED.load(SeqCst);
                if c != 0 {
                    let i = cur[(c & 0xffff_ffff) as usize - 1].load(SeqCst);
                    let last = crash::what(c >> 32);
                    self.violation(name, i, last.into());
                    self.finish_now("(aborted: the process crashed)");
                }
                for t in 0..threads {
                    let i = cur[t].load(Relaxed);
                    if i != u64::MAX && now.saturating_sub(since[t].load(Relaxed)) > limit * 1000 && cur[t].load(Relaxed) == i {
                        self.violation(name, i, format!("the case did not return within {limit} s"));
                        self.finish_now("(aborted: a call did not return)");
                    }
                }
            }
        });
        let secs = t0.elapsed().as_secs_f64();
        self.spaces.lock().unwrap().push((name.into(), n, secs));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{name}: {n} cases {secs:.2}s");
        }
    }

    fn write_evidence(&self, rule: &str, assumptions: &[&str]) {
        let (lvl, cov) = match self.level {
            Level::ModelChecking => (
                "model_checking",
                format!(
                    "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}",
                    self.states.count(),
                    self.trans.load(SeqCst),
                    self.traces.load(SeqCst)
                ),
            ),
            Level::Exploration | Level::FaultEnumeration => (
                if matches!(self.level, Level::Exploration) { "exploration" } else { "fault_enumeration" },
                format!("\"evaluations\": {}, \"distinct_nontrivial\": {}", self.evals.load(SeqCst), self.cases.count()),
            ),
        };
        let spaces = self.spaces.lock().unwrap();
        let sp = spaces
            .iter()
            .map(|(n, c, s)| format!("{{\"space\": {}, \"cases\": {c}, \"seconds\": {s:.2}}}", json_str(n)))
            .collect::<Vec<_>>()
            .join(", ");
        let sam = self.samples.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
        let mut extra = String::new();
        for (k, v) in self.extra.lock().unwrap().iter() {
            let _ = write!(extra, ", {}: {}", json_str(k), json_str(v));
        }
        let t = format!(
            "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{lvl}\", \"coverage\": {{{cov}, \"exhaustive\": true, \"rule\": {}, \"spaces\": [{sp}], \"samples\": [{sam}]{extra}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            self.id,
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            json_str(rule),
            assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            self.nviols.load(SeqCst)
        );
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.id), t).expect("write evidence");
    }

    fn report(&self) -> i32 {
        for (k, what) in self.known_seen.lock().unwrap().iter() {
            let text = self.known.iter().find(|(kk, _)| kk == k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} [{}] ({})", self.id, text, k, what);
        }
        let v = self.viols.lock().unwrap();
        if v.is_empty() {
            return 0;
        }
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        for (n, x) in v.iter().enumerate() {
            let path = format!("{dir}/{}-{n}.json", self.id);
            let body = format!(
                "{{\n\"property\": \"{}\",\n\"space\": \"{}\",\n\"index\": {},\n\"tier\": \"{}\",\n\"what\": {}\n}}\n",
                self.id,
                x.space,
                x.idx,
                if self.thorough() { "thorough" } else { "quick" },
                json_str(&x.msg)
            );
            if self.replay.is_none() {
                let _ = std::fs::write(&path, body);
            }
            println!("{} case {}#{}: {}", self.id, x.space, x.idx, x.msg);
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        1
    }

    fn finish_now(&self, rule: &str) -> ! {
        if self.replay.is_none() {
            self.write_evidence(rule, &[]);
        }
        let c = self.report();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(c)
    }

    /// Writes the evidence, prints findings and violations, and exits.
    pub fn finish(self, rule: &str, assumptions: &[&str]) -> ! {
        if self.replay.is_some() {
            if !self.replay_ran.load(SeqCst) {
                eprintln!("replay: no such space in this check");
                std::process::exit(2);
            }
            let c = self.report();
            if c == 0 {
                println!("replay: the property held on this case");
            }
            std::process::exit(c);
        }
        self.write_evidence(rule, assumptions);
        let c = self.report();
        if c == 0 {
            let spaces = self.spaces.lock().unwrap();
            let cases: u64 = spaces.iter().map(|s| s.1).sum();
            println!(
                "{}: held on all {cases} cases of {} spaces ({} tier, {:.1} s)",
                self.id,
                spaces.len(),
                if self.thorough() { "thorough" } else { "quick" },
                self.start.elapsed().as_secs_f64()
            );
        }
        std::process::exit(c)
    }
}
