//! Runs a property over generated cases on all cores, shrinks a failure, reports what was covered.
use crate::case::Case;
use crate::gen::Gen;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

thread_local! {
    static SLOT: usize = {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS
    };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CURRENT: Cell<*const Case> = const { Cell::new(std::ptr::null()) };
}

/// Calls the code under test. A panic there becomes `Err(message)`; a panic of the harness itself
/// is never caught and ends the run with an error exit.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_CALL.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(false));
    r.map_err(|_| format!("panicked: {}", PANIC.with(|p| p.take())))
}

extern "C" fn on_signal(sig: libc::c_int) {
    let c = CURRENT.with(|c| c.get());
    if !c.is_null() {
        let line = unsafe { format!("\nCRASHCASE {} {}\n", sig, (*c).line()) };
        unsafe { libc::write(1, line.as_ptr() as *const _, line.len()) };
    }
    unsafe { libc::_exit(70) }
}

pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        if IN_CALL.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = msg);
        } else {
            eprintln!("HARNESS ERROR: {}", msg);
            unsafe { libc::_exit(101) }
        }
    }));
    if cfg!(miri) {
        return;
    }
    for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGILL, libc::SIGBUS, libc::SIGFPE] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// What a check tells about one case.
#[derive(Default)]
pub struct Cx {
    labels: Vec<(&'static str, u64)>,
    nontrivial: bool,
    skipped: bool,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        for (k, n) in self.labels.iter_mut() {
            if std::ptr::eq(*k, l) {
                *n += 1;
                return;
            }
        }
        self.labels.push((l, 1));
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// The case is outside the property's domain (shrinking may produce such).
    pub fn skip(&mut self) -> Result<(), String> {
        self.skipped = true;
        Ok(())
    }
}

pub trait Prop: Sync {
    /// One generated case. `i` counts cases of the whole run, to let a property cycle over types.
    fn gen(&self, g: &mut Gen, i: u64) -> Case;
    /// `Err` describes the violation.
    fn check(&self, c: &Case, cx: &mut Cx) -> Result<(), String>;
    fn show(&self, c: &Case) -> String;
    /// Enumerated cases (exhaustive regions, boundary tables); `shard` of `shards`.
    fn fixed(&self, _shard: u64, _shards: u64, _thorough: bool, _f: &mut dyn FnMut(Case) -> bool) {}
    /// Whole domains with a cheaper oracle, in a deep run: counts what holds, returns what does not. The case is
    /// decided by `check`.
    fn sweep(&self, _shard: u64, _shards: u64, _n: &mut u64) -> Option<Case> {
        None
    }
    fn shrinks(&self, c: &Case) -> Vec<Case> {
        c.shrinks()
    }
    fn cases(&self, thorough: bool) -> u64;
    fn rule(&self) -> String;
}

pub struct Args {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<String>,
    pub out: Option<String>,
    pub scale: f64,
    pub sweep: bool,
}

pub fn args() -> Args {
    let mut a = Args {
        id: String::new(),
        seed: 1,
        thorough: false,
        replay: None,
        out: None,
        scale: 1.0,
        sweep: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("argument value");
        match x.as_str() {
            "--seed" => a.seed = val().parse().expect("seed"),
            "--sweep" => a.sweep = true,
            "--thorough" => a.thorough = true,
            "--replay" => a.replay = Some(val()),
            "--out" => a.out = Some(val()),
            "--scale" => a.scale = val().parse().expect("scale"),
            _ => a.id = x,
        }
    }
    a
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Cases being evaluated, one slot per worker, for the watchdog.
const SLOTS: usize = 64;
static RUNNING: [AtomicPtr<Case>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static TICKS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static DONE: AtomicBool = AtomicBool::new(false);
/// A call takes microseconds; one that takes this long is reported for a separate confirmation.
const HANG_S: u64 = 60;

/// Starts the watchdog of a process that runs cases without `main`.
pub fn watch() {
    std::thread::spawn(watchdog);
}

/// Ends the process with `HANGCASE <line>` if one case makes no progress for `HANG_S` seconds.
fn watchdog() {
    let mut last = [(0u64, 0u64); SLOTS];
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if DONE.load(Ordering::SeqCst) {
            return;
        }
        for i in 0..SLOTS {
            let t = TICKS[i].load(Ordering::SeqCst);
            let p = RUNNING[i].load(Ordering::SeqCst);
            if p.is_null() || last[i].0 != t {
                last[i] = (t, 0);
            } else {
                last[i].1 += 1;
                if last[i].1 >= HANG_S {
                    // the worker is stuck inside the evaluation of this very case
                    println!("\nHANGCASE {}", unsafe { (*p).line() });
                    unsafe { libc::_exit(71) }
                }
            }
        }
    }
}

const BITMAP_BITS: u64 = 1 << 28;
const SHARDS: u64 = 64;

struct Shard {
    evaluations: u64,
    fixed: u64,
    swept: u64,
    skipped: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    fail: Option<(Case, String)>,
    /// The latest cases, oldest first; in case a failure depends on them.
    past: VecDeque<Case>,
}
const PAST: usize = 64;

fn eval(p: &dyn Prop, c: &Case, cx: &mut Cx) -> Result<(), String> {
    CURRENT.with(|x| x.set(c));
    let slot = SLOT.with(|s| *s);
    TICKS[slot].fetch_add(1, Ordering::SeqCst);
    RUNNING[slot].store(c as *const Case as *mut Case, Ordering::SeqCst);
    cx.nontrivial = false;
    cx.skipped = false;
    let r = p.check(c, cx);
    RUNNING[slot].store(std::ptr::null_mut(), Ordering::SeqCst);
    CURRENT.with(|x| x.set(std::ptr::null()));
    r
}

fn shrink(p: &dyn Prop, mut c: Case, mut msg: String) -> (Case, String) {
    let mut budget = 20_000;
    let mut cx = Cx::default();
    'outer: loop {
        for k in p.shrinks(&c) {
            if budget == 0 {
                break 'outer;
            }
            budget -= 1;
            if let Err(m) = eval(p, &k, &mut cx) {
                c = k;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (c, msg)
}

/// One run of a coverage-guided fuzzer: `bytes` make every choice of the generator.
/// Ends the process like a whole run does when the case breaks the property.
pub fn fuzz_one(p: &dyn Prop, bytes: &[u8]) -> bool {
    let mut g = Gen::from_tape(bytes);
    let i = g.below(1 << 16);
    let c = p.gen(&mut g, i);
    let mut cx = Cx::default();
    if let Err(m) = eval(p, &c, &mut cx) {
        let (c, m) = shrink(p, c, m);
        println!("\nFAIL {}", c.line());
        println!("MESSAGE {}: {}", p.show(&c), m.replace('\n', " "));
        unsafe { libc::_exit(1) }
    }
    !cx.skipped
}

/// Returns the exit code: 0 held, 1 violated (a `FAIL` line with the case is printed).
pub fn main(find: impl Fn(&str) -> Option<Box<dyn Prop>>) -> i32 {
    init();
    let a = args();
    let p = find(&a.id).unwrap_or_else(|| panic!("no property {}", a.id));
    let p = &*p;
    if let Some(line) = &a.replay {
        // a long one is in a file
        let line = &match line.strip_prefix('@') {
            Some(file) => std::fs::read_to_string(file).expect("replay file"),
            None => line.clone(),
        };
        let mut cx = Cx::default();
        // one case, or several after one another
        for line in line.split('|') {
            let c = Case::parse(line).expect("replay line");
            println!("replaying {}", p.show(&c));
            if let Err(m) = eval(p, &c, &mut cx) {
                println!("FAIL {}", c.line());
                println!("MESSAGE {}: {}", p.show(&c), m.replace('\n', " "));
                return 1;
            }
        }
        println!("HOLDS{}", if cx.skipped { " (outside the domain)" } else { "" });
        return 0;
    }
    let total = ((p.cases(a.thorough) as f64 * a.scale) as u64).max(SHARDS);
    let bitmap: Vec<AtomicU64> = (0..BITMAP_BITS / 64).map(|_| AtomicU64::new(0)).collect();
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<Option<Shard>>> = Mutex::new((0..SHARDS).map(|_| None).collect());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::spawn(watchdog);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                if i >= SHARDS {
                    break;
                }
                let mut cx = Cx::default();
                let mut sh = Shard {
                    evaluations: 0,
                    fixed: 0,
                    swept: 0,
                    skipped: 0,
                    nontrivial: 0,
                    labels: BTreeMap::new(),
                    samples: vec![],
                    fail: None,
                    past: VecDeque::with_capacity(PAST + 1),
                };
                let one = |c: Case, sh: &mut Shard, cx: &mut Cx| -> bool {
                    let r = eval(p, &c, cx);
                    sh.evaluations += 1;
                    if cx.skipped {
                        sh.skipped += 1;
                    }
                    if cx.nontrivial {
                        sh.nontrivial += 1;
                        let h = c.hash() % BITMAP_BITS;
                        bitmap[(h / 64) as usize].fetch_or(1 << (h % 64), Ordering::Relaxed);
                        let (take, have) = if i % 16 == 0 && sh.fixed == 0 {
                            (sh.evaluations % 17 == 3, 1)
                        } else {
                            (sh.evaluations % 997 == 5, 2)
                        };
                        if take && sh.samples.len() < have && i % 4 == 0 {
                            sh.samples.push(p.show(&c));
                        }
                    }
                    if let Err(m) = r {
                        sh.fail = Some((c, m));
                        return false;
                    }
                    if sh.past.len() == PAST {
                        sh.past.pop_front();
                    }
                    sh.past.push_back(c);
                    true
                };
                let mut alive = true;
                p.fixed(i, SHARDS, a.thorough, &mut |c| {
                    if alive {
                        alive = one(c, &mut sh, &mut cx);
                    }
                    alive
                });
                sh.fixed = sh.evaluations + 1;
                if alive {
                    let mut g = Gen::new(a.seed.wrapping_mul(0x9e37_79b9).wrapping_add(i << 40));
                    let n = total / SHARDS;
                    for k in 0..n {
                        let c = p.gen(&mut g, i * n + k);
                        if !one(c, &mut sh, &mut cx) {
                            break;
                        }
                    }
                }
                if a.sweep && sh.fail.is_none() {
                    if let Some(c) = p.sweep(i, SHARDS, &mut sh.swept) {
                        let line = c.line();
                        if one(c, &mut sh, &mut cx) {
                            panic!("the check accepts what the sweep refuses: {}", line);
                        }
                    }
                }
                for (k, n) in cx.labels.iter() {
                    *sh.labels.entry(k).or_insert(0) += n;
                }
                results.lock().unwrap()[i as usize] = Some(sh);
            });
        }
    });
    let finish = |code: i32| {
        DONE.store(true, Ordering::SeqCst);
        code
    };
    let mut all: Vec<Shard> = results.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    let distinct: u64 = bitmap.iter().map(|x| x.load(Ordering::Relaxed).count_ones() as u64).sum();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut ev, mut fx, mut sk, mut nt, mut sw) = (0, 0, 0, 0, 0);
    let mut samples = vec![];
    for s in &mut all {
        ev += s.evaluations;
        fx += s.fixed - 1;
        sw += s.swept;
        sk += s.skipped;
        nt += s.nontrivial;
        for (k, n) in &s.labels {
            *labels.entry(k).or_insert(0) += n;
        }
        if samples.len() < 20 {
            samples.extend(s.samples.drain(..));
        }
    }
    let fail = all.into_iter().find_map(|s| s.fail.map(|f| (f, s.past)));
    if let Some(out) = &a.out {
        let l: Vec<String> = labels.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect();
        let s: Vec<String> = samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
        let j = format!(
            "{{\"evaluations\": {}, \"enumerated\": {}, \"whole_domain_evaluations\": {}, \"outside_domain\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"rule\": \"{}\", \"labels\": {{{}}}, \"samples\": [{}]}}",
            ev, fx, sw, sk, nt, distinct, esc(&p.rule()), l.join(", "), s.join(", ")
        );
        std::fs::write(out, j).expect("write summary");
    }
    match fail {
        None => {
            println!("OK {} evaluations={} distinct_nontrivial={}", a.id, ev, distinct);
            finish(0)
        }
        Some(((c, m), past)) => {
            let all: Vec<String> = past.iter().chain([&c]).map(|c| c.line()).collect();
            println!("HISTORY {}", all.join("|"));
            let (c, m) = shrink(p, c, m);
            println!("FAIL {}", c.line());
            println!("MESSAGE {}: {}", p.show(&c), m.replace('\n', " "));
            finish(1)
        }
    }
}
