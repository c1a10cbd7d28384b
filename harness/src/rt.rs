//! Runtime of a worker: runs cases one by one, remembers which one is running (so that a crash or
//! a hang can be attributed to it), counts what was covered and collects violations.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

pub const SLOT_SIZE: usize = 1 << 20;
static SLOT: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CASE_NO: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Outcome = Result<(), String>;
pub type RunFn = fn(&str, &str, &mut Stats) -> Outcome;

/// What the runner of a case reports besides its verdict.
#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub sets: BTreeMap<&'static str, HashSet<u64>>,
    pub notes: Vec<String>,
    recorded: bool,
}

impl Stats {
    #[inline]
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    #[inline]
    pub fn inc(&mut self, name: &'static str) {
        self.add(name, 1);
    }
    /// A state of the model, identified by its hash.
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.recorded = true;
        self.states.insert(h);
    }
    /// A state identified by what it prints.
    pub fn state_str(&mut self, s: &str) {
        let mut h = Fnv::new();
        h.bytes(s.as_bytes());
        self.state(h.0);
    }
}

pub struct Rt {
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub run: RunFn,
    pub stats: Stats,
    pub samples: BTreeMap<&'static str, Vec<String>>,
    pub violations: Vec<(String, String, String)>,
    pub cases: BTreeMap<&'static str, u64>,
    pub ordinal: u64,
    pub deadline: Instant,
    pub capped: bool,
    pub max_violations: usize,
    pub first: Option<Instant>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`; a panic is turned into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

pub fn forget_panic_message() {
    PANIC_MSG.with(|m| *m.borrow_mut() = String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_owned()
        };
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
    }));
}

pub fn cpu_seconds() -> f64 {
    let mut ts = [0i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

pub fn limit_memory(bytes: u64) {
    let lim = [bytes, bytes];
    // RLIMIT_AS
    unsafe { setrlimit(9, &lim) };
    let zero = [0, 0];
    // RLIMIT_CORE
    unsafe { setrlimit(4, &zero) };
}

pub fn open_slot(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot");
    f.set_len(SLOT_SIZE as u64).expect("slot size");
    // PROT_READ|PROT_WRITE, MAP_SHARED
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT_SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(!p.is_null() && p as isize != -1, "mmap");
    std::mem::forget(f);
    SLOT.store(p, Ordering::Relaxed);
}

fn write_slot(sub: &str, data: &str) {
    let p = SLOT.load(Ordering::Relaxed);
    CASE_NO.fetch_add(1, Ordering::Relaxed);
    if p.is_null() {
        return;
    }
    let dl = data.len().min(SLOT_SIZE - 4096);
    unsafe {
        // [0..8] length of sub, [8..16] length of data, 0 when idle
        (p as *mut u64).add(1).write_volatile(0);
        (p as *mut u64).write_volatile(sub.len() as u64);
        std::ptr::copy_nonoverlapping(sub.as_ptr(), p.add(16), sub.len());
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(16 + sub.len()), dl);
        (p as *mut u64).add(1).write_volatile(dl as u64 + 1);
    }
}

fn clear_slot() {
    let p = SLOT.load(Ordering::Relaxed);
    CASE_NO.fetch_add(1, Ordering::Relaxed);
    if !p.is_null() {
        unsafe { (p as *mut u64).add(1).write_volatile(0) };
    }
}

pub const EXIT_HANG: i32 = 77;

/// Ends the process when one case has used `secs` of processor time (or far more real time).
pub fn start_watchdog(secs: f64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since_cpu = cpu_seconds();
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = CASE_NO.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since_cpu = cpu_seconds();
                since = Instant::now();
                continue;
            }
            // odd numbers: a case is running
            if now % 2 == 1 && (cpu_seconds() - since_cpu > secs || since.elapsed().as_secs_f64() > secs * 8.0) {
                unsafe { _exit(EXIT_HANG) };
            }
        }
    });
}

impl Rt {
    pub fn new(tier: Tier, shard: u64, nshards: u64, run: RunFn, budget: Duration) -> Self {
        Self {
            tier,
            shard,
            nshards,
            run,
            stats: Stats::default(),
            samples: BTreeMap::new(),
            violations: Vec::new(),
            cases: BTreeMap::new(),
            ordinal: 0,
            deadline: Instant::now() + budget,
            capped: false,
            max_violations: 3,
            first: None,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    /// True when the next unit of work belongs to this shard.
    #[inline]
    pub fn mine(&mut self) -> bool {
        let o = self.ordinal;
        self.ordinal += 1;
        o % self.nshards == self.shard
    }

    #[inline]
    pub fn stop(&mut self) -> bool {
        self.violations.len() >= self.max_violations || self.capped || self.first.is_some_and(|t| t.elapsed().as_secs() >= 10)
    }

    /// Runs one case of this shard (whatever `mine` says).
    pub fn case(&mut self, sub: &'static str, data: &str) {
        if self.stop() {
            return;
        }
        let n = self.cases.entry(sub).or_insert(0);
        *n += 1;
        let k = *n;
        if k % 16 == 0 && Instant::now() > self.deadline {
            self.capped = true;
        }
        if k.is_power_of_two() && (k <= 2 || k >= 64) {
            let v = self.samples.entry(sub).or_default();
            if v.len() < 6 {
                let mut d: String = data.chars().take(120).collect();
                if d.len() < data.len() {
                    let _ = write!(d, "… ({} bytes)", data.len());
                }
                v.push(d);
            }
        }
        write_slot(sub, data);
        let run = self.run;
        let stats = &mut self.stats;
        let r = match guarded(|| run(sub, data, stats)) {
            Ok(r) => r,
            Err(msg) => Err(format!("panic: {msg}")),
        };
        clear_slot();
        if !self.stats.recorded {
            // a check without states of its own: the distinct cases
            let mut h = Fnv::new();
            h.bytes(sub.as_bytes());
            h.byte(0);
            h.bytes(data.as_bytes());
            self.stats.states.insert(h.0);
        }
        if let Err(msg) = r {
            self.violations.push((sub.to_owned(), data.to_owned(), msg));
            self.first = self.first.or_else(|| Some(Instant::now()));
        }
    }

    /// `case` for the cases of this shard only.
    #[inline]
    pub fn shared_case(&mut self, sub: &'static str, data: &str) {
        if self.mine() {
            self.case(sub, data);
        }
    }

    pub fn report(&self, config: &str) -> String {
        let mut s = String::new();
        s.push('{');
        let _ = write!(s, "\"config\":{},\"shard\":{},\"capped\":{},", js(config), self.shard, self.capped);
        s.push_str("\"cases\":{");
        join(&mut s, self.cases.iter().map(|(k, v)| format!("{}:{v}", js(k))));
        s.push_str("},\"counters\":{");
        join(&mut s, self.stats.counters.iter().map(|(k, v)| format!("{}:{v}", js(k))));
        s.push_str("},\"samples\":{");
        join(
            &mut s,
            self.samples
                .iter()
                .map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))),
        );
        s.push_str("},\"notes\":[");
        join(&mut s, self.stats.notes.iter().map(|x| js(x)));
        s.push_str("],\"violations\":[");
        join(
            &mut s,
            self.violations
                .iter()
                .map(|(a, b, c)| format!("{{\"sub\":{},\"data\":{},\"msg\":{}}}", js(a), js(b), js(c))),
        );
        s.push_str("]}");
        s
    }

    /// The hashes of the model states and of the named sets, for the union over shards.
    pub fn dump_sets(&self, path: &str) {
        let mut out: Vec<u8> = Vec::new();
        let mut put = |name: &str, set: &HashSet<u64>| {
            out.extend((name.len() as u64).to_le_bytes());
            out.extend(name.as_bytes());
            out.extend((set.len() as u64).to_le_bytes());
            for h in set {
                out.extend(h.to_le_bytes());
            }
        };
        put("model_states", &self.stats.states);
        for (k, v) in &self.stats.sets {
            put(k, v);
        }
        std::fs::write(path, out).expect("sets");
    }
}

/// Sizes of the unions of the sets in the given files, as JSON.
pub fn merge_sets(paths: &[String]) -> String {
    let mut all: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    for p in paths {
        let Ok(b) = std::fs::read(p) else { continue };
        let mut i = 0;
        let rd = |i: &mut usize| {
            let v = u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap());
            *i += 8;
            v as usize
        };
        while i < b.len() {
            let l = rd(&mut i);
            let name = String::from_utf8_lossy(&b[i..i + l]).into_owned();
            i += l;
            let n = rd(&mut i);
            let set = all.entry(name).or_default();
            for _ in 0..n {
                set.insert(rd(&mut i) as u64);
            }
        }
    }
    let mut s = String::from("{");
    join(&mut s, all.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())));
    s.push('}');
    s
}

fn join(s: &mut String, it: impl Iterator<Item = String>) {
    for (i, x) in it.enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
}

/// JSON string literal.
pub fn js(x: &str) -> String {
    let mut s = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// FNV-1a.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Self(0xcbf2_9ce4_8422_2325)
    }
    #[inline]
    pub fn byte(&mut self, b: u8) {
        self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    #[inline]
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.byte(x);
        }
    }
    #[inline]
    pub fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
}
