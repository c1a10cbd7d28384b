//! Concurrent and re-entrant use of the real code under a controlled scheduler (see sched.c):
//! every schedule of each scenario up to a bound on preemptions, each in a process of its own.
#[allow(dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
mod share;
mod world;

use rt::{Fnv, Outcome, Rt, Stats, Tier};
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::Duration;

pub const MAXT: usize = 8;
const MAXTRACE: usize = 60000;
const TAB: usize = 1 << 20;
const CTAB: usize = 1 << 12;
const OUTSZ: usize = 1 << 16;

#[repr(C)]
#[derive(Clone, Copy)]
struct Step {
    cur: u8,
    chosen: u8,
    enabled: u8,
    kind: u8,
}

#[repr(C)]
struct Shared {
    nprefix: u32,
    mask: u32,
    quantum: u32,
    prefix: [u8; MAXTRACE],
    gen: u32,
    nconf: u32,
    conf: [u64; CTAB],
    ntrace: u32,
    status: u32,
    diverged: u32,
    points: u64,
    accesses: u64,
    switches: u64,
    futex_waits: u64,
    trace: [Step; MAXTRACE],
    outlen: u32,
    out: [u8; OUTSZ],
    nused: u32,
    used: [u32; TAB],
    tab: [[u64; 2]; TAB],
}

extern "C" {
    fn sched_init();
    fn sched_shared() -> *mut Shared;
    fn sched_shared_size() -> usize;
    fn sched_arena(on: i32);
    fn sched_threads(n: i32);
    fn sched_enter(t: i32);
    fn sched_leave();
    fn sched_go();
    fn sched_conflicts() -> i32;
    fn sched_forget_conflicts();
    fn sched_alloc(n: usize, align: usize) -> *mut u8;
    fn sched_free(p: *mut u8);
    fn sched_owns(p: *mut u8) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn personality(p: u64) -> i32;
    fn execv(p: *const i8, argv: *const *const i8) -> i32;
}

/// Memory comes from a region of its own for each thread and is never used again, so that the
/// addresses of an execution depend on nothing but the thread's own allocations.
struct Regions;
unsafe impl GlobalAlloc for Regions {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = sched_alloc(l.size(), l.align());
        if p.is_null() {
            System.alloc(l)
        } else {
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sched_owns(p) != 0 {
            sched_free(p);
        } else {
            System.dealloc(p, l);
        }
    }
}
#[global_allocator]
static A: Regions = Regions;

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED.load(Ordering::Relaxed) }
}

pub fn say(text: &str) {
    let s = shared();
    let n = text.len().min(OUTSZ);
    s.out[..n].copy_from_slice(&text.as_bytes()[..n]);
    s.outlen = n as u32;
}
fn said() -> String {
    let s = shared();
    String::from_utf8_lossy(&s.out[..s.outlen as usize]).into_owned()
}

/// Runs `f` in a new process; its exit code, or minus the signal.
pub fn in_child(f: impl FnOnce() -> i32) -> i32 {
    shared().outlen = 0;
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(20);
            let code = f();
            _exit(code);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f != 0 {
            -(st & 0x7f)
        } else {
            (st >> 8) & 0xff
        }
    }
}

/// What was said by `f` in a new process.
pub fn ask_child(f: impl FnOnce() -> String) -> Result<String, String> {
    let code = in_child(|| {
        say(&f());
        0
    });
    match code {
        0 => Ok(said()),
        c => Err(format!("ended with {c}")),
    }
}

/// A plan: for each thread its operations; an operation with what its user functions do in turn.
pub type Plan = Vec<Vec<Vec<u8>>>;

fn decode(data: &str) -> (Plan, u32) {
    let (a, b) = data.split_once('#').expect("bound");
    let plan = a
        .split('|')
        .map(|t| t.split(',').map(|o| o.split('>').map(|k| k.parse().expect("operation")).collect()).collect())
        .collect();
    (plan, b.parse().expect("bound"))
}

static SCHEDULE_LIMIT: AtomicU64 = AtomicU64::new(300_000);

/// One execution. Ok(()) when every thread got the answers it gets alone.
fn execute(plan: &Plan, prefix: &[u8]) -> Outcome {
    let s = shared();
    if s.mask as usize != TAB - 1 {
        s.mask = (1 << 13) - 1;
        let r = execute_once(plan, prefix);
        if s.status != 3 {
            return r;
        }
        // the small table of accesses is full
        s.mask = TAB as u32 - 1;
    }
    execute_once(plan, prefix)
}

fn execute_once(plan: &Plan, prefix: &[u8]) -> Outcome {
    let s = shared();
    if prefix.len() > MAXTRACE {
        return Err("the schedule is too long".into());
    }
    s.prefix[..prefix.len()].copy_from_slice(prefix);
    s.nprefix = prefix.len() as u32;
    let n = plan.len();
    unsafe { sched_threads(n as i32) };
    let code = in_child(|| {
        let mut handles = Vec::new();
        for (t, ops) in plan.clone().into_iter().enumerate() {
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                unsafe { sched_enter(t as i32) };
                let bad = world::thread(t, &ops);
                unsafe { sched_leave() };
                bad
            });
            match h {
                Ok(h) => handles.push(h),
                Err(e) => {
                    say(&format!("no thread: {e}"));
                    return 3;
                }
            }
        }
        unsafe { sched_go() };
        let mut bad = Vec::new();
        for h in handles {
            match h.join() {
                Ok(b) => bad.extend(b),
                Err(_) => bad.push("a thread ended in a panic".into()),
            }
        }
        if bad.is_empty() {
            bad.extend(world::afterwards(n));
        }
        if bad.is_empty() {
            0
        } else {
            say(&bad.join("; "));
            1
        }
    });
    let steps = || s.trace[..s.ntrace as usize].iter().map(|x| char::from(b'0' + x.chosen)).collect::<String>();
    match (code, s.status) {
        (0, 0) => Ok(()),
        (1, 0) => Err(format!("{} [schedule {}]", said(), steps())),
        (_, 1) => Err(format!("deadlock: every thread waits for another one [schedule {}]", steps())),
        (_, 2) => Err("no end: more than 60000 scheduling points".into()),
        (_, 4) => Err(format!("memory is freed twice, or is not a block [schedule {}]", steps())),
        (3, _) => panic!("{}", said()),
        (_, 3) if (s.mask as usize) < TAB - 1 => Ok(()),
        (_, 3) => panic!("the table of accesses is full"),
        (_, 5) => Err("an operation uses more than 32 MB".into()),
        (c, _) if c == -14 => Err(format!("no end after 20 s [schedule {}]", steps())),
        (c, _) => Err(format!("the process ended with {c} [schedule {}]", steps())),
    }
}

/// Every schedule of the scenario with at most `bound` preemptions.
fn explore(data: &str, st: &mut Stats) -> Outcome {
    let (plan, bound) = decode(data);
    let s = shared();
    unsafe { sched_forget_conflicts() };
    s.mask = 0;
    let base = {
        let mut h = Fnv::new();
        h.bytes(data.as_bytes());
        h
    };
    'again: loop {
        let known = s.nconf;
        let mut todo: Vec<(Vec<u8>, u32)> = vec![(Vec::new(), 0)];
        let mut n = 0;
        let mut hashes = Vec::new();
        while let Some((prefix, used)) = todo.pop() {
            s.points = 0;
            s.accesses = 0;
            s.switches = 0;
            s.futex_waits = 0;
            execute(&plan, &prefix)?;
            n += 1;
            st.inc("executions");
            st.add("scheduling_points", s.points);
            st.add("accesses", s.accesses);
            st.add("switches", s.switches);
            st.add("waits", s.futex_waits);
            st.add("diverged", u64::from(s.diverged));
            let fresh = unsafe { sched_conflicts() };
            assert!(fresh >= 0, "too many addresses in conflict");
            if s.nconf != known {
                st.inc("conflict_rounds");
                continue 'again;
            }
            let trace = &s.trace[..s.ntrace as usize];
            let mut h = base;
            for x in trace {
                h.byte(x.chosen);
            }
            hashes.push(h.0);
            let mut cost = used;
            for i in prefix.len()..trace.len() {
                let x = trace[i];
                let forced = x.kind & 128 != 0;
                for alt in 0..MAXT as u8 {
                    if x.enabled >> alt & 1 == 0 || alt == x.chosen || (forced && alt == x.cur) {
                        continue;
                    }
                    let c = cost + u32::from(x.cur != 255 && alt != x.cur && !forced);
                    if c > bound {
                        continue;
                    }
                    let mut p: Vec<u8> = trace[..i].iter().map(|y| y.chosen).collect();
                    p.push(alt);
                    todo.push((p, c));
                }
                // the default is never a preemption
                cost += u32::from(x.cur != 255 && x.chosen != x.cur && !forced);
            }
            if n > SCHEDULE_LIMIT.load(Ordering::Relaxed) {
                st.inc("scenarios_cut_off");
                break;
            }
        }
        st.add("schedules", n);
        st.add("conflicting_words", u64::from(s.nconf));
        for h in hashes {
            st.state(h);
        }
        return Ok(());
    }
}

/// Threads taking turns, each for `k` scheduling points, for every k (beyond 48, every tenth part
/// more) up to where no turn ends early: all threads are half way through at the same time.
fn explore_turns(data: &str, st: &mut Stats) -> Outcome {
    let (plan, _) = decode(data);
    let s = shared();
    unsafe { sched_forget_conflicts() };
    s.mask = 0;
    let mut h0 = Fnv::new();
    h0.bytes(data.as_bytes());
    let (mut k, mut rounds) = (1u32, 0);
    loop {
        s.points = 0;
        s.accesses = 0;
        s.switches = 0;
        s.futex_waits = 0;
        s.quantum = k;
        let r = execute(&plan, &[]);
        s.quantum = 0;
        r.map_err(|e| format!("turns of {k} points: {e}"))?;
        st.inc("executions");
        st.add("scheduling_points", s.points);
        st.add("accesses", s.accesses);
        st.add("switches", s.switches);
        st.add("waits", s.futex_waits);
        let known = s.nconf;
        assert!(unsafe { sched_conflicts() } >= 0, "too many addresses in conflict");
        if s.nconf != known && rounds < 50 {
            st.inc("conflict_rounds");
            rounds += 1;
            continue;
        }
        st.inc("schedules");
        let mut h = h0;
        let mut early = false;
        for x in &s.trace[..s.ntrace as usize] {
            h.byte(x.chosen);
            early |= x.cur != 255 && x.chosen != x.cur;
        }
        st.state(h.0);
        if !early {
            return Ok(());
        }
        k += if k < 48 { 1 } else { k / 10 };
    }
}

fn run(sub: &str, data: &str, st: &mut Stats) -> Outcome {
    match sub {
        "alone" => world::alone_check(data),
        "share" => share::check(data),
        "turns" => explore_turns(data, st),
        _ => explore(data, st),
    }
}

fn enumerate(rt: &mut Rt) {
    let ops = world::OPS as u8;
    for what in share::NAMES {
        rt.shared_case("share", what);
    }
    for a in 0..ops {
        for slot in 0..world::SLOTS {
            rt.shared_case("alone", &format!("{a},{slot}"));
        }
    }
    // re-entrance
    for a in 0..ops {
        for b in 0..ops {
            for c in 0..ops {
                if world::calls(a) && world::calls(b) {
                    rt.shared_case("reenter", &format!("{a}>{b}>{c}#0"));
                    if !rt.quick() && world::calls(c) {
                        for d in 0..ops {
                            rt.shared_case("reenter", &format!("{a}>{b}>{c}>{d}#0"));
                        }
                    }
                }
            }
        }
    }
    // a user function that comes back again and again
    for a in (0..ops).filter(|&a| world::calls(a)) {
        for b in 0..ops {
            for n in (4..=rt.pick(12, 24)).chain([33, 65]) {
                let chain: Vec<String> = (0..n).map(|i| if i % 2 == 1 && world::calls(b) { b } else { a }.to_string()).collect();
                rt.shared_case("reenter", &format!("{}>{b}#0", chain.join(">")));
            }
        }
    }
    // many threads half way through, deep in an expression
    let all = (world::OPS + world::DEEP) as u8;
    for a in 0..all {
        for n in [2, 3, 8] {
            rt.shared_case("turns", &format!("{}#0", vec![a.to_string(); n].join("|")));
        }
        for b in 0..a {
            rt.shared_case("turns", &format!("{}#0", (0..8).map(|i| [a, b][i % 2].to_string()).collect::<Vec<_>>().join("|")));
        }
    }
    for first in 0..all {
        rt.shared_case("turns", &format!("{}#0", (0..8).map(|i| ((first + i * 3) % all).to_string()).collect::<Vec<_>>().join("|")));
    }
    let bound = rt.pick(2, 3);
    for a in 0..ops {
        for b in a..ops {
            rt.shared_case("two threads", &format!("{a}|{b}#{bound}"));
        }
    }
    // a user function that comes back while another thread is at work
    for a in (0..ops).filter(|&a| world::calls(a)) {
        for b in 0..ops {
            for c in 0..ops {
                rt.shared_case("re-entrance and a thread", &format!("{a}>{b}|{c}#{}", rt.pick(1, 2)));
            }
        }
    }
    for a in 0..ops {
        for b in 0..ops {
            for c in 0..ops {
                rt.shared_case("two operations and one", &format!("{a},{b}|{c}#{}", rt.pick(1, 2)));
            }
        }
    }
    for a in 0..ops {
        for b in a..ops {
            for c in b..ops {
                rt.shared_case("three threads", &format!("{a}|{b}|{c}#{}", rt.pick(1, 2)));
            }
        }
    }
    if !rt.quick() {
        for a in 0..ops {
            for b in 0..ops {
                for c in 0..ops {
                    for d in 0..ops {
                        rt.shared_case("two operations each", &format!("{a},{b}|{c},{d}#1"));
                    }
                }
            }
        }
    }
}

fn config() -> String {
    format!(
        "nightly-{}-{}-instrumented",
        if cfg!(feature = "pejmdas") { "pejmdas" } else { "pemdas" },
        if cfg!(feature = "opt") { "opt" } else { "noopt" }
    )
}

/// The same addresses in every execution.
fn without_randomised_addresses() {
    unsafe {
        const NO_RANDOMIZE: u64 = 0x0004_0000;
        let p = personality(0xffff_ffff);
        if p < 0 || p as u64 & NO_RANDOMIZE != 0 || std::env::var_os("XPRS_SCHED_ASLR").is_some() {
            return;
        }
        if personality(p as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
        std::env::set_var("XPRS_SCHED_ASLR", "off");
        let args: Vec<CString> = std::env::args().map(|a| CString::new(a).unwrap()).collect();
        let mut v: Vec<*const i8> = args.iter().map(|a| a.as_ptr()).collect();
        v.push(std::ptr::null());
        execv(c"/proc/self/exe".as_ptr(), v.as_ptr());
    }
}

fn main() {
    std::process::exit(real_main());
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if args.first().map(String::as_str) == Some("merge") {
        println!("{}", rt::merge_sets(&args[1..]));
        return 0;
    }
    without_randomised_addresses();
    unsafe {
        sched_init();
        assert_eq!(sched_shared_size(), std::mem::size_of::<Shared>());
        SHARED.store(sched_shared(), Ordering::Relaxed);
    }
    rt::install_panic_hook();
    unsafe { sched_arena(1) };
    world::build();
    unsafe { sched_arena(0) };
    world::learn();
    match args.first().map(String::as_str) {
        Some("run") => {
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let shard = opt("--shard").unwrap_or_else(|| "0/1".into());
            let (a, b) = shard.split_once('/').expect("--shard i/n");
            let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(3600);
            if let Some(p) = opt("--slot") {
                rt::open_slot(&p);
            }
            let mut rt = Rt::new(tier, a.parse().expect("shard"), b.parse().expect("shards"), run, Duration::from_secs(budget));
            if tier == Tier::Quick {
                SCHEDULE_LIMIT.store(20_000, Ordering::Relaxed);
            }
            enumerate(&mut rt);
            if rt.stats.counters.get("scenarios_cut_off").is_some() {
                rt.capped = true;
            }
            let out = opt("--out").expect("--out");
            rt.dump_sets(&format!("{out}.sets"));
            std::fs::write(&out, rt.report(&config())).expect("report");
            0
        }
        Some("replay") => {
            let data = std::fs::read_to_string(&args[3]).expect("data");
            let mut st = Stats::default();
            match run(&args[2], &data, &mut st) {
                Ok(()) => {
                    println!("holds {:?}", st.counters);
                    0
                }
                Err(e) => {
                    println!("violated: {e}");
                    1
                }
            }
        }
        _ => 3,
    }
}
