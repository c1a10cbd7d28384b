//! The objects shared by the threads, and the operations on them.
use crate::{ask_child, rt};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::Arc;
use xprs::{xprs_fn, Context, Function, Parser, Xprs};

extern "C" {
    fn sched_point();
}

pub const OPS: usize = 16;
/// Operations on deep expressions, which follow the others.
pub const DEEP: usize = 4;
const LEVELS: usize = 300;
/// Where the work grows with the square.
const SOME: usize = 40;
pub const SLOTS: usize = 8;
const XS: [f64; SLOTS] = [3.0, 4.0, 5.0, 2.0, 6.0, 7.0, 1.0, 8.0];
const YS: [f64; SLOTS] = [2.5, 0.5, 7.0, 1.25, 3.5, 0.75, 9.0, 4.5];
const GOOD: [&str; SLOTS] =
    ["k(x)*2-m(y,1)", "x^2+k(3)+y", "m(x,x,y)-c", "h(x)/y", "-k(-x)y", "m()+k(k(y))x", "(x+y)m(1,2,3)", "max(k(x),h(2),y)"];
const BAD: [&str; SLOTS] = ["k(x", "x + $", "k(1,2)", "1..2", "h()", "", "m(x,)", "x)"];
const PLAIN: [&str; SLOTS] = ["x+y*2", "sin(x)^y", "max(x,y,3)", "x!/y", "-x%y", "(x+1)(y-1)", "2x+3y", "ln(x)+y"];
const E1: &str = "k(x)+m(x,y,2)*h(y)-x!";
const E2: &str = "h(y)^2-max(x,y)/k(2)";
const E3: &str = "x!+gamma(y)+max(x,y,3)%2+ln(y)*hypot(x,y)";

/// A function built from an expression is shared here whether or not its type promises that it may
/// be: the case `share` is about the promise, the schedules about what happens.
struct Shared<F>(F);

unsafe impl<F> Send for Shared<F> {}
unsafe impl<F> Sync for Shared<F> {}

impl<F> Shared<F> {
    fn get(&self) -> &F {
        &self.0
    }
}

struct World {
    ctx: Context<'static>,
    p: Parser<'static>,
    e1: Xprs<'static>,
    e1b: Xprs<'static>,
    e2: Xprs<'static>,
    e3: Xprs<'static>,
    g: Box<dyn Fn(f64, f64) -> f64>,
    token: Arc<()>,
    good: Vec<String>,
    deep: Vec<String>,
    nested: Xprs<'static>,
    long: Xprs<'static>,
    some: Xprs<'static>,
}

fn nest(open: &str, core: &str, close: &str, n: usize) -> String {
    format!("{}{core}{}", open.repeat(n), close.repeat(n))
}
static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());
static ALONE: AtomicPtr<Vec<Vec<String>>> = AtomicPtr::new(std::ptr::null_mut());

fn world() -> &'static World {
    unsafe { &*WORLD.load(Ordering::Relaxed) }
}

thread_local! {
    static NEST: Cell<(*const u8, usize, usize)> = const { Cell::new((std::ptr::null(), 0, 0)) };
    static BAD_ANSWERS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// What a user function does besides computing: the next operation of the plan.
fn called() {
    unsafe { sched_point() };
    let (p, n, slot) = NEST.get();
    if n == 0 {
        return;
    }
    let op = unsafe { *p };
    let slot2 = (slot + 3) % SLOTS;
    NEST.set((unsafe { p.add(1) }, n - 1, slot2));
    checked(op, slot2);
    // in a long plan only the first call of an operation comes back, the work doubles otherwise
    NEST.set((p, if n > 4 { 0 } else { n }, slot));
    unsafe { sched_point() };
}

fn checked(op: u8, slot: usize) {
    let got = answer(op, slot);
    let want = unsafe { &(&*ALONE.load(Ordering::Relaxed))[op as usize][slot] };
    if got != *want {
        BAD_ANSWERS.with(|b| b.borrow_mut().push(format!("operation {op} ({}) answers {got:?}, alone {want:?}", name(op))));
    }
}

fn k(a: &[f64]) -> f64 {
    called();
    a[0] * 2.0 + 1.0
}

pub fn build() {
    let token = Arc::new(());
    let t = token.clone();
    let inner = Parser::new_with_ctx(Context::default().with_fn(Function::new_static("k", k, Some(1)))).parse("k(x)-x/3").expect("inner").bind("x").expect("bind");
    let inner = Shared(inner);
    let inner = move |v| inner.get()(v);
    let ctx = Context::default()
        .with_var("c", 1.5)
        .with_fn(Function::new_static("k", k, Some(1)))
        .with_fn(Function::new_dyn(
            "m",
            move |a| {
                let _ = &t;
                called();
                a.iter().enumerate().map(|(i, v)| v * (i + 1) as f64).sum::<f64>() + a.len() as f64
            },
            None,
        ))
        .with_fn(xprs_fn!("h", dyn inner, 1));
    let p = Parser::new_with_ctx(ctx.clone());
    let e1 = p.parse(E1).expect("e1");
    let w = World {
        e1b: p.parse(&*String::from(E1).leak()).expect("e1"),
        e2: p.parse(E2).expect("e2"),
        e3: p.parse(E3).expect("e3"),
        g: Box::new(p.parse("x*k(y)-m(y)!").expect("g").bind2("y", "x").expect("bind")),
        deep: ["x+c", "-y", "k(x)", "x!", "m(x,y)", "max(x)", "x-y", "2x"]
            .iter()
            .zip([("c*(", ")"), ("abs(", ")"), ("-", ""), ("m(1,", ")"), ("max(", ",y)"), ("x-(y+", ")"), ("", "+x"), ("x(", ")")])
            .map(|(core, (a, b))| nest("(", &nest(a, core, b, SOME), ")", LEVELS))
            .collect(),
        nested: p.parse(&*nest("x-(", "y", ")", LEVELS).leak()).expect("nested"),
        long: p.parse(&*nest("", "y", "+x", LEVELS).leak()).expect("long"),
        some: p.parse(&*nest("x-y/(", "y", "+x)", SOME).leak()).expect("some"),
        good: GOOD.iter().map(|s| (*s).to_owned()).collect(),
        e1,
        ctx,
        p,
        token,
    };
    WORLD.store(Box::into_raw(Box::new(w)), Ordering::Relaxed);
}

pub fn name(op: u8) -> &'static str {
    [
        "evaluate", "evaluate unchecked", "call a bound function", "parse", "parse what is wrong", "simplify a clone", "print", "compare",
        "evaluate with a value missing", "bind to a slice", "extend a clone of the context", "bind a clone", "built-ins", "parse the same text",
        "parse with a default parser", "simplify in place", "parse a deep expression", "evaluate deep expressions", "print and compare deep expressions",
        "simplify deep expressions",
    ][op as usize]
}

/// Whether user functions are called by the operation.
pub fn calls(op: u8) -> bool {
    !matches!(op, 4 | 6 | 7 | 8 | 12 | 14 | 16..)
}

fn num(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{v:?}")
    }
}

fn vars(e: &Xprs<'_>) -> String {
    let mut v: Vec<&str> = e.vars.iter().copied().collect();
    v.sort_unstable();
    v.join(",")
}

fn op(op: u8, slot: usize) -> String {
    let w = world();
    let (x, y) = (XS[slot], YS[slot]);
    let env: HashMap<&str, f64> = [("x", x), ("y", y)].into();
    let ev = |e: &Xprs<'_>| match e.eval(&env) {
        Ok(v) => num(v),
        Err(e) => format!("error {e}"),
    };
    match op {
        0 => ev(&w.e1),
        1 => num(w.e1.eval_unchecked(&env)),
        2 => num((w.g)(y, x)),
        3 => match w.p.parse(&w.good[slot]) {
            Ok(e) => format!("{e} {} {}", vars(&e), ev(&e)),
            Err(e) => format!("error {e}"),
        },
        4 => match w.p.parse(BAD[slot]) {
            Ok(e) => format!("accepted {e}"),
            Err(e) => format!("{e} {e:?}"),
        },
        5 => {
            let e = w.e1.clone().simplify_for(("x", x));
            format!("{e} {} {}", vars(&e), ev(&e))
        }
        6 => format!("{} {} {}", w.e1, w.e2, vars(&w.e1)),
        7 => format!("{} {} {} {}", w.e1 == w.e1b, w.e1 == w.e2, w.ctx == *w.p.ctx(), w.ctx == Context::default()),
        8 => {
            let some: HashMap<&str, f64> = [("y", y)].into();
            let a = match w.e1.eval(&some) {
                Ok(v) => num(v),
                Err(e) => format!("error {e}"),
            };
            let b = match w.e1.clone().bind("y") {
                Ok(_) => "bound".to_owned(),
                Err(e) => format!("error {e}"),
            };
            format!("{a} {b}")
        }
        9 => {
            let names = ["y", "z", "x"];
            let r = match w.e2.clone().bind_n_runtime(&names) {
                Ok(f) => match f(&[y, 0.0, x]) {
                    Ok(v) => num(v),
                    Err(e) => format!("error {e}"),
                },
                Err(e) => format!("error {e}"),
            };
            r
        }
        10 => {
            let mut c = w.ctx.clone();
            c.set_var("x", x);
            c.set_fn(Function::new_static("n", |a| a[0] - 1.0, Some(1)));
            let same = c == w.ctx;
            let p = Parser::new_with_ctx(c);
            let r = match p.parse("k(x)+n(y)*c") {
                Ok(e) => format!("{e} {} {} {same}", vars(&e), ev(&e)),
                Err(e) => format!("error {e}"),
            };
            r
        }
        11 => match w.e1.clone().bind2("y", "x") {
            Ok(f) => format!("{} {}", num(f(y, x)), num(f(y + 1.0, x))),
            Err(e) => format!("error {e}"),
        },
        12 => ev(&w.e3),
        13 => match w.p.parse(E1) {
            Ok(e) => format!("{} {} {}", e == w.e1, e == w.e2, ev(&e)),
            Err(e) => format!("error {e}"),
        },
        14 => {
            let a = match Parser::default().parse(PLAIN[slot]) {
                Ok(e) => format!("{e} {}", ev(&e)),
                Err(e) => format!("error {e}"),
            };
            let b = match Xprs::try_from(PLAIN[(slot + 1) % SLOTS]) {
                Ok(e) => format!("{e} {}", ev(&e)),
                Err(e) => format!("error {e}"),
            };
            format!("{a} {b}")
        }
        15 => {
            let mut e = w.e2.clone();
            e.simplify_for_multiple_in_place(&[("y", y), ("x", x)]);
            match e.eval_no_vars() {
                Ok(v) => format!("{e} {}", num(v)),
                Err(err) => format!("{e} error {err}"),
            }
        }
        16 => match w.p.parse(&w.deep[slot]) {
            Ok(e) => format!("{} {}", vars(&e), ev(&e)),
            Err(e) => format!("error {e}"),
        },
        17 => {
            let f = w.nested.clone().bind2("y", "x").map_or_else(|e| format!("error {e}"), |f| num(f(y, x)));
            format!("{} {} {} {f}", ev(&w.nested), num(w.long.eval_unchecked(&env)), ev(&w.long))
        }
        18 => format!("{} {} {} {}", w.nested, w.long, w.nested == w.long, w.long == w.long.clone()),
        19 => {
            let a = w.some.clone().simplify_for(("x", x));
            let mut b = w.some.clone();
            b.simplify_for_multiple_in_place(&[("y", y), ("x", x)]);
            format!("{} {} {}", ev(&a), vars(&a), ev(&b))
        }
        _ => unreachable!(),
    }
}

pub fn answer(o: u8, slot: usize) -> String {
    rt::guarded(|| op(o, slot)).unwrap_or_else(|m| format!("panic: {m}"))
}

/// Every operation's answer when it is all a process ever does.
pub fn learn() {
    let all: Vec<Vec<String>> = (0..OPS + DEEP)
        .map(|o| {
            (0..SLOTS)
                .map(|s| ask_child(|| answer(o as u8, s)).unwrap_or_else(|e| e))
                .collect()
        })
        .collect();
    ALONE.store(Box::into_raw(Box::new(all)), Ordering::Relaxed);
}

/// The answers themselves are sensible: no panic, and the values are those computed by hand.
pub fn alone_check(data: &str) -> Result<(), String> {
    let (o, s) = data.split_once(',').expect("data");
    let (o, s): (usize, usize) = (o.parse().expect("op"), s.parse().expect("slot"));
    let a = unsafe { &(&*ALONE.load(Ordering::Relaxed))[o][s] };
    let (x, y) = (XS[s], YS[s]);
    let k = |v: f64| v * 2.0 + 1.0;
    let h = |v: f64| k(v) - v / 3.0;
    let m = |a: &[f64]| a.iter().enumerate().map(|(i, v)| v * (i + 1) as f64).sum::<f64>() + a.len() as f64;
    let fact = |v: f64| (1..=v as u64).map(|i| i as f64).product::<f64>();
    let e1 = k(x) + m(&[x, y, 2.0]) * h(y) - fact(x);
    let e2 = h(y).powf(2.0) - x.max(y) / k(2.0);
    let want = match o {
        0 | 1 => Some(num(e1)),
        9 => Some(num(e2)),
        7 => Some("true false true false".to_owned()),
        13 => Some(format!("true false {}", num(e1))),
        _ => None,
    };
    match want {
        Some(w) if w != *a => Err(format!("{} answers {a:?} alone, expected {w:?}", name(o as u8))),
        _ if a.starts_with("panic") || a.starts_with("ended") || (a.starts_with("error") && o != 8) => Err(format!("{} answers {a:?} alone", name(o as u8))),
        _ => Ok(()),
    }
}

/// What the thread `t` does; its wrong answers.
pub fn thread(t: usize, ops: &[Vec<u8>]) -> Vec<String> {
    for (i, plan) in ops.iter().enumerate() {
        let slot = (t * 2 + i) % SLOTS;
        NEST.set((unsafe { plan.as_ptr().add(1) }, plan.len() - 1, slot));
        checked(plan[0], slot);
        unsafe { sched_point() };
    }
    BAD_ANSWERS.with(|b| b.borrow().iter().map(|e| format!("thread {t}: {e}")).collect())
}

/// After all threads: the shared objects still give the answers, and no reference is lost.
pub fn afterwards(threads: usize) -> Vec<String> {
    NEST.set((std::ptr::null(), 0, 0));
    for o in [0, 2, 3, 12, 13] {
        checked(o, threads % SLOTS);
    }
    let mut bad: Vec<String> = BAD_ANSWERS.with(|b| b.borrow().iter().map(|e| format!("afterwards: {e}")).collect());
    let w = unsafe { Box::from_raw(WORLD.load(Ordering::Relaxed)) };
    let token = w.token.clone();
    drop(w);
    let n = Arc::strong_count(&token);
    if n != 1 {
        bad.push(format!("{} references to a user function are left", n - 1));
    }
    bad
}
