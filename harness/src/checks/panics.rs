//! C16: a user function panics at any of its calls.
use crate::model;
use crate::rt::{Fnv, Outcome, Rt, Stats};
use crate::track;
use crate::util::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xprs::{Context, Function, Parser, Xprs};

thread_local! {
    /// calls still to come before the one that panics; negative: none does
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

struct Marker;

fn tick() {
    COUNT.with(|c| c.set(c.get() + 1));
    FUSE.with(|f| match f.get() {
        0 => {
            f.set(-1);
            std::panic::resume_unwind(Box::new(Marker));
        }
        n if n > 0 => f.set(n - 1),
        _ => {}
    });
}

fn p1(a: &[f64]) -> f64 {
    tick();
    a[0] * 1.5 + 0.25
}

/// p(a) static, q(a,b) and v(...) capturing something on the heap, n(a) built from an expression.
fn context() -> Context<'static> {
    let w = vec![0.5, 2.0];
    let inner = Parser::new_with_ctx(Context::default().with_fn(Function::new_static("p", p1, Some(1)))).parse("p(x)-p(x*2)").expect("inner");
    let n = Share::new(inner.bind("x").expect("bind"));
    let label = String::from("captured");
    Context::default()
        .with_fn(Function::new_static("p", p1, Some(1)))
        .with_fn(Function::new_dyn("q", move |a| { tick(); a[0] * w[1] - a[1] * w[0] }, Some(2)))
        .with_fn(Function::new_dyn("v", move |a| { tick(); a.iter().sum::<f64>() + label.len() as f64 }, None))
        .with_fn(Function::new_dyn("n", move |a| n.get()(a[0]), Some(1)))
        .with_var("k", 1.75)
}

fn same_bits(a: f64, b: f64) -> bool {
    model::same(a, b)
}

/// Runs `f` so that the given call panics. Some(None): it did. The calls made are counted.
fn armed<T>(at: i64, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    COUNT.with(|c| c.set(0));
    FUSE.with(|c| c.set(at));
    let r = catch_unwind(AssertUnwindSafe(f));
    let left = FUSE.with(|c| c.replace(-1));
    match r {
        Ok(v) => {
            if at >= 0 && left < 0 {
                return Err("the panic of the function was swallowed".into());
            }
            Ok(Some(v))
        }
        Err(p) => {
            if p.is::<Marker>() {
                Ok(None)
            } else {
                Err("another panic than the function's".into())
            }
        }
    }
}

const OPS: [&str; 15] = [
    "parse", "eval", "eval_unchecked", "no_vars", "bind", "bind2", "bind_n", "slice", "for", "for_in_place", "multiple", "multiple_in_place", "for_y_in_place", "clone_in_place", "multiple_rev_in_place",
];

const XY: [(&str, f64); 2] = [("x", 0.75), ("y", 2.5)];

fn env() -> HashMap<&'static str, f64> {
    HashMap::from(XY)
}

/// Everything that can be asked of an expression, as text.
fn use_up(x: &Xprs<'static>, stats: &mut u64) -> String {
    *stats += 1;
    let mut s = x.to_string();
    s.push_str(&format!(" {:?}", x.eval(&env()).map(f64::to_bits).ok()));
    let c = x.clone();
    s.push_str(&format!(" {}", c == *x));
    let y = c.simplify_for(("x", 0.75));
    s.push_str(&y.to_string());
    let mut z = x.clone();
    z.simplify_for_multiple_in_place(&XY);
    s.push_str(&z.to_string());
    s.push_str(&format!(" {:?}", z.eval_no_vars().map(f64::to_bits).ok()));
    s
}

/// One operation with a panic at call `at`. Returns whether it panicked, and the number of calls.
fn scenario(text: &'static str, op: &str, at: i64) -> Result<(bool, u64), String> {
    let mut uses = 0u64;
    let parser = Parser::new_with_ctx(context());
    let done = |panicked: bool| Ok((panicked, COUNT.with(Cell::get)));
    if op == "parse" {
        let before = parser.clone();
        let r = armed(at, || parser.parse(text))?;
        let calls = COUNT.with(Cell::get);
        let panicked = r.is_none();
        drop(r);
        if *parser.ctx() != *before.ctx() {
            return Err("the parser's context changed".into());
        }
        // the parser still works
        let a = parser.parse(text).map_err(|e| e.to_string())?;
        let fresh = Parser::new_with_ctx(context()).parse(text).map_err(|e| e.to_string())?;
        if use_up(&a, &mut uses) != use_up(&fresh, &mut uses) {
            return Err(format!("after a panic the text parses as {a}, otherwise {fresh}"));
        }
        COUNT.with(|c| c.set(calls));
        return done(panicked);
    }
    let x = parser.parse(text).map_err(|e| e.to_string())?;
    let reference = use_up(&x, &mut uses);
    let want = x.eval(&env()).map_err(|e| e.to_string())?;
    let e = env();
    macro_rules! read_only {
        ($call:expr) => {{
            let r = armed(at, || $call)?;
            let calls = COUNT.with(Cell::get);
            let v = $call;
            if !same_bits(v, want) {
                return Err(format!("after the panic {v:?}, before {want:?}"));
            }
            if let Some(r) = &r {
                if !same_bits(*r, want) {
                    return Err(format!("gives {r:?}, expected {want:?}"));
                }
            }
            COUNT.with(|c| c.set(calls));
            return done(r.is_none());
        }};
    }
    macro_rules! in_place {
        ($x:ident, $call:expr) => {{
            let r = armed(at, || $call)?;
            let calls = COUNT.with(Cell::get);
            // whatever it is now, it can be used
            let mut uses = 0;
            let s = use_up(&$x, &mut uses);
            if r.is_some() {
                // it did not panic: the values are those of the original
                let v = $x.eval(&env()).map_err(|e| e.to_string())?;
                if !(same_bits(v, want) || model::same0(v, want)) {
                    return Err(format!("simplified: {v:?}, expected {want:?}"));
                }
            }
            std::hint::black_box(&s);
            $x.simplify_for_in_place(("y", 2.5));
            $x.simplify_for_in_place(("x", 0.75));
            std::hint::black_box($x.eval_no_vars().is_ok());
            $x = parser.parse(text).map_err(|e| e.to_string())?;
            if use_up(&$x, &mut uses) != reference {
                return Err("an expression assigned over the one that panicked differs".into());
            }
            COUNT.with(|c| c.set(calls));
            return done(r.is_none());
        }};
    }
    match op {
        "eval" => {
            let r = armed(at, || x.eval(&e))?;
            let calls = COUNT.with(Cell::get);
            if use_up(&x, &mut uses) != reference {
                return Err("the expression changed".into());
            }
            COUNT.with(|c| c.set(calls));
            done(r.is_none())
        }
        "eval_unchecked" => read_only!(x.eval_unchecked(&e)),
        "no_vars" => {
            if !x.vars.is_empty() {
                let r = armed(at, || x.eval_no_vars().is_ok())?;
                return done(r.is_none());
            }
            read_only!(x.eval_no_vars_unchecked())
        }
        "bind" => {
            // only what has at most one variable
            if x.vars.contains("y") {
                return Ok((false, 0));
            }
            let f = x.bind("x").map_err(|e| e.to_string())?;
            read_only!(f(0.75))
        }
        "bind2" => {
            let f = x.bind2("x", "y").map_err(|e| e.to_string())?;
            read_only!(f(0.75, 2.5))
        }
        "bind_n" => {
            let f = x.bind_n(["y", "x"]).map_err(|e| e.to_string())?;
            read_only!(f([2.5, 0.75]))
        }
        "slice" => {
            const N: [&str; 2] = ["x", "y"];
            let f = x.bind_n_runtime(&N).map_err(|e| e.to_string())?;
            read_only!(f(&[0.75, 2.5]).unwrap_or(-1.0))
        }
        "for" => {
            let c = x.clone();
            let r = armed(at, move || c.simplify_for(("x", 0.75)))?;
            let calls = COUNT.with(Cell::get);
            if use_up(&x, &mut uses) != reference {
                return Err("the original changed".into());
            }
            COUNT.with(|c| c.set(calls));
            done(r.is_none())
        }
        "multiple" => {
            let c = x.clone();
            let r = armed(at, move || c.simplify_for_multiple(&XY))?;
            let calls = COUNT.with(Cell::get);
            if use_up(&x, &mut uses) != reference {
                return Err("the original changed".into());
            }
            COUNT.with(|c| c.set(calls));
            done(r.is_none())
        }
        "for_in_place" => {
            let mut x = x;
            in_place!(x, x.simplify_for_in_place(("x", 0.75)))
        }
        "for_y_in_place" => {
            let mut x = x;
            in_place!(x, x.simplify_for_in_place(("y", 2.5)))
        }
        "multiple_in_place" => {
            let mut x = x;
            in_place!(x, x.simplify_for_multiple_in_place(&XY))
        }
        "multiple_rev_in_place" => {
            let mut x = x;
            in_place!(x, x.simplify_for_multiple_in_place(&[("absent", 1.0), ("y", 2.5), ("x", 0.75)]))
        }
        _ => {
            // the clone is simplified in place, the original must not notice
            let mut c = x.clone();
            let r = armed(at, || c.simplify_for_multiple_in_place(&XY))?;
            let calls = COUNT.with(Cell::get);
            drop(c);
            if use_up(&x, &mut uses) != reference {
                return Err("the original changed".into());
            }
            COUNT.with(|c| c.set(calls));
            done(r.is_none())
        }
    }
}

pub fn run(_sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let (op, text) = data.split_once('\u{1}').unwrap();
    let text = super::c01::expand(text);
    let text = intern(&text);
    let mut at = -1i64;
    loop {
        let mut result = Ok((false, 0));
        let mut verdict = track::Verdict::default();
        // the second run shows what the first one leaves behind
        for round in 0..2 {
            let (r, v) = track::watch(|| {
                let r = scenario(text, op, at);
                crate::rt::forget_panic_message();
                match r {
                    Ok(x) => Ok(x),
                    // the message outlives the observation: counted once as a leak, reported before leaks
                    Err(e) => Err(e),
                }
            });
            verdict = v;
            result = r;
            if result.is_err() || round == 1 {
                break;
            }
        }
        stats.inc("fault_runs");
        let here = |m: String| if at < 0 { format!("{op}, no panic: {m}") } else { format!("{op}, panic at call {at}: {m}") };
        let (panicked, calls) = result.map_err(&here)?;
        if verdict.double_free > 0 {
            return Err(here(format!("memory freed twice ({} times)", verdict.double_free)));
        }
        if verdict.wrong_layout > 0 {
            return Err(here("memory freed with another size than allocated".into()));
        }
        if verdict.written_after_free > 0 {
            return Err(here("memory written after it was freed".into()));
        }
        if verdict.leaked.len() > verdict.older as usize && !verdict.overflow {
            return Err(here(format!("memory leaked: (size, allocation) {:?}", verdict.leaked)));
        }
        if verdict.overflow {
            stats.inc("too_many_allocations");
        }
        let mut h = Fnv::new();
        h.bytes(text.as_bytes());
        h.bytes(op.as_bytes());
        h.u64(at as u64);
        stats.state(h.0);
        if at >= 0 {
            if panicked {
                stats.inc("panics");
            } else if (at as u64) < calls {
                return Err(here("the panic did not reach the caller".into()));
            }
        }
        if at >= 0 && !panicked {
            return Ok(());
        }
        at += 1;
        if at > 400 {
            return Ok(());
        }
    }
}

pub fn enumerate(rt: &mut Rt) {
    let t = Trees::new(&["x", "y", "2"], &["p(@)", "(-@)", "(@!)", "n(@)", "v(@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)", "q(@,@)", "v(@,@)", "v(p(@),@)", "q(@,p(@))"]);
    for n in 0..=rt.pick(2, 3) {
        t.each(n, &mut |s| {
            if s.contains("p(") || s.contains("q(") || s.contains("v(") || s.contains("n(") {
                for op in OPS {
                    rt.shared_case("tree", &format!("{op}\u{1}{s}"));
                }
            }
            !rt.stop()
        });
    }
    let t = Trees::new(&["p(x)", "p(2)", "q(y,1)"], &["p(@)", "(-@)"], &["(@-@)", "(@*@)", "v(@,@)"]);
    for n in 1..=rt.pick(2, 3) {
        t.each(n, &mut |s| {
            for op in OPS {
                rt.shared_case("calls", &format!("{op}\u{1}{s}"));
            }
            !rt.stop()
        });
    }
    for f in ["p(|x|)", "p(|2|)", "q(|x|,y)", "q(y,|p(x)|)", "v(1,|p(2)|,p(y))", "p(x)+|p(y)|", "p(1)*|p(2)|", "n(|x|)", "v(|p(x)|,p(1))", "x+p(|y|)", "-p(|x|)!", "p(x)|p(y)|", "(p(x)-|y|)"] {
        for n in (1..=rt.pick(12, 40)).chain(rt.pick(vec![32], vec![64, 128])) {
            for op in OPS {
                rt.shared_case("family", &format!("{op}\u{1}#{f}|{n}"));
            }
        }
    }
    // many arguments
    for n in [1usize, 2, 3, 8, 33, 64].into_iter().chain(magic(300)) {
        for a in ["p(x)", "p(1)", "y", "q(x,p(2))"] {
            for op in OPS {
                rt.shared_case("family", &format!("{op}\u{1}v({})", vec![a; n].join(",")));
            }
        }
    }
}
