//! C19: every sequence of operations gives each operation the outcome it has when performed first.
use crate::model;
use crate::rt::{guarded, Fnv, Outcome, Rt, Stats};
use crate::util::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use xprs::{Context, EvalError, Function, Parser, Xprs};

/// Texts, several of the same length and with the same beginning or end.
const TEXTS: [&str; 20] = [
    "x-y", "y-x", "x y", "x+y", "x*2", "2*x", "g(x)", "g(2)", "g(3)", "1/x", "k-x", "k-1", "K-1", "2-3", "3-2", "(x-", "g()", "1.1.1", "h(x,k)-h(k,x)", "bomb(2)",
];

/// Expressions that exist before the history begins.
const KEPT: [&str; 5] = ["x-2*y", "1/x-y", "v(x,g(y),g(2))-k", "x^y-x!", "g(k)-2^3"];

const VALUES: [(f64, f64); 6] = [(1.0, 2.0), (2.0, 1.0), (0.0, 1.0), (-0.0, 1.0), (1.0, f64::NAN), (4.0, 2.0)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// text, parser
    Parse(u8, u8),
    Eval(u8, u8),
    EvalUnchecked(u8, u8),
    /// without a value for one of the variables
    EvalMissing(u8),
    Bound(u8, u8),
    Slice(u8, u8),
    SliceShort(u8),
    BindFail(u8),
    Simplify(u8, u8),
    SimplifyMany(u8, u8),
    Print(u8),
    Compare(u8, u8),
    CloneDrop(u8),
    /// changes a constant of the first parser: from now on it is in the other mode
    Redefine,
}

fn ops() -> &'static Vec<Op> {
    static O: OnceLock<Vec<Op>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v = Vec::new();
        for t in 0..TEXTS.len() as u8 {
            v.push(Op::Parse(t, 0));
        }
        for t in [6, 7, 10, 11, 15] {
            v.push(Op::Parse(t, 1));
        }
        for e in 0..KEPT.len() as u8 {
            for k in [0, 1, 2, 3, 4] {
                if k < 2 || e == 1 || (e == 2 && k < 4) {
                    v.push(Op::Eval(e, k));
                }
            }
        }
        v.extend([Op::EvalUnchecked(0, 1), Op::EvalUnchecked(3, 5), Op::EvalMissing(0), Op::EvalMissing(2)]);
        v.extend([Op::Bound(0, 0), Op::Bound(0, 1), Op::Bound(1, 3), Op::Slice(2, 0), Op::Slice(2, 1), Op::SliceShort(0), Op::BindFail(0)]);
        v.extend([Op::Simplify(0, 0), Op::Simplify(0, 1), Op::Simplify(2, 1), Op::SimplifyMany(3, 5), Op::SimplifyMany(1, 0)]);
        v.extend([Op::Print(0), Op::Print(3), Op::Compare(0, 0), Op::Compare(0, 1), Op::CloneDrop(2), Op::Redefine]);
        v
    })
}

fn fg(a: &[f64]) -> f64 {
    a[0] * 1.25 + 0.5
}
fn fh(a: &[f64]) -> f64 {
    a[0] * 3.0 - a[1]
}
fn fother(a: &[f64]) -> f64 {
    a[0] - 100.0
}
fn fbomb(_: &[f64]) -> f64 {
    std::panic::resume_unwind(Box::new(7u8))
}

fn context(which: u8) -> Context<'static> {
    let c = Context::default().with_fn(Function::new_static("h", fh, Some(2))).with_fn(Function::new_dyn("v", weigh, None)).with_fn(Function::new_static("bomb", fbomb, Some(1)));
    if which == 0 {
        c.with_fn(Function::new_static("g", fg, Some(1))).with_var("k", 1.75).with_var("K", -2.0)
    } else {
        c.with_fn(Function::new_static("g", fother, Some(1))).with_var("k", -8.5).with_expected_vars(["x"].into())
    }
}

/// The memory the texts are put into, always the same.
struct Buf(Box<[u8; 64]>);

impl Buf {
    fn put(&mut self, t: &str) -> &str {
        self.0[..t.len()].copy_from_slice(t.as_bytes());
        std::str::from_utf8(&self.0[..t.len()]).expect("text")
    }
}

type Bound2 = Box<dyn Fn(f64, f64) -> f64>;
type BoundS = Box<dyn Fn(&[f64]) -> Result<f64, EvalError>>;

struct World {
    parsers: [Parser<'static>; 2],
    buf: Buf,
    kept: Vec<Xprs<'static>>,
    bound: Vec<Bound2>,
    slice: Vec<BoundS>,
    mode: bool,
}

impl World {
    fn new() -> Self {
        let parsers = [Parser::new_with_ctx(context(0)), Parser::new_with_ctx(context(1))];
        let kept: Vec<Xprs<'static>> = KEPT.iter().map(|t| parsers[0].parse(t).expect("kept")).collect();
        let bound: Vec<Bound2> = kept[..2].iter().map(|x| Box::new(x.clone().bind2("x", "y").expect("bind")) as Bound2).collect();
        let slice: Vec<BoundS> = kept[..3].iter().map(|x| Box::new(x.clone().bind_n_runtime(&["y", "x"]).expect("bind")) as BoundS).collect();
        Self { parsers, buf: Buf(Box::new([b' '; 64])), kept, bound, slice, mode: false }
    }

    fn perform(&mut self, op: Op, out: &mut String) {
        use std::fmt::Write as _;
        out.clear();
        let env = |k: u8| HashMap::from([("x", VALUES[k as usize].0), ("y", VALUES[k as usize].1)]);
        let bits = |v: f64| if v.is_nan() { 1 } else { v.to_bits() };
        match op {
            Op::Parse(t, p) => {
                let parser = &self.parsers[p as usize];
                let text = self.buf.put(TEXTS[t as usize]);
                match guarded(|| parser.parse(text)) {
                    Err(_) => out.push_str("panic"),
                    Ok(Err(e)) => {
                        let _ = write!(out, "error {e} {:?}", err_span(&e));
                    }
                    Ok(Ok(x)) => {
                        let mut vars: Vec<&str> = x.vars.iter().copied().collect();
                        vars.sort_unstable();
                        let _ = write!(out, "{x} {vars:?}");
                        for k in [0, 3] {
                            match guarded(|| x.eval(&env(k)).map(bits)) {
                                Ok(v) => {
                                    let _ = write!(out, " {:?}", v.ok());
                                }
                                Err(_) => out.push_str(" panic"),
                            }
                        }
                    }
                }
            }
            Op::Eval(e, k) => {
                let _ = write!(out, "{:?}", self.kept[e as usize].eval(&env(k)).map(bits).map_err(|e| e.to_string()));
            }
            Op::EvalUnchecked(e, k) => {
                let _ = write!(out, "{}", bits(self.kept[e as usize].eval_unchecked(&env(k))));
            }
            Op::EvalMissing(e) => {
                let _ = write!(out, "{:?}", self.kept[e as usize].eval(&HashMap::from([("x", 1.0)])).map(bits).map_err(|e| e.to_string()));
            }
            Op::Bound(e, k) => {
                let (a, b) = VALUES[k as usize];
                let _ = write!(out, "{}", bits(self.bound[e as usize](a, b)));
            }
            Op::Slice(e, k) => {
                let (a, b) = VALUES[k as usize];
                let _ = write!(out, "{:?}", self.slice[e as usize](&[b, a]).map(bits).map_err(|e| e.to_string()));
            }
            Op::SliceShort(e) => {
                let _ = write!(out, "{:?}", self.slice[e as usize](&[1.0]).map(bits).map_err(|e| e.to_string()));
            }
            Op::BindFail(e) => {
                let r = self.kept[e as usize].clone().bind("x").map(|_| ()).map_err(|e| e.to_string());
                let _ = write!(out, "{r:?}");
            }
            Op::Simplify(e, k) => {
                let x = self.kept[e as usize].clone().simplify_for(("x", VALUES[k as usize].0));
                let mut vars: Vec<&str> = x.vars.iter().copied().collect();
                vars.sort_unstable();
                let _ = write!(out, "{x} {vars:?} {:?}", x.eval(&env(k)).map(bits).ok());
            }
            Op::SimplifyMany(e, k) => {
                let mut x = self.kept[e as usize].clone();
                x.simplify_for_multiple_in_place(&[("y", VALUES[k as usize].1), ("x", VALUES[k as usize].0)]);
                let _ = write!(out, "{x} {:?}", x.eval_no_vars().map(bits).ok());
            }
            Op::Print(e) => {
                let _ = write!(out, "{}", self.kept[e as usize]);
            }
            Op::Compare(a, b) => {
                let _ = write!(out, "{}", self.kept[a as usize] == self.kept[b as usize]);
            }
            Op::CloneDrop(e) => {
                let c = self.kept[e as usize].clone();
                let _ = write!(out, "{}", c == self.kept[e as usize]);
            }
            Op::Redefine => {
                self.mode = !self.mode;
                let p = self.parsers[0].ctx_mut();
                if self.mode {
                    p.set_var("k", 0.125);
                    p.set_fn(Function::new_static("g", fother, Some(1)));
                } else {
                    p.set_var("k", 1.75);
                    p.set_fn(Function::new_static("g", fg, Some(1)));
                }
                out.push_str("done");
            }
        }
    }
}

/// Outcome of one operation in a world of its own.
pub fn first(op: usize, mode: bool) -> String {
    let mut w = World::new();
    let mut s = String::new();
    if mode {
        w.perform(Op::Redefine, &mut s);
    }
    w.perform(ops()[op], &mut s);
    s
}

/// What the model says about the operations it covers.
fn by_model(op: Op, mode: bool) -> Option<Option<Vec<u64>>> {
    if let Op::Parse(t, p) = op {
        if t as usize == TEXTS.len() - 1 {
            return None;
        }
        let mut m = model::MCtx::default().with_fun("h", Some(2), fh).with_fun("v", None, weigh);
        m = match (p, mode) {
            (0, false) => m.with_fun("g", Some(1), fg).with_const("k", 1.75).with_const("K", -2.0),
            (0, true) => m.with_fun("g", Some(1), fother).with_const("k", 0.125).with_const("K", -2.0),
            _ => m.with_fun("g", Some(1), fother).with_const("k", -8.5),
        };
        let Ok(a) = model::parse(TEXTS[t as usize], &m) else { return Some(None) };
        return Some(Some(
            [0usize, 3]
                .iter()
                .map(|&k| {
                    let v = a.eval(&HashMap::from([("x", VALUES[k].0), ("y", VALUES[k].1)])).expect("model");
                    if v.is_nan() { 1 } else { v.to_bits() }
                })
                .collect(),
        ));
    }
    None
}

/// Outcome of every operation as the first one of its own process.
fn expected() -> &'static Vec<[String; 2]> {
    static E: OnceLock<Vec<[String; 2]>> = OnceLock::new();
    E.get_or_init(|| {
        let exe = std::env::current_exe().expect("exe");
        (0..ops().len())
            .map(|i| {
                [false, true].map(|mode| {
                    let o = std::process::Command::new(&exe).args(["first", &i.to_string(), if mode { "1" } else { "0" }]).output().expect("first");
                    assert!(o.status.success(), "operation {:?} alone fails: {}", ops()[i], String::from_utf8_lossy(&o.stdout));
                    String::from_utf8(o.stdout).expect("utf8")
                })
            })
            .collect()
    })
}

/// One place holding one expression after the other.
const SLOT_TEXTS: [&str; 32] = [
    "x+2", "2+x", "x-1", "x*3", "x/4", "x^2", "2^x", "x%3", "-x", "x!", "-(x+2)", "(x+1)!", "g(x)", "sin(x)", "h(x,2)", "h(2,x)", "v(x)", "v(x,x)", "v(x,2,x)", "x", "x+2+1", "(x+1)*2", "x+3", "y+2", "y", "-y", "x+y", "y+x", "x*y",
    "h(x,y)", "7", "g(2)+x",
];
const SLOT_USES: [&str; 9] = ["eval", "more", "unchecked", "bound", "slice", "for", "clone", "map", "missing"];

fn use_slot(slot: &mut Xprs, how: &str, env: &HashMap<&'static str, f64>) -> Result<f64, String> {
    let e = |e: EvalError| e.to_string();
    let mut names: Vec<&'static str> = env.keys().copied().collect();
    names.sort_unstable();
    match how {
        "eval" => slot.eval(env).map_err(e),
        "more" => {
            let mut m = env.clone();
            m.insert("other", 3.25);
            slot.eval(&m).map_err(e)
        }
        "unchecked" => Ok(slot.eval_unchecked(env)),
        "bound" => match names[..] {
            [] => slot.eval_no_vars().map_err(e),
            [a] => slot.clone().bind(a).map(|f| f(env[a])).map_err(|e| e.to_string()),
            _ => slot.clone().bind2("y", "x").map(|f| f(env["y"], env["x"])).map_err(|e| e.to_string()),
        },
        "slice" => {
            let v: Vec<f64> = names.iter().map(|n| env[n]).collect();
            let f = slot.clone().bind_n_runtime(&names).map_err(|e| e.to_string())?;
            f(&v).map_err(e)
        }
        "for" => {
            for n in &names {
                slot.simplify_for_in_place((n, env[n]));
            }
            slot.eval_no_vars().map_err(e)
        }
        "clone" => {
            let c = slot.clone();
            let a = c.eval(env).map_err(e)?;
            let b = slot.eval(env).map_err(|e| e.to_string())?;
            if model::same(a, b) { Ok(a) } else { Err(format!("the clone gives {a:?}, the original {b:?}")) }
        }
        // the same map, changed in its place
        "map" => {
            let mut m = env.clone();
            for n in &names {
                *m.get_mut(n).expect("name") += 1.0;
            }
            let _ = slot.eval(&m);
            for n in &names {
                *m.get_mut(n).expect("name") -= 1.0;
            }
            slot.eval(&m).map_err(e)
        }
        _ => {
            let fails = slot.eval(&HashMap::new()).is_err();
            if fails == slot.vars.is_empty() {
                return Err("a missing variable isn't reported".to_owned());
            }
            slot.eval(env).map_err(e)
        }
    }
}

fn slot_case(data: &str, stats: &mut Stats) -> Outcome {
    let steps: Vec<(&str, &str)> = data.split(';').map(|s| s.split_once(' ').unwrap()).collect();
    let pair = std_pair();
    let mut buf = Buf(Box::new([b' '; 64]));
    let mut want = vec![];
    for (k, (_, text)) in steps.iter().enumerate() {
        let ast = model::parse(text, &pair.m).map_err(|e| e.kind.message())?;
        let env: HashMap<&'static str, f64> = [("x", 2.0), ("y", 5.0)].into_iter().filter(|(n, _)| ast.var_set().contains(n)).collect();
        let v = ast.eval(&env.iter().map(|(k, v)| (*k, *v)).collect()).ok_or("model")?;
        want.push((env, v, k));
    }
    // one slot, filled anew by every step
    {
        for ((how, text), (env, v, k)) in steps.iter().zip(&want) {
            let mut slot = pair.parser.parse(buf.put(text)).map_err(|e| e.to_string())?;
            stats.inc("operations");
            let got = use_slot(&mut slot, how, env).map_err(|e| format!("step {k}, {how} {text}: {e}"))?;
            if !model::same0(got, *v) {
                return Err(format!("step {k}, {how} {text}: {got:?}, expected {v:?}"));
            }
        }
    }
    // texts that stay, assigned to one place
    let mut slot = pair.parser.parse("x").map_err(|e| e.to_string())?;
    for ((how, text), (env, v, k)) in steps.iter().zip(&want) {
        slot = pair.parser.parse(text).map_err(|e| e.to_string())?;
        stats.inc("operations");
        let got = use_slot(&mut slot, how, env).map_err(|e| format!("step {k}, assigned, {how} {text}: {e}"))?;
        if !model::same0(got, *v) {
            return Err(format!("step {k}, assigned, {how} {text}: {got:?}, expected {v:?}"));
        }
    }
    drop(slot);
    Ok(())
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "slot" {
        return slot_case(data, stats);
    }
    let all = ops();
    let want = expected();
    if sub == "alone" {
        // the outcome itself is right
        let i: usize = data.parse().unwrap();
        for mode in [false, true] {
            stats.inc("operations");
            if let Some(m) = by_model(all[i], mode) {
                let w = &want[i][usize::from(mode)];
                let ok = match m {
                    None => w.starts_with("error"),
                    Some(v) => {
                        let tail: String = v.iter().map(|b| format!(" {:?}", Some(b))).collect();
                        w.ends_with(&tail) || (model::opt() && !w.starts_with("error"))
                    }
                };
                if !ok {
                    return Err(format!("{:?} gives {w}", all[i]));
                }
            }
        }
        return Ok(());
    }
    let mut w = World::new();
    let mut out = String::new();
    let mut step = |w: &mut World, i: usize, stats: &mut Stats, n: usize| -> Outcome {
        let mode = w.mode;
        w.perform(all[i], &mut out);
        stats.inc("operations");
        // while in the other mode, only the parser's own texts change
        let affected = matches!(all[i], Op::Parse(_, 0));
        let expect = &want[i][usize::from(mode && affected)];
        if out != *expect {
            return Err(format!("operation {n}, {:?}{}: {out}, as the first one: {expect}", all[i], if mode { " (redefined)" } else { "" }));
        }
        Ok(())
    };
    match sub {
        "repeat" => {
            // a n times, then every other operation once, and a again
            let v: Vec<usize> = data.split(' ').map(|s| s.parse().unwrap()).collect();
            for n in 0..v[1] {
                step(&mut w, v[0], stats, n)?;
            }
            for i in 0..all.len() {
                step(&mut w, i, stats, v[1] + i)?;
                step(&mut w, v[0], stats, v[1] + i)?;
            }
        }
        "pair" => {
            let v: Vec<usize> = data.split(' ').map(|s| s.parse().unwrap()).collect();
            for n in 0..v[2] {
                step(&mut w, v[0], stats, 3 * n)?;
                step(&mut w, v[1], stats, 3 * n + 1)?;
                if n % 7 == 0 {
                    step(&mut w, v[1], stats, 3 * n + 2)?;
                }
            }
        }
        _ => {
            let mut h = Fnv::new();
            for (n, i) in data.split(' ').filter(|s| !s.is_empty()).enumerate() {
                let i: usize = i.parse().unwrap();
                step(&mut w, i, stats, n)?;
                h.u64(i as u64);
            }
            stats.state(h.0);
        }
    }
    Ok(())
}

pub fn enumerate(rt: &mut Rt) {
    let n = ops().len();
    for i in 0..n {
        rt.shared_case("alone", &i.to_string());
    }
    fn go(rt: &mut Rt, n: usize, left: usize, t: &mut String, depth: usize) {
        if rt.stop() {
            return;
        }
        if depth == 2 && !rt.mine() {
            return;
        }
        // shorter histories are beginnings of the longer ones
        if left == 0 {
            rt.case("history", t);
            return;
        }
        for k in 0..n {
            let l = t.len();
            t.push_str(&format!("{k} "));
            go(rt, n, left - 1, t, depth + 1);
            t.truncate(l);
        }
    }
    go(rt, n, rt.pick(3, 4), &mut String::new(), 0);
    for a in SLOT_TEXTS {
        for b in SLOT_TEXTS {
            for (i, u) in SLOT_USES.into_iter().enumerate() {
                for (j, w) in SLOT_USES.into_iter().enumerate() {
                    rt.shared_case("slot", &format!("{u} {a};{w} {b}"));
                    if i == j || !rt.quick() {
                        for c in SLOT_TEXTS {
                            rt.shared_case("slot", &format!("{u} {a};{w} {b};{u} {c}"));
                        }
                    }
                }
            }
        }
    }
    for a in 0..n {
        rt.shared_case("repeat", &format!("{a} {}", rt.pick(66_000, 300_000)));
        for b in 0..n {
            rt.shared_case("pair", &format!("{a} {b} {}", rt.pick(300, 3000)));
        }
    }
}
