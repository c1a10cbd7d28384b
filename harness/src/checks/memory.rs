//! C24: whatever an operation takes, it gives back.
use crate::rt::{Outcome, Rt, Stats};
use crate::track;
use crate::util::*;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Arc;
use xprs::{Context, Function, ParseError, Parser, Symbol, Xprs};

fn fa(a: &[f64]) -> f64 {
    a.iter().sum::<f64>() * 0.5
}

const OPS: [&str; 30] = [
    "new", "var", "static", "capture", "table", "expect", "lift", "parse0", "parse1", "parse2", "parse3", "parse4", "parse5", "eval", "missing", "unchecked", "for", "multiple", "clone", "swap", "compare",
    "print", "bind", "bind_fails", "slice", "render", "fork", "higher", "drop", "try_from",
];
/// The first `CORE` operations of this list make the deepest histories.
const CORE: [&str; 13] = ["capture", "table", "expect", "parse0", "parse1", "parse3", "multiple", "clone", "bind", "render", "fork", "higher", "eval"];

const TEXTS: [&str; 6] = ["x+f(2)*y-w(x,y,3)", "2^3!-sum(1,2,x)", "(x+", "1..2+é", "f(x,y,a,b,c)+undeclared_name", "-(x-x)/f(w())"];

type Bound = Box<dyn Fn(f64, f64) -> f64>;

struct World {
    parser: Parser<'static>,
    x: Option<Xprs<'static>>,
    y: Option<Xprs<'static>>,
    err: Option<ParseError>,
    bound: Option<Bound>,
}

fn capturing(n: usize) -> Function {
    let data: Vec<f64> = (0..n).map(|k| k as f64 * 0.25).collect();
    let label = String::from("captured by the closure");
    Function::new_dyn("w", move |a| a.iter().zip(&data).map(|(u, v)| u * v).sum::<f64>() + label.len() as f64, None)
}

impl World {
    fn step(&mut self, op: &str) {
        let env = HashMap::from([("x", 0.75), ("y", 2.5)]);
        match op {
            "new" => self.parser = Parser::default(),
            "var" => self.parser.ctx_mut().set_var("v", 2.0),
            "static" => self.parser.ctx_mut().set_fn(Function::new_static("f", fa, None)),
            "capture" => self.parser.ctx_mut().set_fn(capturing(5)),
            "table" => {
                let t = HashMap::from([("v", Symbol::from(1.5)), ("f", Symbol::from(Function::new_static("f", fa, Some(1)))), ("w", Symbol::from(capturing(2)))]);
                let old = std::mem::take(self.parser.ctx_mut());
                *self.parser.ctx_mut() = old.with_symbols(t);
            }
            "expect" => self.parser.ctx_mut().set_expected_vars(["x", "y", "z"].into()),
            "lift" => {
                let c: Context<'static> = std::mem::take(self.parser.ctx_mut());
                black_box(&c);
            }
            "eval" => drop(black_box(self.x.as_ref().map(|x| x.eval(&env)))),
            "missing" => {
                if let Some(x) = &self.x {
                    black_box(x.eval(&HashMap::new()).map_err(|e| e.to_string()).is_ok());
                    black_box(x.eval_no_vars().is_ok());
                }
            }
            "unchecked" => {
                if let Some(x) = self.x.as_ref().filter(|x| x.vars.iter().all(|v| env.contains_key(v))) {
                    black_box(x.eval_unchecked(&env));
                }
            }
            "for" => {
                if let Some(x) = &mut self.x {
                    x.simplify_for_in_place(("x", 0.75));
                }
            }
            "multiple" => self.x = self.x.take().map(|x| x.simplify_for_multiple(&[("y", 2.5), ("absent", 0.0), ("x", 0.0)])),
            "clone" => self.y = self.x.clone(),
            "swap" => std::mem::swap(&mut self.x, &mut self.y),
            "compare" => {
                black_box(self.x == self.y);
                black_box(self.parser.clone() == self.parser);
            }
            "print" => {
                black_box(self.x.as_ref().map(|x| format!("{x} {x:?}")));
            }
            "bind" => {
                if let Some(f) = self.x.clone().and_then(|x| x.bind2("x", "y").ok()) {
                    black_box(f(0.5, 0.25));
                }
                let kept = self.x.take().map(Arc::new);
                if let Some(k) = kept {
                    self.x = Some((*k).clone());
                    self.bound = Some(Box::new(move |a, b| k.eval(&HashMap::from([("x", a), ("y", b)])).unwrap_or(a)));
                }
            }
            "bind_fails" => {
                if let Some(x) = self.x.clone() {
                    black_box(x.bind("nobody").map_err(|e| e.to_string()).is_ok());
                }
            }
            "slice" => {
                if let Some(x) = self.x.clone() {
                    const N: [&str; 3] = ["y", "x", "z"];
                    if let Ok(f) = x.clone().bind_n_runtime(&N) {
                        black_box(f(&[1.0, 2.0]).is_ok());
                        black_box(f(&[]).map_err(|e| e.to_string()).is_ok());
                    }
                    if let Ok(f) = x.bind_n(["x", "y"]) {
                        black_box(f([1.0, 2.0]));
                    };
                }
            }
            "render" => {
                if let Some(e) = &self.err {
                    black_box(format!("{e} {e:?} {:?}", miette::Report::new(e.clone())));
                    black_box(*e == e.clone());
                }
            }
            "fork" => {
                let mut p = self.parser.clone();
                p.ctx_mut().set_var("forked", 1.0);
                black_box(p.parse("forked+x").is_ok());
                black_box(self.parser.ctx().get("forked").is_some());
            }
            "higher" => {
                // the expression becomes a function of the context
                if let Some(x) = self.x.clone().filter(|x| x.vars.iter().all(|v| *v == "x")) {
                    if let Ok(f) = x.bind("x") {
                        let f = Share::new(f);
                        self.parser.ctx_mut().set_fn(Function::new_dyn("f", move |a| f.get()(a.first().copied().unwrap_or(1.0)), None));
                    }
                }
                if let Some(b) = self.bound.take() {
                    let b = Share::new(b);
                    self.parser.ctx_mut().set_fn(Function::new_dyn("w", move |a| b.get()(a.len() as f64, 1.0), None));
                }
            }
            "drop" => {
                self.x = None;
                self.err = None;
                self.bound = None;
            }
            "try_from" => {
                black_box(Xprs::try_from("2x-sin(y)").is_ok());
                black_box(Xprs::try_from("2x-sin(y").is_ok());
            }
            _ => {
                let k = usize::from(op.as_bytes()[5] - b'0');
                match self.parser.parse(TEXTS[k]) {
                    Ok(x) => self.y = self.x.replace(x),
                    Err(e) => self.err = Some(e),
                }
            }
        }
    }
}

fn history(ops: &str) {
    let mut w = World { parser: Parser::default(), x: None, y: None, err: None, bound: None };
    for o in ops.split(' ') {
        w.step(o);
    }
}

/// The whole life of a text.
fn life(parser: &Parser<'static>, text: &'static str, full: bool) {
    match parser.parse(text) {
        Ok(x) => {
            let env: HashMap<&str, f64> = x.vars.iter().map(|v| (*v, 0.75)).collect();
            black_box(x.eval(&env).is_ok());
            black_box(x.eval_no_vars().is_ok());
            let y = x.clone();
            black_box(y == x);
            if full {
                black_box(format!("{x} {x:?}"));
            }
            let mut z = y.clone();
            for v in &y.vars {
                z.simplify_for_in_place((v, 0.0));
            }
            let all: Vec<(&str, f64)> = x.vars.iter().map(|v| (*v, 1.0)).collect();
            black_box(y.simplify_for_multiple(&all).eval_no_vars().is_ok());
            let names: Vec<&str> = env.keys().copied().collect();
            if let Ok(f) = x.clone().bind_n_runtime(&names) {
                black_box(f(&vec![0.5; names.len()]).is_ok());
            }
            black_box(x.bind("x").is_ok());
        }
        Err(e) => {
            black_box(e.to_string());
            if full {
                black_box(format!("{:?}", miette::Report::new(e.clone())));
            }
            black_box(e == e.clone());
        }
    }
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let text = match sub {
        "history" => "",
        "family" => intern(&super::c01::family_text(data)),
        _ => intern(data),
    };
    let mut judge = |what: &mut dyn FnMut()| -> Outcome {
        let mut kept = u32::MAX;
        let mut last = vec![];
        // what is left once is an initialisation; what is left by every run is a leak
        for round in 0..4 {
            let ((), v) = track::watch(&mut *what);
            stats.inc("observed_runs");
            stats.add("allocations", u64::from(v.allocations));
            if v.double_free > 0 {
                return Err(format!("memory freed twice ({} times)", v.double_free));
            }
            if v.wrong_layout > 0 {
                return Err("memory freed with another size than allocated".into());
            }
            if v.written_after_free > 0 {
                return Err("memory written after it was freed".into());
            }
            if v.overflow {
                stats.inc("too_many_allocations");
                return Ok(());
            }
            kept = kept.min((v.leaked.len() as u32).saturating_sub(v.older));
            last = v.leaked;
            if round >= 1 && kept == 0 {
                return Ok(());
            }
        }
        Err(format!("every run keeps memory: (size, allocation) {last:?}"))
    };
    match sub {
        "history" => judge(&mut || history(data)),
        _ => {
            let p = &std_pair().parser;
            judge(&mut || life(p, text, sub != "text"))
        }
    }
}

pub fn enumerate(rt: &mut Rt) {
    fn sequences(rt: &mut Rt, ops: &[&str], n: usize) {
        let mut idx = vec![0usize; n];
        'all: loop {
            if rt.mine() {
                let s: Vec<&str> = idx.iter().map(|&i| ops[i]).collect();
                rt.case("history", &s.join(" "));
            }
            if rt.stop() {
                return;
            }
            for k in (0..n).rev() {
                idx[k] += 1;
                if idx[k] < ops.len() {
                    continue 'all;
                }
                idx[k] = 0;
            }
            return;
        }
    }
    for n in 1..=rt.pick(3, 4) {
        sequences(rt, &OPS, n);
    }
    sequences(rt, &CORE, rt.pick(4, 6));
    let t = Trees::new(&["x", "y", "2"], &["g(@)", "(-@)", "(@!)", "v(@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)", "h(@,@)", "v(@,@)"]);
    for n in 0..=rt.pick(2, 3) {
        t.each(n, &mut |s| {
            rt.shared_case("text", s);
            !rt.stop()
        });
    }
    use Tok::T;
    let toks = [T("2"), T("x"), T("+"), T("-"), T("^"), T("!"), T("("), T(")"), T("g("), T("v("), T(","), T(".."), T("$"), T("é"), T("1e5")];
    let max = rt.pick(4, 5);
    Dfs { sub: "rendered", toks: &toks, nums: &NUMS, max, ctx: &std_pair().m, apart: false, slack: 1, split: 2 }.run(rt);
    // every mistake behind (and inside) every sort of text of every size
    for n in [1usize, 2, 5, 9, 17, 33, 65, 130, 260].into_iter().chain(magic(2000)) {
        for pre in ["x+", "(", "g(", "v(1,", "-", "2*(", " ", "h(x,", "12345+"] {
            for core in ["(x", "x)", "g", "g(", "h(1)", "h(1,2,3)", "1.2.3", "$", "é", "x 2 3", "v(,)", "", "v(x", "(x,", "z(1)", "1e", "x", "g(2)"] {
                for suf in ["", ")"] {
                    rt.shared_case("family", &format!("{pre}|{core}|{suf}|{n}"));
                }
            }
        }
    }
    for n in [1usize, 2, 7, 8, 9, 33, 64, 100, 200, 400].into_iter().chain(magic(400)) {
        for f in ["x+|y|", "x-|g(x)|", "(|x|)", "g(|x|)", "-|x|", "v(x,|1|)", "2*|x|", "h(|x|,2)", "|v(x|,y)", "|x|!", "(||", "v(1,||", "g(|x|", "1.||", "|x|\u{e9}", "x+||", "a|x|", "1+|1|", "|v(x|,x", "|1|..2"] {
            rt.shared_case("family", &format!("{f}|{n}"));
        }
    }
}
