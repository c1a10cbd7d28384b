//! C05, C06, C07, C15, C20: expression trees, against the reference evaluator.
use crate::model::{self, same, same0, Ast, Env, Seen};
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::sync::OnceLock;
use xprs::Xprs;

const GRID8: [f64; 8] = [0.0, -0.0, 1.0, -1.0, 2.0, 0.1, -2.7, 3e16];
const GRID5: [f64; 5] = [0.0, 1.0, -1.7, 2.0, 0.1];
const GRID4: [f64; 4] = [0.0, 1.0, -2.3, 0.7];

/// Values with full mantissas, near and far from 1, of both signs: rounding differs on many of them.
fn dense(n: usize, k: usize) -> f64 {
    let base = (k as f64 * 0.618_033_988_749_894_8).fract() * 4.0 + 0.013_7;
    let v = match k % 7 {
        0..=3 => base,
        4 => base * 37.0,
        5 => base / 1024.3,
        _ => base * 1e9,
    };
    if k % (n.min(5)) == 1 { -v } else { v }
}

fn parse_both<'t>(text: &'t str, pair: &Pair) -> Result<Option<(Ast, Xprs<'t>)>, String> {
    match (model::parse(text, &pair.m), pair.parser.parse(text)) {
        (Ok(a), Ok(x)) => Ok(Some((a, x))),
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(e)) => Err(format!("rejected: {e}")),
        (Err(e), Ok(x)) => Err(format!("accepted as {x}, expected: {}", e.kind.message())),
    }
}

/// Value of the model when every sub-expression is finite and no zero's sign matters.
pub fn guarded_value(ast: &Ast, env: &Env) -> Option<f64> {
    let mut s = Seen { finite: true, zero_sign: false };
    let v = ast.eval_seen(env, &mut s)?;
    (s.finite && !s.zero_sign).then_some(v)
}

// ---------------------------------------------------------------- C05

fn env_refs<'a>(ast: &'a Ast) -> Vec<&'a str> {
    ast.var_set().into_iter().collect()
}

pub fn run_c05(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C05", data, stats);
    }
    let pair = if sub == "shadow" { shadow_pair() } else { std_pair() };
    let Some((ast, x)) = parse_both(data, pair)? else {
        stats.inc("rejected");
        return Ok(());
    };
    stats.state_str(&x.to_string());
    let vars = env_refs(&ast);
    if let Some(v) = x.vars.iter().find(|v| !vars.contains(*v)) {
        return Err(format!("needs the variable {v}, which the text doesn't mention"));
    }
    if sub == "dense" {
        return match vars[..] {
            [] => Ok(()),
            [v] => (0..300).try_for_each(|k| one_c05(&ast, &x, &Env::from([(v, dense(5, k))]), stats)),
            [v, w] => (0..400).try_for_each(|k| one_c05(&ast, &x, &Env::from([(v, dense(5, k / 20)), (w, dense(3, k % 20 + 7))]), stats)),
            _ => for_each_env(&vars, &[0.1, 2.7, -1.3], &mut |env| one_c05(&ast, &x, env, stats)),
        };
    }
    let grid: &[f64] = match (vars.len(), sub) {
        (0..=2, "full") => &GRID8,
        (0..=1, _) => &GRID8,
        (2, _) => &GRID5,
        (3, _) => &GRID4,
        _ => &[2.0, -0.5],
    };
    if vars.len() > 6 {
        for k in 0..3 {
            let env: Env = vars.iter().map(|&v| (v, var_value(k, v))).collect();
            one_c05(&ast, &x, &env, stats)?;
        }
        return Ok(());
    }
    for_each_env(&vars, grid, &mut |env| one_c05(&ast, &x, env, stats))?;
    if sub == "full" && vars.len() <= 2 {
        for_each_env(&vars, &NON_FINITE, &mut |env| one_c05(&ast, &x, env, stats))?;
    }
    Ok(())
}

/// Values for the variables of calls and signs, which aren't operands of binary operators.
const NON_FINITE: [f64; 4] = [f64::INFINITY, f64::NAN, f64::NEG_INFINITY, 1.5];

fn one_c05(ast: &Ast, x: &Xprs, env: &Env, stats: &mut Stats) -> Outcome {
    let Some(want) = guarded_value(ast, env) else {
        stats.inc("values_unguarded");
        return Ok(());
    };
    stats.inc("values_compared");
    match x.eval(env) {
        Ok(v) if same0(v, want) => Ok(()),
        Ok(v) => Err(format!("optimised to {x}: {v:?}, unoptimised {want:?} with {}", show_env(env))),
        Err(e) => Err(format!("optimised to {x}: {e}")),
    }
}

fn trees(rt: &mut Rt, sub: &'static str, t: &Trees, n: usize) {
    t.each(n, &mut |s| {
        if rt.mine() {
            rt.case(sub, s);
        }
        !rt.stop()
    });
}

/// Texts that algebra would write otherwise, though doubles don't agree (or do, and may).
const ALGEBRA: &[&str] = &[
    "x*y+x*q", "x*(y+q)", "x*y-x*q", "x*(y-q)", "x/q+y/q", "(x+y)/q", "x/q-y/q", "x/y/q", "x/(y*q)", "x/(y/q)", "x*q/y", "x*(q/y)", "x+y+q", "x+(y+q)", "x-y-q", "x-(y+q)", "x-(y-q)", "x-y+q", "x*y*q", "x*(y*q)",
    "x+y-x", "x+y-y", "x-y+y", "x*y/x", "x*y/y", "x/y*y", "x*(1/x)", "x*(1/y)", "1/(1/x)", "1/x*y", "1/x/y", "1/(x/y)", "x^y*x^q", "x^y/x^q", "(x^y)^q", "x^(y*q)", "x^(y+q)", "x^q*y^q", "(x*y)^q", "(x/y)^q",
    "x^2*x", "x^2*x^3", "x^3/x", "x*x*x", "x*x", "x*x*x*x", "x^0.5", "x^0.5*x^0.5", "(x^0.5)^2", "(x^2)^0.5", "(x^3)^(1/3)", "x^(1/3)", "x^-1", "x^-2", "x^-0.5", "1/x^2", "x^2-y^2", "(x+y)*(x-y)", "(x+y)^2", "x^2+2*x*y+y^2",
    "x+x", "x+x+x", "2*x+x", "2*x+3*x", "0.1*x+0.2*x", "3*x-x", "x/2+x/2", "x-x/2", "0.1*(x*10)", "x*0.1*10", "x/10*10", "x*3/3", "x/3*3", "x+0.1-0.1", "0.1+x+0.2", "0.1+(x+0.2)", "x-0.1-0.2", "0.3-(x+0.1)", "(x+0.1)+0.2", "(x-0.1)+0.3",
    "2*(x+1)", "0.1*(x+3)", "(x+1)/3", "(2*x+4)/2", "(0.3*x)/0.1", "x%y%y", "(x+y)%y", "(x*y)%y", "x-x%y", "x%y+y", "(x%y+y)%y", "x%1", "x%2", "x%0.1", "-x%y", "x%-y", "(-x)%(-y)", "x/y-x%y/y", "x%(y*2)", "(2*x)%(2*y)",
    "sqrt(x)*sqrt(y)", "sqrt(x*y)", "sqrt(x)*sqrt(x)", "sqrt(x)^2", "sqrt(x^2)", "sqrt(x*x)", "cbrt(x)^3", "cbrt(x^3)", "sqrt(x)/sqrt(y)", "1/sqrt(x)", "x/sqrt(x)", "ln(x*y)", "ln(x)+ln(y)", "ln(x/y)", "ln(x^y)", "y*ln(x)", "exp(x)*exp(y)", "exp(x+y)", "exp(-x)", "1/exp(x)",
    "exp(ln(x))", "ln(exp(x))", "e^ln(x)", "ln(e^x)", "log(10^x)", "10^log(x)", "log(x*y)", "log(x)*ln(10)", "ln(x)/ln(10)", "ln(x)/ln(2)", "logn(x,y)", "logn(x,10)", "logn(y^x,y)", "exp(x)^y", "e^x", "e^(x*y)", "exp(y*ln(x))", "x^y/exp(y)", "sin(x)^2+cos(x)^2", "sin(x)/cos(x)",
    "1-cos(x)^2", "2*sin(x)*cos(x)", "sin(2*x)", "cos(x)^2-sin(x)^2", "sin(-x)", "cos(-x)", "tan(x)*cos(x)", "sin(x+pi)", "cos(x-pi/2)", "asin(sin(x))", "sin(asin(x))", "acos(cos(x))", "atan(tan(x))", "atan(y/x)", "atan2(y,x)", "sinh(x)/cosh(x)", "(exp(x)-exp(-x))/2", "cosh(x)^2-sinh(x)^2", "hypot(x,y)^2", "sqrt(x^2+y^2)",
    "abs(x)*abs(y)", "abs(x*y)", "abs(x)^2", "abs(x-y)", "abs(y-x)", "abs(-x)", "floor(x)+fract(x)", "-floor(-x)", "ceil(x)-1",
    "gamma(x+1)/x", "x!/(x-1)!", "factorial(x)/x", "recip(recip(x))", "recip(x)*y", "invert(x*y)", "sum(x,y,q)-q", "mean(x,y)*2", "sum(x,x,x)/3", "mean(0.1,x,0.2)", "sum(0.1,x,0.2)", "sum(x,0.1,0.2,y)", "max(x,y)+min(x,y)", "max(x,y)-min(x,y)", "x*y*0.1*0.7", "0.1*x*(0.7*y)", "x^0.1^0.7", "(x*0.1)^2", "(-x)*(0.1*y)", "-(x*0.1+y*0.2)", "2^x*2^y", "2^(x+1)/2", "round(x*10)/10", "trunc(x/3)*3", "x*180/pi", "x/180*pi",
];

/// Small expressions standing for the variables of [`ALGEBRA`].
pub fn algebra(rt: &mut Rt, sub: &'static str) {
    for t in ALGEBRA {
        for (x, y, q) in [("x", "y", "q"), ("x", "y", "3"), ("x", "0.1", "y"), ("0.7", "x", "y"), ("x", "x", "y"), ("x", "2", "0.3"), ("(-x)", "y", "2"), ("(x+0.1)", "y", "7"), ("sin(x)", "y", "x"), ("x!", "y", "3")] {
            let mut s = String::new();
            let b = t.as_bytes();
            for (i, &c) in b.iter().enumerate() {
                let part = |k: usize| b.get(k).is_some_and(|c| c.is_ascii_alphabetic());
                let alone = !part(i + 1) && (i == 0 || !part(i - 1));
                match c {
                    b'x' if alone => s.push_str(x),
                    b'y' if alone => s.push_str(y),
                    b'q' if alone => s.push_str(q),
                    _ => s.push(char::from(c)),
                }
            }
            rt.shared_case(sub, &s);
        }
    }
}

pub fn enum_c05(rt: &mut Rt) {
    super::values::enumerate(rt);
    algebra(rt, "dense");
    algebra(rt, "shadow");
    // every built-in name defined as something else
    for t in shadow_texts() {
        rt.shared_case("shadow", &t);
    }
    let bin7: Vec<&str> = [BIN_OPS.as_slice(), &["h(@,@)"]].concat();
    let t = Trees::new(&["x", "y", "0", "1", "2", "0.5", "K"], &["(-@)", "(+@)", "(@!)", "g(@)", "abs(@)"], &bin7);
    for n in 0..=rt.pick(2, 2) {
        trees(rt, "full", &t, n);
    }
    let t = Trees::new(&["x", "y", "0", "1"], &["(-@)"], &BIN_OPS);
    trees(rt, "tree", &t, 3);
    let t = Trees::new(&["x", "1"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)"]);
    trees(rt, "tree", &t, 4);
    let t = Trees::new(&["x", "y"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)"]);
    trees(rt, "tree", &t, 3);
    // many values with full mantissas, for rewritings that are only nearly right
    let t = Trees::new(&["x", "y", "2", "3", "0.1", "0.5", "10", "(-1)", "K", "7"], &["(-@)", "abs(@)", "sqrt(@)", "g(@)"], &BIN_OPS);
    for n in 0..=1 {
        trees(rt, "dense", &t, n);
    }
    let t = Trees::new(&["x", "y", "2", "0.1", "10"], &["(-@)"], &BIN_OPS);
    trees(rt, "dense", &t, 2);
    for k in -10..=10 {
        for t in ["x^#", "#^x", "x*#", "x/#", "x%#", "#/x", "g(x)^#", "x^#*y", "(x*#)/#", "(x/#)*#", "x+#-#", "x^(#/2)", "(x^#)^2", "x^#*x", "x^2^#", "#*x*y", "x*#*#", "x+#+#", "(-x)^#", "(-x)*#", "(-x)/#", "#/(-x)", "#*(-x)", "-(x^#)", "(-x)^#*y", "(x-y)^#", "(-x)%#", "(1/x)^#", "(x*y)^#", "(x/y)^#", "sqrt(x)^#", "abs(x)^#", "(x^2)^#", "(2^x)^#", "(#)^(-x)", "(-#)^x", "x-#-#", "x/#/#"] {
            rt.shared_case("dense", &t.replace('#', &format!("({k})")));
            rt.shared_case("dense", &t.replace('#', &format!("({k}.3)")));
            rt.shared_case("dense", &t.replace('#', &format!("({k}.5)")));
            rt.shared_case("dense", &t.replace('#', &format!("({k}/3)")));
        }
    }
    for (f, fm) in model::builtins() {
        let model::MSym::Fun(fm) = fm else { continue };
        let n = fm.arity.map_or(2, usize::from);
        let outer = format!("{f}({})", ["x", "y"][..n].join(","));
        for o in ["#+1", "1-#", "#*2", "#/2", "#^2", "#^3", "-#", "#^0.5", "10^#", "e^#", "2^#", "#*#", "#/#", "#+x", "x^#", "#^x"] {
            rt.shared_case("dense", &o.replace('#', &outer));
        }
        for i in ["-x", "x+1", "2x", "x^2", "1/x", "x^0.5", "x*y", "x/y", "x^y", "x+y", "x-y", "e^x", "10^x", "2^x", "abs(x)", "sqrt(x)"] {
            rt.shared_case("dense", &format!("{f}({})", vec![i; n].join(",")));
        }
        for (g, gm) in model::builtins() {
            if let model::MSym::Fun(gm) = gm {
                let inner = format!("{g}({})", ["x", "y"][..gm.arity.map_or(2, usize::from)].join(","));
                rt.shared_case("dense", &format!("{f}({})", vec![inner.as_str(); n].join(",")));
                for op in ["+", "-", "*", "/", "^"] {
                    rt.shared_case("dense", &format!("{outer}{op}{inner}"));
                }
            }
        }
    }
    // equal (or nearly equal) sub-expressions on both sides of every operator
    let small = Trees::new(&["x", "y", "2"], &["(-@)", "g(@)", "(@!)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)", "h(@,@)", "v(@,@)"]);
    let mut l1 = small.list(0);
    l1.extend(small.list(1));
    for a in &l1 {
        for b in &l1 {
            for op in ["+", "-", "*", "/", "%", "^"] {
                for (pa, pb) in [("", ""), ("-", ""), ("", "-"), ("-", "-")] {
                    rt.shared_case("tree", &format!("({pa}{a}){op}({pb}{b})"));
                }
            }
        }
    }
    let l2 = Trees::new(&["x", "y"], &["(-@)"], &["(@+@)", "(@*@)", "(@-@)", "h(@,@)"]).list(2);
    for (i, a) in l2.iter().enumerate() {
        for (j, b) in l2.iter().enumerate() {
            if rt.quick() && (i * 7 + j) % 5 != 0 {
                continue;
            }
            for op in ["-", "/", "%", "+"] {
                rt.shared_case("tree", &format!("({a}){op}({b})"));
            }
        }
    }
    // constants of every sort next to a variable, in every operation, one and two levels
    let consts = ["0", "1", "2", "3", "0.5", "10", "170", "1e3", "1e-3", "0.1", "K", "k", "pi", "e", "-0", "-1", "-2", "(1-1)", "(2-1)", "(0-1)", "g(0)", "sin(0)", "cos(0)", "0!", "1.5e300", "5e-324", "z()"];
    for c in consts {
        for op in ["+", "-", "*", "/", "%", "^"] {
            if *op == *"+" {
                for t in ["v(x,C,y)", "max(C,-x,y)", "mean(x,y,C)", "mean(C,x,C)", "min(x!,C)", "-v(C,-x)", "v(exp(C),x)"] {
                    rt.shared_case("full", &t.replace('C', c));
                }
            }
            for t in [format!("x{op}{c}"), format!("{c}{op}x"), format!("(-x){op}{c}"), format!("{c}{op}(-x)"), format!("-(x{op}{c})"), format!("g(x){op}{c}"), format!("x!{op}{c}")] {
                rt.shared_case("full", &t);
                for op2 in ["+", "-", "*", "/", "%", "^"] {
                    for c2 in consts {
                        rt.shared_case("tree", &format!("({t}){op2}{c2}"));
                        rt.shared_case("tree", &format!("{c2}{op2}({t})"));
                    }
                    rt.shared_case("tree", &format!("({t}){op2}x"));
                    rt.shared_case("tree", &format!("x{op2}({t})"));
                    rt.shared_case("tree", &format!("({t}){op2}(y)"));
                }
            }
        }
        for f in ["min(x,C)", "v(C,x)", "v(C,x,C)", "v(C,C,x)", "v(x,C,y,C)", "sum(x,C,C)", "hypot(x,C)", "max(C,C,x)", "atan2(x,C)", "mean(C,x)", "logn(x,C)", "h(C,x)", "h(g(C),x)", "v(x,g(C),C+1,x*0)"] {
            rt.shared_case("full", &f.replace('C', c));
        }
    }
    // argument lists mixing what folds and what doesn't
    let args = ["x", "2", "y", "(1+2)", "(x-x)", "(0*x)", "g(2)", "(x+0)", "-x", "h(1,2)"];
    for a in args {
        rt.shared_case("full", &format!("v({a})"));
        for b in args {
            for c in args {
                rt.shared_case("tree", &format!("v({a},{b},{c})"));
                rt.shared_case("tree", &format!("h({a},{b})-{c}"));
                rt.shared_case("tree", &format!("v({a},h({b},{c}),x)"));
            }
        }
    }
    // all builtins on folded and unfolded arguments
    for (name, sym) in model::builtins() {
        if let model::MSym::Fun(f) = sym {
            let n = f.arity.map_or(3, usize::from);
            for mask in 0..1u32 << n {
                let a: Vec<&str> = (0..n).map(|k| if mask >> k & 1 == 1 { ["x", "y", "x"][k] } else { ["0.5", "2", "(3-1)"][k] }).collect();
                rt.shared_case("full", &format!("{name}({})", a.join(",")));
                rt.shared_case("full", &format!("{name}({})-{name}({})", a.join(","), a.join(",")));
                rt.shared_case("full", &format!("x*{name}({})/y", a.join(",")));
            }
        }
    }
    // implicit multiplication and unparenthesised texts
    let m = &std_pair().m;
    use Tok::T;
    let toks = [T("x"), T("0"), T("1"), T("2"), T("+"), T("-"), T("*"), T("/"), T("^"), T("!"), T("("), T(")"), T("%"), T("g("), T("h("), T(",")];
    Dfs { sub: "text", toks: &toks, nums: &NUMS, max: rt.pick(5, 6), ctx: m, apart: true, slack: 1, split: 3 }.run(rt);
    // long chains
    for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).chain(magic(400)) {
        for f in ["x+|0|", "|x|+0", "1*|x|", "x*|1|", "x-|0|", "x/|1|", "-|x|", "(|x|)^1", "x*|y|", "x/|x|", "x-|y|", "|(x|)", "2x+|1|", "(|x|-0)", "x+|-x|", "g(|x|)", "v(x,|1|)", "v(1,|x|)", "x^|1|", "-(|x|)", "(-|x|)*-1", "1-(|x|)"] {
            rt.shared_case("long", &super::c01::family_text(&format!("{f}|{n}")));
        }
    }
    if !rt.quick() {
        let t = Trees::new(&["x", "0", "1"], &["(-@)"], &BIN_OPS);
        trees(rt, "tree", &t, 4);
        let t = Trees::new(&["x", "y", "0", "1", "2"], &["(-@)", "g(@)"], &bin7);
        trees(rt, "tree", &t, 3);
        let t = Trees::new(&["x"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)"]);
        trees(rt, "tree", &t, 5);
    }
}

// ---------------------------------------------------------------- C06

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn counting_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        let count = || CALLS.with(|c| c.set(c.get() + 1));
        Pair::default()
            .dynfun("g", Some(1), move |a| {
                count();
                a[0] * 1.25 + 0.5
            })
            .dynfun("h", Some(2), move |a| {
                count();
                a[0] * 3.0 - a[1] * 0.5
            })
            .dynfun("v", None, move |a| {
                count();
                weigh(a)
            })
            .dynfun("z", Some(0), move |_| {
                count();
                2.625
            })
            .dynfun("nan", Some(0), move |_| {
                count();
                f64::NAN
            })
            .dynfun("id", Some(1), move |a| {
                count();
                a[0]
            })
            .konst("K", -2.0)
            .konst("inf", f64::INFINITY)
            .konst("minf", f64::NEG_INFINITY)
            .konst("nz", -0.0)
            .konst("nn", f64::NAN)
    })
}

pub fn run_c06(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C06", data, stats);
    }
    if sub == "shadow" {
        let Some((ast, x)) = parse_both(data, shadow_pair())? else { return Ok(()) };
        let Some(want) = ast.eval(&Env::new()) else { return Ok(()) };
        stats.inc("constant_expressions");
        let shown = x.to_string();
        return match shown.parse::<f64>() {
            Ok(v) if same(v, want) => Ok(()),
            Ok(v) => Err(format!("folded to {v:?}, evaluation gives {want:?}")),
            Err(_) => Err(format!("not folded to a number: {shown}")),
        };
    }
    let pair = counting_pair();
    let text = if sub == "family" { super::c01::family_text(data) } else { data.to_owned() };
    let ast = match model::parse(&text, &pair.m) {
        Ok(a) => a,
        Err(_) => {
            stats.inc("rejected");
            return Ok(());
        }
    };
    let user_calls = {
        CALLS.with(|c| c.set(0));
        let vars: BTreeSet<&str> = ast.var_set();
        let env: Env = vars.iter().map(|&v| (v, 0.5)).collect();
        let want = ast.eval(&env);
        (CALLS.with(Cell::get), want)
    };
    let vars = ast.var_set();
    CALLS.with(|c| c.set(0));
    let x = pair.parser.parse(&text).map_err(|e| format!("rejected: {e}"))?;
    let at_parse = CALLS.with(Cell::get);
    stats.state_str(&x.to_string());
    if vars.is_empty() {
        stats.inc("constant_expressions");
        let want = user_calls.1.unwrap();
        if at_parse != user_calls.0 {
            return Err(format!("{at_parse} calls made to fold {} calls", user_calls.0));
        }
        if !x.vars.is_empty() {
            return Err(format!("has variables {:?}", x.vars));
        }
        let shown = x.to_string();
        match shown.parse::<f64>() {
            Ok(v) if same(v, want) => {}
            Ok(v) => return Err(format!("folded to {v:?} ({:016x}), evaluation gives {want:?} ({:016x})", v.to_bits(), want.to_bits())),
            Err(_) => return Err(format!("not folded to a number: {shown}")),
        }
        let got = x.eval_no_vars().map_err(|e| format!("{e}"))?;
        if !same(got, want) {
            return Err(format!("evaluates to {got:?}, expected {want:?}"));
        }
        if CALLS.with(Cell::get) != at_parse {
            return Err("evaluation calls a function of constants again".into());
        }
    } else {
        // constant calls are made once at parse, the others once per evaluation
        let const_calls = constant_calls(&ast);
        stats.inc("mixed_expressions");
        if at_parse != const_calls {
            return Err(format!("{at_parse} calls made while parsing, {const_calls} calls are constant"));
        }
        let env: Env = vars.iter().map(|&v| (v, 0.5)).collect();
        CALLS.with(|c| c.set(0));
        let _ = x.eval(&env);
        let made = CALLS.with(Cell::get);
        if made > user_calls.0 - const_calls {
            return Err(format!("{made} calls made by one evaluation, only {} aren't constant", user_calls.0 - const_calls));
        }
    }
    Ok(())
}

/// Calls of user functions in maximal constant sub-expressions, and whether all is constant.
fn constant_calls(ast: &Ast) -> u64 {
    if ast.var_set().is_empty() {
        return user_call_count(ast);
    }
    match ast {
        Ast::Num(_) | Ast::Var(_) => 0,
        Ast::Un(_, a) => constant_calls(a),
        Ast::Bin(_, a, b) => constant_calls(a) + constant_calls(b),
        Ast::Call(_, args) => args.iter().map(constant_calls).sum(),
    }
}

fn user_call_count(ast: &Ast) -> u64 {
    match ast {
        Ast::Num(_) | Ast::Var(_) => 0,
        Ast::Un(_, a) => user_call_count(a),
        Ast::Bin(_, a, b) => user_call_count(a) + user_call_count(b),
        Ast::Call(f, args) => u64::from(model::builtin(&f.name).is_none()) + args.iter().map(user_call_count).sum::<u64>(),
    }
}

/// The text with its variables replaced by constants.
fn in_constants(t: &str) -> String {
    let b = t.as_bytes();
    let mut s = String::new();
    for (i, &c) in b.iter().enumerate() {
        let part = |k: usize| b.get(k).is_some_and(|c| c.is_ascii_alphanumeric());
        let alone = !(part(i + 1) && b[i + 1].is_ascii_alphanumeric()) && (i == 0 || !b[i - 1].is_ascii_alphabetic());
        match c {
            b'x' if alone => s.push_str("(0.75)"),
            b'y' if alone => s.push_str("(3)"),
            _ => s.push(char::from(c)),
        }
    }
    s
}

pub fn enum_c06(rt: &mut Rt) {
    super::values::enumerate(rt);
    // every built-in name defined as something else
    for t in shadow_texts() {
        rt.shared_case("shadow", &in_constants(&t));
    }
    let un = ["(-@)", "(+@)", "(@!)", "g(@)"];
    let bin: Vec<&str> = [BIN_OPS.as_slice(), &["h(@,@)"]].concat();
    let many = ["0", "1", "2", "3", "0.5", "K", "nz", "inf", "minf", "nn", "1e308", "5e-324", "170", "10", "7.5", "1e16", "-1"];
    let t = Trees::new(&many, &un, &bin);
    for n in 0..=2 {
        trees(rt, "const", &t, n);
    }
    let t = Trees::new(&["0", "1", "0.5", "nz", "inf"], &["(-@)", "id(@)"], &BIN_OPS);
    trees(rt, "const", &t, 3);
    if !rt.quick() {
        let t = Trees::new(&["0", "1", "3", "0.5", "nz", "inf", "nn", "K"], &un, &bin);
        trees(rt, "const", &t, 3);
        let t = Trees::new(&["0", "1", "2"], &["(-@)"], &BIN_OPS);
        trees(rt, "const", &t, 4);
    }
    // two numbers, every operator, many values
    let vals = ["0", "nz", "1", "-1", "2", "-2", "3", "-3", "0.1", "0.2", "0.3", "-0.5", "0.5", "1.5", "-1.5", "10", "-7", "7", "1e308", "-1e308", "1e-308", "5e-324", "-5e-324", "inf", "minf", "nn", "9007199254740993", "1e16", "0.1e-9", "171", "170", "2.5", "100", "1000", "4", "1e22", "3.7e-11", "123456.789", "65536", "4294967296", "pi", "e"];
    for a in vals {
        for b in vals {
            for op in ["+", "-", "*", "/", "%", "^"] {
                rt.shared_case("const", &format!("({a}){op}({b})"));
                rt.shared_case("const", &format!("{a}{op}{b}"));
                rt.shared_case("const", &format!("-({a}){op}({b})"));
                if op != "+" || !rt.quick() {
                    for op2 in ["-", "/", "%", "^", "*"] {
                        rt.shared_case("const", &format!("(({a}){op}({b})){op2}({a})"));
                        rt.shared_case("const", &format!("({b}){op2}(({a}){op}({b}))"));
                    }
                }
            }
        }
    }
    // every built-in
    for (name, sym) in model::builtins() {
        if let model::MSym::Fun(f) = sym {
            for a in vals {
                match f.arity {
                    Some(1) => {
                        rt.shared_case("const", &format!("{name}({a})"));
                        rt.shared_case("const", &format!("{name}(id({a}))-{name}({a})*g({name}({a}))"));
                    }
                    _ => {
                        for b in vals {
                            rt.shared_case("const", &format!("{name}({a},{b})"));
                        }
                        if f.arity.is_none() {
                            rt.shared_case("const", &format!("{name}()"));
                            rt.shared_case("const", &format!("{name}({a})"));
                            rt.shared_case("const", &format!("{name}({a},1,{a},{name}())"));
                        }
                    }
                }
            }
        }
    }
    // nested calls, mixed with variables: each constant call once
    let cargs = ["1", "g(1)", "x", "g(x)", "z()", "h(1,2)", "h(x,g(2))", "(1+g(2))", "v()", "-g(1)", "g(1)!"];
    for a in cargs {
        for b in cargs {
            for t in [format!("h({a},{b})"), format!("v({a},{b},1)"), format!("({a})+({b})"), format!("({a})*({b})"), format!("g({a})-g({b})"), format!("g(g(g({a})))^({b})"), format!("-({a})/({b})"), format!("{a} {b}"), format!("h(h({a},{b}),{a})")] {
                rt.shared_case("mixed", &t);
            }
            for c in cargs {
                rt.shared_case("mixed", &format!("v({a},{b},{c})"));
                rt.shared_case("mixed", &format!("({a})-({b})/({c})"));
            }
        }
    }
    // depth and length
    for n in (0..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257, 300]).chain(magic(400)) {
        for f in ["g(|1|)", "(|2|)", "-|1|", "1+|1|", "1-|1|", "h(|1|,2)", "h(2,|1|)", "v(|1|,1)", "1*|0.5|", "2^|1|", "(1/|3|)", "g(-|1|)", "id(|nz|)", "1/|3|", "0.1+|0.2|", "id(|1|)+g(2)", "v(1,|1|)", "(0.1*|1|)", "1%|3|", "|1|-0.1", "|1|!", "|0|!"] {
            rt.shared_case("family", &format!("{f}|{n}"));
        }
        rt.shared_case("const", &format!("v({})", vec!["g(1)"; n].join(",")));
    }
    // running text
    use Tok::T;
    let toks = [T("2"), T("0"), T("+"), T("-"), T("*"), T("/"), T("^"), T("!"), T("("), T(")"), T("%"), T("g("), T("pi")];
    Dfs { sub: "const", toks: &toks, nums: &NUMS, max: rt.pick(6, 7), ctx: &counting_pair().m, apart: true, slack: 0, split: 3 }.run(rt);
}

// ---------------------------------------------------------------- C07

pub fn check_simplified(ast: &Ast, s: &Xprs, given: &[(&str, f64)], env: &Env, what: &str, stats: &mut Stats) -> Outcome {
    // the first value given to a name wins
    for (i, (n, _)) in given.iter().enumerate() {
        let _ = i;
        if s.vars.contains(n) {
            return Err(format!("{what}: still needs {n}: {s}"));
        }
    }
    if what == "simplify_for" {
        stats.state_str(&s.to_string());
    }
    let mut full: Env = env.clone();
    for &(n, v) in given.iter().rev() {
        if full.contains_key(n) {
            full.insert(ast.var_set().into_iter().find(|m| *m == n).unwrap(), v);
        }
    }
    let rest: Env = env.iter().filter(|(k, _)| !given.iter().any(|(n, _)| n == *k)).map(|(k, v)| (*k, *v)).collect();
    let r = s.eval(&rest);
    let Some(want) = guarded_value(ast, &full) else {
        stats.inc("values_unguarded");
        return match r {
            Ok(_) => Ok(()),
            Err(e) => Err(format!("{what}: {s}: {e}")),
        };
    };
    stats.inc("values_compared");
    match r {
        Ok(v) if same0(v, want) => Ok(()),
        Ok(v) => Err(format!("{what}: gives {s} = {v:?}, expected {want:?} with {} after {given:?}", show_env(&full))),
        Err(e) => Err(format!("{what}: {s}: {e}")),
    }
}

/// Every ordered choice of distinct elements of `names`.
fn sequences<'a>(names: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        let cur: Vec<&str> = out[i].clone();
        i += 1;
        for n in names {
            if !cur.contains(n) {
                let mut c = cur.clone();
                c.push(n);
                out.push(c);
            }
        }
    }
    out
}

pub fn run_c07(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C07", data, stats);
    }
    if sub == "pair" {
        return super::names::run("C07", data, stats);
    }
    let pair = if sub == "shadow" { shadow_pair() } else { std_pair() };
    let Some((ast, x)) = parse_both(data, pair)? else { return Ok(()) };
    let vars = env_refs(&ast);
    let shown = x.to_string();
    if sub == "many" {
        return many(&ast, &x, &vars, stats);
    }
    let many_values: Vec<f64> = (0..20).map(|k| dense(5, k)).collect();
    let grid: &[f64] = match (sub, vars.len()) {
        ("algebra", 1) => &many_values,
        ("algebra", 2) => &[0.1, 2.7, -1.3, 3.0],
        ("algebra", _) => &[0.1, 2.7],
        (_, 0..=1) => &GRID8,
        ("full", 2) => &[0.0, 1.0, -2.3, 0.1, 2.0, -0.0],
        (_, 2) => &GRID4,
        _ => &[0.0, 1.0, -2.7],
    };
    let seqs = sequences(&vars);
    let mut every_way = |env: &Env| {
        for seq in &seqs {
            let given: Vec<(&str, f64)> = seq.iter().map(|&n| (n, env[n])).collect();
            // one by one, consuming
            let mut a = x.clone();
            for &g in &given {
                a = a.simplify_for(g);
            }
            check_simplified(&ast, &a, &given, env, "simplify_for", stats)?;
            if sub == "tree" && given.len() > 2 {
                continue;
            }
            let mut b = x.clone();
            for &g in &given {
                b.simplify_for_in_place(g);
            }
            check_simplified(&ast, &b, &given, env, "simplify_for_in_place", stats)?;
            let c = x.clone().simplify_for_multiple(&given);
            check_simplified(&ast, &c, &given, env, "simplify_for_multiple", stats)?;
            let mut d = x.clone();
            d.simplify_for_multiple_in_place(&given);
            check_simplified(&ast, &d, &given, env, "simplify_for_multiple_in_place", stats)?;
            if given.len() >= 2 {
                // groupings: first part at once, rest one by one, and the other way round
                let mut e = x.clone().simplify_for_multiple(&given[..1]);
                e.simplify_for_multiple_in_place(&given[1..]);
                check_simplified(&ast, &e, &given, env, "multiple then multiple in place", stats)?;
            }
            // absent names are ignored, repeated names keep the first value
            let mut odd: Vec<(&str, f64)> = vec![("absent", 77.0), ("k", 78.0), ("g", 79.0), ("X", 80.0)];
            odd.extend(given.iter().copied());
            odd.extend(given.iter().map(|&(n, v)| (n, v + 1.0)));
            odd.push(("", 81.0));
            let known: Vec<(&str, f64)> = odd.iter().copied().filter(|(n, _)| vars.contains(n)).collect();
            let f = x.clone().simplify_for_multiple(&odd);
            check_simplified(&ast, &f, &known, env, "with absent and repeated names", stats)?;
            let mut g = x.clone();
            for &o in &odd {
                g.simplify_for_in_place(o);
            }
            check_simplified(&ast, &g, &known, env, "in place with absent and repeated names", stats)?;
        }
        Ok(())
    };
    for_each_env(&vars, grid, &mut every_way)?;
    if sub == "full" && vars.len() <= 2 {
        for_each_env(&vars, &NON_FINITE, &mut every_way)?;
    }
    // the original is unaffected
    if x.to_string() != shown {
        return Err(format!("the original became {x}"));
    }
    for k in 0..2 {
        let env: Env = vars.iter().map(|&v| (v, var_value(k, v))).collect();
        if let Some(want) = guarded_value(&ast, &env) {
            let got = x.eval(&env).unwrap_or(f64::NAN);
            if !same0(got, want) {
                return Err(format!("the original evaluates to {got:?} afterwards, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn many(ast: &Ast, x: &Xprs, vars: &[&str], stats: &mut Stats) -> Outcome {
    for k in 0..3 {
        let env: Env = vars.iter().map(|&v| (v, var_value(k, v))).collect();
        let n = vars.len();
        for (step, start, count) in [(1, 0, n), (1, n / 2, n), (n.max(1) - 1, 0, n), (1, 0, n / 2), (1, 1, n.saturating_sub(1)), (1, 0, 1), (1, n.saturating_sub(1), 1)] {
            let given: Vec<(&str, f64)> = (0..count).map(|i| vars[(start + i * step.max(1)) % n]).map(|v| (v, env[v])).collect();
            if step > 1 && n > 2 && (n - 1) % n == 0 {
                continue;
            }
            check_simplified(ast, &x.clone().simplify_for_multiple(&given), &given, &env, "simplify_for_multiple", stats)?;
            let mut y = x.clone();
            for &g in &given {
                y.simplify_for_in_place(g);
            }
            check_simplified(ast, &y, &given, &env, "simplify_for_in_place", stats)?;
            let mut z = x.clone();
            z.simplify_for_multiple_in_place(&given);
            check_simplified(ast, &z, &given, &env, "simplify_for_multiple_in_place", stats)?;
        }
    }
    Ok(())
}

pub fn enum_c07(rt: &mut Rt) {
    super::values::enumerate(rt);
    algebra(rt, "algebra");
    algebra(rt, "shadow");
    // every built-in name defined as something else
    for t in shadow_texts() {
        rt.shared_case("shadow", &t);
    }
    super::names::enumerate(rt);
    let bin: Vec<&str> = [BIN_OPS.as_slice(), &["h(@,@)"]].concat();
    let t = Trees::new(&["x", "y", "0", "1", "2", "K"], &["(-@)", "(+@)", "(@!)", "g(@)"], &bin);
    for n in 0..=1 {
        trees(rt, "full", &t, n);
    }
    let t = Trees::new(&["x", "y", "0", "1"], &["(-@)", "g(@)"], &BIN_OPS);
    trees(rt, "tree", &t, 2);
    let t = Trees::new(&["x", "y", "q"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "v(@,@)"]);
    trees(rt, "tree", &t, 2);
    let t = Trees::new(&["x", "1"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)"]);
    trees(rt, "tree", &t, 3);
    if !rt.quick() {
        let t = Trees::new(&["x", "y", "0", "1", "2"], &["(-@)", "(@!)", "g(@)"], &bin);
        trees(rt, "full", &t, 2);
        let t = Trees::new(&["x", "y", "1"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)"]);
        trees(rt, "tree", &t, 3);
        let t = Trees::new(&["x", "y"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)"]);
        trees(rt, "tree", &t, 4);
    }
    // what a rule can make of a variable that becomes 0 or 1 beside another sub-expression
    let subs = ["y", "(-y)", "g(y)", "y!", "(x+y)", "(x*y)", "(-x)", "x", "h(x,y)", "v(1,y,x)", "sin(y)", "(y^x)", "(x-x)", "(x-y)", "(1-x)", "(2-y)"];
    for a in subs {
        for b in subs {
            for op in ["+", "-", "*", "/", "%", "^"] {
                rt.shared_case("tree", &format!("({a}){op}({b})"));
                rt.shared_case("tree", &format!("({a}){op}({b})-q"));
                rt.shared_case("tree", &format!("g(({a}){op}({b}))*(x-1)"));
            }
        }
    }
    for (name, sym) in model::builtins() {
        if let model::MSym::Fun(f) = sym {
            let n = f.arity.map_or(3, usize::from);
            rt.shared_case("full", &format!("{name}({})", ["x", "y", "x"][..n].join(",")));
            rt.shared_case("full", &format!("1-{name}({})*y", ["x+y", "2", "x"][..n].join(",")));
        }
    }
    // calls and signs of what isn't finite
    for t in ["v(x,y)", "v(y,-x,2)", "-x", "-v(-x)", "x!", "(-x)!", "g(x)", "h(g(x),y)", "v(x,x,y,-y,x!)", "max(x,y,1)", "min(1,x,y)", "sum(x,y,x)", "mean(x,y,x)", "mean(2,x,1)", "v(2,x*y,y^x)", "-(x^y)", "exp(x)", "ln(x*y)", "max(ln(x),y)", "mean(x!,1,y)", "hypot(x,y)", "atan2(x,y)", "abs(-x)", "min(exp(x),2,3)", "x", "+x", "v(x)", "v()"] {
        rt.shared_case("full", t);
    }
    // argument positions
    for n in 1..=rt.pick(6, 9usize) {
        for mask in 0..1u32 << n {
            let args: Vec<&str> = (0..n).map(|k| if mask >> k & 1 == 1 { "x" } else { ["y", "2"][k % 2] }).collect();
            rt.shared_case("tree", &format!("v({})", args.join(",")));
        }
    }
    // many variables, many occurrences, depth
    for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 200]).chain(magic(200)) {
        let names: Vec<String> = (0..n).map(|k| format!("w{k}_")).collect();
        rt.shared_case("many", &names.join("+"));
        rt.shared_case("many", &format!("v({})", names.join(",")));
        rt.shared_case("many", &names.iter().enumerate().map(|(i, s)| format!("{s}{}", ["-", "*", "/", "+"][i % 4])).collect::<String>().trim_end_matches(['-', '*', '/', '+']).to_owned());
        for f in ["x-|y|", "(x-|y|)", "-|x|", "g(|x|)", "x*|2|", "h(x,|y|)", "(|x|)", "v(|y|,x)", "x+|x|", "(1/|x|)"] {
            rt.shared_case("tree", &super::c01::family_text(&format!("{f}|{n}")));
        }
    }
}

// ---------------------------------------------------------------- C15

/// A constant that isn't finite is left in the expression: it prints as a word.
fn prints_non_finite(shown: &str, x: &Xprs) -> bool {
    super::text::tokens(shown).iter().any(|t| matches!(*t, "inf" | "NaN") && !x.vars.contains(t))
}

pub fn round_trip(x: &Xprs, pair: &Pair, grid: &[f64], what: &str, stats: &mut Stats) -> Outcome {
    let shown = x.to_string();
    stats.state_str(&shown);
    if prints_non_finite(&shown, x) {
        stats.inc("non_finite_constants");
        return Ok(());
    }
    let y = pair.parser.parse(&shown).map_err(|e| format!("{what}: printed as {shown}, which is rejected: {e}"))?;
    let mast = model::parse(&shown, &pair.m).map_err(|e| format!("{what}: printed as {shown}, not an expression: {e:?}"))?;
    let mut xv: Vec<&str> = x.vars.iter().copied().collect();
    xv.sort_unstable();
    let mv: Vec<&str> = mast.var_set().into_iter().collect();
    if xv != mv {
        return Err(format!("{what}: printed as {shown}, variables {xv:?} became {mv:?}"));
    }
    if !model::opt() && y.vars != x.vars {
        return Err(format!("{what}: printed as {shown}, variables {:?} became {:?}", x.vars, y.vars));
    }
    if !y.vars.is_subset(&x.vars) {
        return Err(format!("{what}: printed as {shown}, new variables {:?}", y.vars));
    }
    stats.inc("round_trips");
    for_each_env(&xv, grid, &mut |env| {
        let a = x.eval(env).map_err(|e| format!("{what}: {e}"))?;
        let b = y.eval(env).map_err(|e| format!("{what}: {e}"))?;
        if model::opt() {
            if guarded_value(&mast, env).is_none() {
                stats.inc("values_unguarded");
                return Ok(());
            }
            stats.inc("values_compared");
            if same0(a, b) {
                return Ok(());
            }
        } else {
            stats.inc("values_compared");
            if same(a, b) {
                return Ok(());
            }
        }
        Err(format!("{what}: printed as {shown}, value {a:?} became {b:?} with {}", show_env(env)))
    })
}

pub fn run_c15(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C15", data, stats);
    }
    if sub == "pair" {
        return super::names::run("C15", data, stats);
    }
    let pair = round_pair();
    let text = if sub == "family" { super::c01::family_text(data) } else { data.to_owned() };
    let Ok(x) = pair.parser.parse(&text) else {
        stats.inc("rejected");
        return Ok(());
    };
    let n = x.vars.len();
    let grid: &[f64] = match n {
        0..=1 => &[0.0, -0.0, 1.0, -2.7, 3.0, 0.1, 7.31, f64::INFINITY, f64::NAN, -1e300],
        2 => &[0.0, 1.0, -2.7, 3.1],
        3 => &[1.0, -2.7, 3.1],
        4..=6 => &[1.7, -2.1],
        _ => &[1.5],
    };
    round_trip(&x, pair, grid, "parsed", stats)?;
    // the value of the print is also that of the text
    if sub == "simplified" || sub == "family" {
        let names: Vec<&str> = x.vars.iter().copied().collect();
        let vals: &[f64] = &[0.0, -0.0, 1.0, -1.0, 2.5, -2.5, -3.0, 3.0, 1e300, -1e-300, 0.1, 1e21, -1e22, 123456789.125, 5e-324, -0.5, 1e-7];
        for &a in &names {
            for &v in vals {
                let y = x.clone().simplify_for((a, v));
                round_trip(&y, pair, grid, &format!("simplified for {a}={v:?}"), stats)?;
                if names.len() == 2 && sub == "simplified" {
                    for &b in &names {
                        if b != a {
                            for w in [-2.0, 0.5, 0.0, 1.0] {
                                let z = y.clone().simplify_for((b, w));
                                round_trip(&z, pair, grid, &format!("simplified for {a}={v:?}, {b}={w:?}"), stats)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn round_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        Pair::default()
            .fun("z", Some(0), |_| 2.625)
            .fun("g", Some(1), |a| a[0] * 1.25 + 0.5)
            .dynfun("h", Some(2), |a: &[f64]| a[0] * 3.0 - a[1] * 0.5)
            .dynfun("v", None, weigh)
            .konst("k", 1.75)
            .konst("K", -2.0)
            .konst("N", -2.5)
            .konst("big", 1e300)
            .konst("tiny", -1e-300)
            .konst("nz", -0.0)
            .konst("third", 1.0 / 3.0)
    })
}

pub fn enum_c15(rt: &mut Rt) {
    super::values::enumerate(rt);
    super::names::enumerate(rt);
    let bin: Vec<&str> = [BIN_OPS.as_slice(), &["h(@,@)", "v(@,@)"]].concat();
    let un = ["(-@)", "(+@)", "(@!)", "g(@)", "v(@)"];
    let t = Trees::new(&["x", "y", "2", "0.5", "K", "N", "nz", "z()", "v()", "1e30", "third", "big", "tiny", "0"], &un, &bin);
    for n in 0..=1 {
        trees(rt, "simplified", &t, n);
    }
    let t = Trees::new(&["x", "2", "K"], &un, &bin);
    trees(rt, if rt.quick() { "tree" } else { "simplified" }, &t, 2);
    let t = Trees::new(&["x", "y", "N", "2"], &["(-@)", "(@!)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)"]);
    trees(rt, "simplified", &t, 2);
    let t = Trees::new(&["x", "y", "K"], &["(-@)", "(@!)", "g(@)"], &BIN_OPS);
    trees(rt, "tree", &t, 3);
    if !rt.quick() {
        let t = Trees::new(&["x", "y", "2", "K"], &["(-@)", "(+@)", "(@!)", "g(@)"], &BIN_OPS);
        trees(rt, "tree", &t, 3);
        let t = Trees::new(&["x", "K"], &["(-@)", "(@!)"], &["(@-@)", "(@/@)", "(@^@)"]);
        trees(rt, "tree", &t, 4);
    }
    // every number, as a literal and as a constant: values at every place
    for e in -330..=308 {
        for m in ["1", "1.5", "9.87654321", "2.2250738585072014"] {
            rt.shared_case("tree", &format!("x*{m}e{e}"));
            rt.shared_case("tree", &format!("-{m}e{e}^x"));
        }
    }
    for n in ["0", "1", "10", "100", "1e15", "1e16", "1e17", "1e20", "1e21", "1e22", "123456789012345678901234567890", "0.1", "0.30000000000000004", "1e-5", "1e-6", "1e-7", "5e-324", "1.7976931348623157e308", "4.35", "0.000001", "2_000", "00012", "1.", ".5"] {
        for t in ["x+#", "#-x", "#^x", "-#^x", "x^#", "x^-#", "#!", "x*-#", "g(#)", "v(x,#,-#)", "#x", "x-(-#)", "(-#)!", "(x-#)!"] {
            rt.shared_case("simplified", &t.replace('#', n));
        }
    }
    // names, calls, arguments
    for f in ["sin(x)", "invert(x)", "recip(x)", "min()", "max(x)", "min(x,y,2)", "mean(x,y,-2)", "sum(-x,-y)", "atan2(x,y)", "atan2(-x,-2)", "hypot(x-1,y)", "logn(x,2)", "factorial(x)", "gamma(x)", "g(g(g(x)))", "h(h(x,y),h(y,x))", "v(v(),v(x),v(x,y))", "z()x", "x'", "x_1'a", "Xx", "e_x+pi_x", "infx", "NaNx+1", "x inf", "g(-x)!", "-g(x)!", "(-x)^2", "-x^2", "(x!)!", "x!!", "-(-x)", "--x", "+x", "-+x", "(x^y)^x", "x^(y^x)", "x^y^x", "x-(y-x)", "x/(y/x)", "x%(y%x)", "(x%y)%x", "2x y", "2x^2y", "x/2y", "x(y)(x)", "2(3)x", "(x)!y", "x^-y", "x^(-y)!", "(x^-y)!", "(-2)^x", "-2^x", "2^-x^y", "(-x)!"] {
        rt.shared_case("simplified", f);
        rt.shared_case("simplified", &format!("-({f})"));
        rt.shared_case("simplified", &format!("({f})!"));
        rt.shared_case("simplified", &format!("({f})^2"));
        rt.shared_case("simplified", &format!("2^({f})"));
        rt.shared_case("simplified", &format!("1-({f})"));
        rt.shared_case("simplified", &format!("1/({f})"));
        rt.shared_case("simplified", &format!("K({f})"));
        rt.shared_case("simplified", &format!("N^({f})"));
        rt.shared_case("simplified", &format!("h(N,{f})"));
    }
    for (name, sym) in model::builtins() {
        match sym {
            model::MSym::Fun(f) => {
                let n = f.arity.map_or(3, usize::from);
                rt.shared_case("simplified", &format!("{name}({})", ["x", "y", "-2"][..n].join(",")));
                rt.shared_case("simplified", &format!("-{name}({})!", ["x", "N", "y"][..n].join(",")));
            }
            model::MSym::Const(_) => rt.shared_case("simplified", &format!("x^{name}-{name}!x")),
        }
    }
    // running text
    use Tok::T;
    let toks = [T("x"), T("2"), T("K"), T("+"), T("-"), T("*"), T("/"), T("^"), T("!"), T("("), T(")"), T("g("), T("h("), T(","), T("%")];
    Dfs { sub: "tree", toks: &toks, nums: &NUMS, max: rt.pick(5, 6), ctx: &round_pair().m, apart: true, slack: 0, split: 2 }.run(rt);
    // depth, length, arguments
    for n in (0..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]).chain(magic(400)) {
        for f in ["-|x|", "(|x|)", "g(|x|)", "v(x,|1|)", "x+|x|", "x-(|x|)", "x^|x|", "|x|!", "(x^|x|)", "h(|x|,2)", "x |x|", "-(|x|)!", "(-|x|)^2", "x/|x|", "(x/|x|)", "v(|x|,1)", "x-|x|", "a|x|"] {
            rt.shared_case("family", &format!("{f}|{n}"));
        }
    }
}

// ---------------------------------------------------------------- C20

struct Entry {
    text: String,
    x: Xprs<'static>,
    vals: Vec<f64>,
}

fn eq_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        Pair::default()
            .fun("g", Some(1), |a| a[0] * 1.25 + 0.5)
            .fun("g2", Some(1), |a| a[0] * 2.25 + 0.5)
            .dynfun("h", Some(2), |a: &[f64]| a[0] * 3.0 - a[1] * 0.5)
            .dynfun("h2", Some(2), |a: &[f64]| a[0] * 3.5 - a[1] * 0.5)
            .dynfun("v", None, weigh)
            .fun("v2", None, |a| a.iter().sum())
            .konst("k", 1.75)
    })
}

/// Closures of one type that differ in what they captured.
fn scaled(by: f64) -> impl Fn(&[f64]) -> f64 + Send + Sync + Clone + 'static {
    move |a| a.iter().sum::<f64>() * by + 1.0
}

/// Contexts in which the same names mean different things.
fn eq_pairs() -> &'static [Pair; 5] {
    static P: OnceLock<[Pair; 5]> = OnceLock::new();
    P.get_or_init(|| {
        [
            Pair::default().fun("g", Some(1), |a| a[0] * 1.25 + 0.5).dynfun("h", Some(2), scaled(2.0)).dynfun("v", None, scaled(3.0)).konst("k", 1.75),
            Pair::default().fun("g", Some(1), |a| a[0] * 2.25 + 0.5).dynfun("h", Some(2), scaled(2.5)).dynfun("v", None, scaled(3.0)).konst("k", 2.0),
            Pair::default().fun("g", None, |a| a.iter().product::<f64>() - 3.0).dynfun("h", None, scaled(2.0)).fun("v", Some(1), |a| a[0] * 1.25 + 0.5).konst("y", 3.0),
            Pair::default().dynfun("g", Some(1), |a| a[0] - 0.75).dynfun("h", Some(2), scaled(-1.0)).dynfun("v", Some(2), scaled(2.0)).fun("sin", Some(1), |a| a[0] * 7.0).konst("pi", 3.0),
            Pair::default(),
        ]
    })
}

const EQ_ENVS: [[f64; 3]; 12] = [
    // values whose sums and products round differently in different orders
    [0.1, 0.2, 0.3],
    [1e16, 1.1, -1e16],
    [-0.7, 1.3e8, 4.9e-9],
    [1.0, 1e200, 1e-310],
    [0.7390851332151607, 1.618033988749895, 2.5671432904097838],
    [3.0, 2.0, 5.0],
    [-1.5, 0.25, -0.75],
    [0.0, 1.0, 2.0],
    [1.0, 0.0, -1.0],
    [2.0, -3.0, 0.5],
    [1e300, -1e300, 1e-300],
    [f64::INFINITY, 0.5, -2.0],
];

fn eval_all(x: &Xprs) -> Result<Vec<f64>, String> {
    EQ_ENVS
        .iter()
        .map(|e| {
            let env: Env = HashMap::from([("x", e[0]), ("y", e[1]), ("q", e[2])]);
            x.eval(&env).map_err(|e| e.to_string())
        })
        .collect()
}

fn pool(name: &str) -> &'static Vec<Entry> {
    static POOLS: OnceLock<std::sync::Mutex<HashMap<String, &'static Vec<Entry>>>> = OnceLock::new();
    let m = POOLS.get_or_init(Default::default);
    if let Some(p) = m.lock().unwrap().get(name) {
        return p;
    }
    let mut texts: Vec<String> = vec![];
    match name {
        "M" => {
            let t = Trees::new(&["x", "y", "2", "k", "3"], &["(-@)", "g(@)", "v(@)", "sin(@)"], &["(@+@)", "(@*@)", "(@-@)", "(@^@)", "h(@,@)", "v(@,@)"]);
            for n in 0..=1 {
                texts.extend(t.list(n));
            }
            for s in ["v()", "v(x,y,q)", "g()", "g(x,y)", "h(y,x)", "pi", "pi x", "sin(pi)x", "cos(x)", "gx", "1.75", "2.0", "3x", "h(x,k)", "g(k)", "k+x", "x+k", "1.75+x", "x k", "y x", "3x"] {
                texts.push(s.to_owned());
            }
        }
        "N" => {
            // constants next to each other, of all sizes
            let near = ["0", "5e-324", "1e-323", "2.2250738585072014e-308", "1e-300", "1e-17", "1e-16", "1e-9", "1.0000000001e-9", "0.1", "0.10000000000000002", "0.3", "0.30000000000000004", "0.9999999999999999", "1", "1.0000000000000002", "1.000000000001", "1.000001", "1.001", "2", "1.9999999999999998", "3", "3.0000000000000004", "255", "256", "16777216", "16777217", "4294967296", "4294967297", "9007199254740992", "9007199254740994", "1e16", "10000000000000002", "1e300", "1.0000000000000001e300", "1e308", "1.7976931348623157e308", "1e400"];
            let near: Vec<String> = near.iter().flat_map(|c| [(*c).to_owned(), format!("(-{c})")]).collect();
            for form in ["@", "x*@", "x+@", "@-x", "h(x,@)", "v(@,x,@)", "x^@", "@^x", "min(@,x)", "sin(x+@)", "(x+@)*y"] {
                texts.extend(near.iter().map(|c| form.replace('@', c)));
            }
        }
        "V" => {
            // the same function on every list of one to four arguments, and on nested lists
            let leaves = ["x", "y", "q", "1"];
            let mut lists: Vec<Vec<&str>> = vec![vec![]];
            let mut all: Vec<String> = vec![];
            for _ in 0..4 {
                lists = lists.iter().flat_map(|l| leaves.iter().map(move |a| [l.as_slice(), &[*a]].concat())).collect();
                all.extend(lists.iter().map(|l| l.join(",")));
            }
            for f in ["sum", "mean", "v2"] {
                texts.extend(all.iter().map(|l| format!("{f}({l})")));
            }
            for f in ["min", "max", "v"] {
                texts.extend(all.iter().filter(|l| l.len() <= 5).map(|l| format!("{f}({l})")));
            }
            for a in ["x", "y", "q"] {
                for b in ["x", "y", "q"] {
                    for c in ["x", "y", "q"] {
                        for t in ["sum(A,B)+C", "A+sum(B,C)", "sum(sum(A,B),C)", "sum(A,sum(B,C))", "A*B*C", "A*(B*C)", "A+B+C", "A+(B+C)", "A-B-C", "A-(B+C)", "A/B/C", "A/(B*C)", "A*B/C", "A/C*B", "A*(B/C)", "A%B%C", "A^B^C", "(A^B)^C", "A^(B*C)", "hypot(A,B)*C", "atan2(A,B)+C", "mean(A,B)+C", "-(A+B)*C", "A+B-C", "A-C+B", "(A+B)*C", "A*C+B*C"] {
                            texts.push(t.replace('A', a).replace('B', b).replace('C', c));
                        }
                    }
                }
            }
        }
        "a" | "A" => {
            let t = Trees::new(&["x", "y", "q", "2", "k", "3"], &["(-@)", "(@!)", "g(@)", "g2(@)", "v(@)", "v2(@)"], &[BIN_OPS.as_slice(), &["h(@,@)", "h2(@,@)", "v(@,@)"]].concat());
            for n in 0..=1 {
                texts.extend(t.list(n));
            }
            for s in ["v()", "v2()", "v(x,y,q)", "v(y,x,q)", "v(q,y,x)", "v(x,q,y)", "v2(x,y,q)", "v(x,y,q,2)", "v(x,y,2,q)", "(x+y)+q", "x+(y+q)", "(y+x)+q", "q+(x+y)", "(x*y)*q", "q*(y*x)", "x*(y*q)", "x-y-q", "x-(y-q)", "sin(x)", "cos(x)", "min(x,y)", "max(x,y)", "min(y,x)", "recip(x)", "invert(x)", "1/x", "x!!", "--x", "+x", "x^2", "x*x", "2x", "x+x", "atan2(x,y)", "atan2(y,x)", "hypot(x,y)", "hypot(y,x)", "-x-y", "-(x+y)", "x+2-2", "0x", "x-x", "x/x", "y/y", "min()", "max()"] {
                texts.push(s.to_owned());
            }
        }
        _ => {
            // pool B: two levels over a few leaves and operators
            let t = Trees::new(&["x", "y", "2"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)"]);
            texts.extend(t.list(1));
            texts.extend(t.list(2));
            let t = Trees::new(&["x", "y"], &["(@!)", "g(@)"], &["(@+@)", "(@*@)", "h(@,@)"]);
            texts.extend(t.list(2));
            if name == "C" {
                let t = Trees::new(&["x", "y"], &["(-@)"], &["(@+@)", "(@-@)", "(@*@)"]);
                texts.extend(t.list(3));
            }
        }
    }
    let v: Vec<Entry> = if name == "M" {
        let each = texts.iter().flat_map(|t| eq_pairs().iter().enumerate().map(move |(i, p)| (i, p, t)));
        each.filter_map(|(i, p, text)| {
            let x = p.parser.parse(intern(text)).ok()?;
            let vals = eval_all(&x).ok()?;
            Some(Entry { text: format!("{text} (context {i})"), x, vals })
        })
        .collect()
    } else {
        texts
            .into_iter()
            .filter_map(|text| {
                let x = eq_pair().parser.parse(intern(&text)).ok()?;
                let vals = eval_all(&x).ok()?;
                Some(Entry { text, x, vals })
            })
            .collect()
    };
    let v: &'static Vec<Entry> = Box::leak(Box::new(v));
    m.lock().unwrap().insert(name.to_owned(), v);
    v
}

pub fn run_c20(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "pair" {
        return super::names::run("C20", data, stats);
    }
    let p = &eq_pair().parser;
    if sub == "self" {
        let text = super::c01::family_text(data);
        return reflexive(&text, stats);
    }
    if sub == "swap" {
        // operands of + and * swapped
        let (a, b) = data.split_once('\u{1}').unwrap();
        for op in ["+", "*"] {
            let s = format!("({a}){op}({b})");
            let t = format!("({b}){op}({a})");
            let (Ok(x), Ok(y)) = (p.parse(&s), p.parse(&t)) else { return Ok(()) };
            if s.contains("NaN") || x.to_string().contains("NaN") {
                continue;
            }
            stats.inc("swaps");
            if x != y || y != x {
                return Err(format!("{x} and {y} compare different"));
            }
            for (l, r) in [("g(", ")"), ("-(", ")"), ("h(x,", ")"), ("x^(", ")"), ("(", ")-y")] {
                let (s2, t2) = (format!("{l}{s}{r}"), format!("{l}{t}{r}"));
                let (x, y) = (p.parse(&s2).map_err(|e| e.to_string())?, p.parse(&t2).map_err(|e| e.to_string())?);
                if (x != y || y != x) && !x.to_string().contains("NaN") {
                    return Err(format!("{x} and {y} compare different"));
                }
            }
        }
        return Ok(());
    }
    // one row: an expression against the pool
    let (name, i) = data.split_once(' ').unwrap();
    let pool = pool(name);
    let i: usize = i.parse().unwrap();
    let Some(a) = pool.get(i) else { return Ok(()) };
    if name != "M" {
        reflexive(&a.text, stats)?;
    }
    for b in pool {
        let e = a.x == b.x;
        stats.inc("pairs");
        if e != (b.x == a.x) {
            return Err(format!("{} == {} isn't symmetric", a.text, b.text));
        }
        if e {
            stats.inc("equal_pairs");
            for (k, (u, w)) in a.vals.iter().zip(&b.vals).enumerate() {
                if !same0(*u, *w) {
                    return Err(format!("{} and {} compare equal, but give {u:?} and {w:?} for x,y,q = {:?}", a.text, b.text, EQ_ENVS[k]));
                }
            }
            if a.x.vars != b.x.vars {
                return Err(format!("{} and {} compare equal, but have different variables", a.text, b.text));
            }
        }
    }
    // simplified forms
    for v in [0.0, 2.0, -1.0] {
        let s = a.x.clone().simplify_for(("x", v));
        let sv = eval_all(&s)?;
        for b in pool.iter().take(400) {
            if s == b.x {
                let env_ok = sv.iter().zip(&b.vals).all(|(u, w)| same0(*u, *w));
                if !env_ok {
                    return Err(format!("{} with x={v} compares equal to {}, values differ", a.text, b.text));
                }
            }
        }
    }
    Ok(())
}

fn reflexive(text: &str, stats: &mut Stats) -> Outcome {
    let p = &eq_pair().parser;
    let Ok(x) = p.parse(text) else { return Ok(()) };
    let shown = x.to_string();
    if super::text::tokens(&shown).contains(&"NaN") {
        return Ok(());
    }
    stats.inc("reflexive");
    let c = x.clone();
    if c != x || x != c || x != x {
        return Err(format!("{shown} differs from its clone"));
    }
    let t2 = text.to_owned();
    let y = p.parse(&t2).map_err(|e| e.to_string())?;
    if x != y || y != x {
        return Err(format!("{shown} differs from a second parse of its text"));
    }
    let pc = p.clone();
    let z = pc.parse(&t2).map_err(|e| e.to_string())?;
    if x != z {
        return Err(format!("{shown} differs from the parse of a cloned parser"));
    }
    Ok(())
}

pub fn enum_c20(rt: &mut Rt) {
    super::names::enumerate(rt);
    for (name, max) in [("A", 700), ("M", 4000), ("N", 4000), ("V", 4000), ("B", 3000), ("C", if rt.quick() { 0 } else { 20_000 })] {
        if max == 0 {
            continue;
        }
        let n = pool(name).len().min(max);
        for i in 0..n {
            rt.shared_case("row", &format!("{name} {i}"));
        }
    }
    let subs = Trees::new(&["x", "y", "2"], &["(-@)", "(@!)", "g(@)"], &["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@^@)", "(@%@)", "h(@,@)", "v(@,@)"]);
    let mut l = subs.list(0);
    l.extend(subs.list(1));
    for a in &l {
        for b in &l {
            rt.shared_case("swap", &format!("{a}\u{1}{b}"));
        }
    }
    let l2 = Trees::new(&["x", "y"], &["g(@)"], &["(@+@)", "(@*@)", "(@-@)"]).list(2);
    for a in &l2 {
        for b in ["x", "y", "(x+y)", "(y*x)", "g(x)", "2"] {
            rt.shared_case("swap", &format!("{a}\u{1}{b}"));
        }
    }
    for n in (0..=60usize).chain(magic(400)) {
        for f in ["x+|y|", "x*|y|", "(|x|)", "g(|x|)", "-|x|", "v(x,|1|)", "x-|y|", "|x|!", "a|x|", "x^|2|", "h(|x|,y)"] {
            rt.shared_case("self", &format!("{f}|{n}"));
        }
    }
}
