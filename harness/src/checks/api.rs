//! C08, C09, C10: evaluating, binding, variable sets.
use crate::model::{self, same, Ast, Env};
use crate::rt::{guarded, Outcome, Rt, Stats};
use crate::util::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use xprs::{Context, Parser, Xprs};

/// Variables of an expression, read off its printed form (the set it reports isn't trusted here).
fn printed_vars(x: &Xprs, pair: &Pair) -> BTreeSet<String> {
    let shown = x.to_string();
    super::text::tokens(&shown)
        .into_iter()
        .filter(|t| model::is_ident_start(t.as_bytes()[0]) && pair.m.lookup(t).is_none())
        .filter(|t| !(matches!(*t, "inf" | "NaN") && !x.vars.contains(t)))
        .map(str::to_owned)
        .collect()
}

// ---------------------------------------------------------------- C08

/// Calls the function bound to `names` with `vals`, for 1 to 9 names.
fn bind_k<'a>(x: Xprs<'a>, names: &[&'a str], vals: &[&[f64]]) -> Result<Vec<f64>, String> {
    let e = |e: xprs::BindError| e.to_string();
    let n = names;
    macro_rules! go {
        ($m:ident, $($i:literal),*) => {{
            let f = x.$m($(n[$i]),*).map_err(e)?;
            Ok(vals.iter().map(|v| f($(v[$i]),*)).collect())
        }};
    }
    match names.len() {
        1 => go!(bind, 0),
        2 => go!(bind2, 0, 1),
        3 => go!(bind3, 0, 1, 2),
        4 => go!(bind4, 0, 1, 2, 3),
        5 => go!(bind5, 0, 1, 2, 3, 4),
        6 => go!(bind6, 0, 1, 2, 3, 4, 5),
        7 => go!(bind7, 0, 1, 2, 3, 4, 5, 6),
        8 => go!(bind8, 0, 1, 2, 3, 4, 5, 6, 7),
        9 => go!(bind9, 0, 1, 2, 3, 4, 5, 6, 7, 8),
        k => Err(format!("no bind for {k}")),
    }
}

/// Same through an array of names.
fn bind_arr<'a>(x: Xprs<'a>, names: &[&'a str], vals: &[&[f64]]) -> Result<Vec<f64>, String> {
    macro_rules! go {
        ($($k:literal),*) => {
            match names.len() {
                $($k => {
                    let a: [&'a str; $k] = names.try_into().unwrap();
                    let f = x.bind_n(a).map_err(|e| e.to_string())?;
                    Ok(vals.iter().map(|v| f((*v).try_into().unwrap())).collect())
                })*
                k => Err(format!("no bind_n for {k}")),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 40, 64, 65)
}

const ARR_SIZES: [usize; 21] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 40, 64, 65];

fn bind_slice<'a>(x: Xprs<'a>, names: &'a [&'a str], vals: &[&[f64]]) -> Result<Vec<f64>, String> {
    let f = x.bind_n_runtime(names).map_err(|e| e.to_string())?;
    vals.iter().map(|v| f(v).map_err(|e| e.to_string())).collect()
}

/// Every way of evaluating `x` with `names[k]` = `vals[c][k]` in call c must give the same number.
pub fn routes(x: &Xprs, names: &[&str], calls: &[Vec<f64>], stats: &mut Stats, ast: Option<&Ast>) -> Outcome {
    let mut want = vec![];
    for c in calls {
        let mut env: Env = HashMap::new();
        for (n, v) in names.iter().zip(c) {
            env.insert(n, *v); // the last one wins
        }
        let a = x.eval(&env).map_err(|e| format!("eval: {e}"))?;
        let b = x.eval_unchecked(&env);
        if !same(a, b) {
            return Err(format!("eval gives {a:?}, eval_unchecked {b:?} with {}", show_env(&env)));
        }
        if let (Some(ast), false) = (ast, model::opt()) {
            if let Some(m) = ast.eval(&env) {
                if !same(a, m) {
                    return Err(format!("eval gives {a:?}, expected {m:?} with {}", show_env(&env)));
                }
            }
        }
        want.push(a);
    }
    let views: Vec<&[f64]> = calls.iter().map(Vec::as_slice).collect();
    // the same expression, owned for the lifetime of the names
    let check = |what: &str, got: Result<Vec<f64>, String>| -> Outcome {
        let got = got.map_err(|e| format!("{what}({names:?}): {e}"))?;
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if !same(*g, *w) {
                return Err(format!("{what}({names:?}) called with {:?} gives {g:?}, eval gives {w:?}", calls[i]));
            }
        }
        Ok(())
    };
    stats.inc("routes");
    if names.len() >= 1 && names.len() <= 9 {
        check("bind", guarded(|| bind_k(x.clone(), names, &views)).unwrap_or_else(Err))?;
    }
    if ARR_SIZES.contains(&names.len()) {
        check("bind_n", guarded(|| bind_arr(x.clone(), names, &views)).unwrap_or_else(Err))?;
    }
    check("bind_n_runtime", guarded(|| bind_slice(x.clone(), names, &views)).unwrap_or_else(Err))?;
    if x.vars.is_empty() {
        let a = x.eval_no_vars().map_err(|e| format!("eval_no_vars: {e}"))?;
        let b = x.eval_no_vars_unchecked();
        for w in &want {
            if !same(a, *w) || !same(b, *w) {
                return Err(format!("eval gives {w:?}, eval_no_vars {a:?}, eval_no_vars_unchecked {b:?}"));
            }
        }
    }
    Ok(())
}

pub fn run_c08(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C08", data, stats);
    }
    if sub == "pair" {
        return super::names::run("C08", data, stats);
    }
    match sub {
        "tree" => {
            let pair = std_pair();
            let Ok(x) = pair.parser.parse(data) else { return Ok(()) };
            let Ok(ast) = model::parse(data, &pair.m) else { return Ok(()) };
            let vals = [0.0, 1.0, -2.5, 0.5, f64::INFINITY, f64::NAN, 3.0, -0.0, 1e300];
            let calls: Vec<Vec<f64>> = (0..vals.len()).flat_map(|i| (0..vals.len()).map(move |j| vec![vals[i], vals[j]])).collect();
            routes(&x, &["x", "y"], &calls, stats, Some(&ast))?;
            routes(&x, &["y", "x"], &calls, stats, Some(&ast))?;
            // unused names, repeated names
            let three: Vec<Vec<f64>> = calls.iter().step_by(5).map(|c| vec![c[0], 99.0, c[1]]).collect();
            routes(&x, &["x", "unused", "y"], &three, stats, Some(&ast))?;
            routes(&x, &["x", "x", "y"], &three, stats, Some(&ast))?;
            routes(&x, &["y", "x", "y"], &three, stats, Some(&ast))?;
            // parsing from text directly
            plain_try_from(data)?;
            Ok(())
        }
        "try_from" => plain_try_from(data),
        "names" => {
            // comma separated names; the expression gives a different weight to every variable
            let (text, names) = data.split_once('\u{1}').unwrap();
            let names: Vec<&str> = if names.is_empty() { vec![] } else { names.split(',').collect() };
            let pair = std_pair();
            let x = pair.parser.parse(text).map_err(|e| e.to_string())?;
            let ast = model::parse(text, &pair.m).map_err(|e| format!("{e:?}"))?;
            let n = names.len();
            let calls: Vec<Vec<f64>> = (0..4)
                .map(|c| (0..n).map(|k| [k as f64 + 1.0, 100.0 - k as f64 * 0.5, if k % 3 == 0 { -1.25 } else { k as f64 * 7.0 }, (k * k) as f64 * 0.125 - 3.0][c]).collect())
                .chain([vec![1.0; n]])
                .collect();
            routes(&x, &names, &calls, stats, Some(&ast))
        }
        "repeat" => {
            // one bound function called many times
            let n: usize = data.parse().unwrap();
            let pair = std_pair();
            let x = pair.parser.parse("g(x)-2y").map_err(|e| e.to_string())?;
            let f = x.clone().bind2("x", "y").map_err(|e| e.to_string())?;
            let a = x.clone().bind_n(["y", "x"]).map_err(|e| e.to_string())?;
            let names = ["x", "y"];
            let r = x.clone().bind_n_runtime(&names).map_err(|e| e.to_string())?;
            for i in 0..n {
                let (u, v) = (i as f64 * 0.5, (i % 97) as f64);
                let want = u * 1.25 + 0.5 - 2.0 * v;
                for (what, got) in [("bind2", f(u, v)), ("bind_n", a([v, u])), ("bind_n_runtime", r(&[u, v]).map_err(|e| e.to_string())?), ("eval", x.eval(&HashMap::from([("x", u), ("y", v)])).map_err(|e| e.to_string())?)] {
                    if got != want {
                        return Err(format!("{what} call {i} gives {got:?}, expected {want:?}"));
                    }
                }
                stats.inc("repeated_calls");
            }
            Ok(())
        }
        _ => Err(format!("unknown {sub}")),
    }
}

fn plain_try_from(text: &str) -> Outcome {
    let a = Xprs::try_from(text);
    let b = Parser::default().parse(text);
    match (a, b) {
        (Err(a), Err(b)) if a == b => Ok(()),
        (Err(a), Err(b)) if a.to_string() == b.to_string() => Ok(()),
        (Ok(a), Ok(b)) => {
            if a.to_string() != b.to_string() || a.vars != b.vars {
                return Err(format!("try_from gives {a}, a default parser {b}"));
            }
            for k in 0..3 {
                let env: Env = a.vars.iter().map(|v| (*v, var_value(k, v))).collect();
                match (a.eval(&env), b.eval(&env)) {
                    (Ok(u), Ok(v)) if same(u, v) => {}
                    (u, v) => return Err(format!("try_from evaluates to {u:?}, a default parser to {v:?}")),
                }
            }
            Ok(())
        }
        (a, b) => Err(format!("try_from gives {a:?}, a default parser {b:?}")),
    }
}

fn weights(names: &[String]) -> String {
    // distinct weights, so that any two confused arguments change the value
    names.iter().enumerate().map(|(k, n)| format!("{}{}*{n}", if k == 0 { "" } else { "+" }, 2 * k * k + 3 * k + 1)).collect()
}

pub fn enum_c08(rt: &mut Rt) {
    super::values::enumerate(rt);
    super::names::enumerate(rt);
    let t = Trees::new(&["x", "y", "0", "2", "K"], &["(-@)", "(+@)", "(@!)", "g(@)", "v(@)", "sin(@)"], &[BIN_OPS.as_slice(), &["h(@,@)", "v(@,@)"]].concat());
    for n in 0..=2 {
        t.each(n, &mut |s| {
            rt.shared_case("tree", s);
            !rt.stop()
        });
    }
    let t = Trees::new(&["x", "2"], &["(-@)", "(@!)", "g(@)"], &[BIN_OPS.as_slice(), &["v(@,@)"]].concat());
    t.each(3, &mut |s| {
        if !rt.quick() || s.len() % 3 == 0 || !s.contains('2') {
            rt.shared_case("tree", s);
        }
        !rt.stop()
    });
    let t = Trees::new(&["x", "y"], &["(-@)", "(@!)", "g(@)", "v(2,@)", "(y-@)", "(@^2)", "sqrt(@)"], &[]);
    for n in 2..=rt.pick(4, 5) {
        t.each(n, &mut |s| {
            rt.shared_case("tree", s);
            !rt.stop()
        });
    }
    for (name, sym) in model::builtins() {
        if let model::MSym::Fun(f) = sym {
            rt.shared_case("tree", &format!("{name}({})", ["x", "y", "x"][..f.arity.map_or(3, usize::from)].join(",")));
        }
    }
    // texts for try_from, accepted or not
    use Tok::T;
    let toks = [T("2"), T("x"), T("+"), T("-"), T("^"), T("!"), T("("), T(")"), T("sin("), T("min("), T(","), T("pi"), T("g"), T("/"), T(" "), T("é")];
    Dfs { sub: "try_from", toks: &toks, nums: &NUMS, max: rt.pick(4, 5), ctx: &plain_pair().m, apart: false, slack: 1, split: 2 }.run(rt);
    // every number of names
    for n in 0..=9usize {
        let names: Vec<String> = (0..n).map(|k| format!("a{k}")).collect();
        let text = if n == 0 { "z()".to_owned() } else { weights(&names) };
        let orders: Vec<Vec<usize>> = if n <= rt.pick(6, 8) {
            permutations(n)
        } else {
            // rotations, reversals and every transposition
            let mut v: Vec<Vec<usize>> = (0..n).flat_map(|r| [(0..n).map(|k| (k + r) % n).collect::<Vec<_>>(), (0..n).map(|k| (n + r - k) % n).collect()]).collect();
            for i in 0..n {
                for j in 0..i {
                    let mut p: Vec<usize> = (0..n).collect();
                    p.swap(i, j);
                    v.push(p);
                }
            }
            v
        };
        for o in orders {
            let l: Vec<&str> = o.iter().map(|&k| names[k].as_str()).collect();
            rt.shared_case("names", &format!("{text}\u{1}{}", l.join(",")));
        }
        // a subset used, the others unused, at every place
        for mask in 0..1u32 << n {
            let used: Vec<String> = (0..n).filter(|k| mask >> k & 1 == 1).map(|k| names[k].clone()).collect();
            let text = if used.is_empty() { "2^3".to_owned() } else { weights(&used) };
            rt.shared_case("names", &format!("{text}\u{1}{}", names.join(",")));
        }
        // one name repeated at two places
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let mut l: Vec<String> = names.clone();
                    l[j] = l[i].clone();
                    let mut used = l.clone();
                    used.sort();
                    used.dedup();
                    rt.shared_case("names", &format!("{}\u{1}{}", weights(&used), l.join(",")));
                }
            }
        }
        if n > 0 {
            rt.shared_case("names", &format!("a0\u{1}{}", vec!["a0"; n].join(",")));
        }
    }
    for n in (10..=70usize).chain([100, 127, 128, 129, 200, 255, 256, 257, 300]).chain(magic(600)) {
        let names: Vec<String> = (0..n).map(|k| format!("b{k}'")).collect();
        let t = weights(&names);
        for r in [0, 1, n / 2, n - 1] {
            let l: Vec<&str> = (0..n).map(|k| names[(k + r) % n].as_str()).collect();
            rt.shared_case("names", &format!("{t}\u{1}{}", l.join(",")));
            rt.shared_case("names", &format!("{}\u{1}{}", weights(&names[..n / 2]), l.join(",")));
        }
        let l: Vec<&str> = (0..n).rev().map(|k| names[k].as_str()).collect();
        rt.shared_case("names", &format!("{t}\u{1}{}", l.join(",")));
        // repeated names: every pair of places for the small ones, chosen places for the others
        let ends = [0, 1, n / 2, n - 2, n - 1];
        for i in 0..n {
            for j in 0..n {
                if i != j && (n <= rt.pick(14, 40) || (ends.contains(&i) && ends.contains(&j))) {
                    let mut l: Vec<&str> = names.iter().map(String::as_str).collect();
                    l[j] = l[i];
                    let used: Vec<String> = names.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, s)| s.clone()).collect();
                    rt.shared_case("names", &format!("{}\u{1}{}", weights(&used), l.join(",")));
                }
            }
        }
    }
    // names that resemble each other
    for l in ["x,X", "x,x_,x'", "a,aa,aaa,aaaa", "x1,x2,x11,x12", "e_,e1,E", "pi_,Pi,PI,pI", "sinx,Sin,sin_", "k_,K_,kK", "xy,x,y,yx"] {
        let names: Vec<String> = l.split(',').map(str::to_owned).collect();
        for o in permutations(names.len()) {
            let p: Vec<&str> = o.iter().map(|&k| names[k].as_str()).collect();
            rt.shared_case("names", &format!("{}\u{1}{}", weights(&names), p.join(",")));
        }
    }
    rt.shared_case("repeat", rt.pick("70000", "1000000"));
}

// ---------------------------------------------------------------- C09

/// Names listed by a bind error.
fn listed(msg: &str) -> Option<Vec<String>> {
    let a = msg.find('\'')?;
    let b = msg.rfind("' w")?;
    Some(msg[a + 1..b].split(", ").map(str::to_owned).collect())
}

fn missing_check(what: &str, err: Result<(), String>, missing: &BTreeSet<String>) -> Outcome {
    match err {
        Ok(()) if missing.is_empty() => Ok(()),
        Ok(()) => Err(format!("{what} succeeds, {missing:?} missing")),
        Err(e) if missing.is_empty() => Err(format!("{what} fails though nothing is missing: {e}")),
        Err(e) => {
            let l = listed(&e).ok_or_else(|| format!("{what}: no names in `{e}`"))?;
            let s: BTreeSet<String> = l.iter().cloned().collect();
            if s != *missing || l.len() != missing.len() {
                return Err(format!("{what} lists {} names {:?}…, missing are {}: {:?}…", l.len(), l.iter().take(5).collect::<Vec<_>>(), missing.len(), missing.iter().take(5).collect::<Vec<_>>()));
            }
            if (missing.len() == 1) != e.starts_with("Variable '") {
                return Err(format!("{what}: `{e}` for {} missing", missing.len()));
            }
            Ok(())
        }
    }
}

fn c09_one(x: &Xprs, pair: &Pair, names: &[&str], stats: &mut Stats) -> Outcome {
    let need = printed_vars(x, pair);
    let have: BTreeSet<String> = names.iter().map(|s| (*s).to_owned()).collect();
    let missing: BTreeSet<String> = need.difference(&have).cloned().collect();
    stats.inc(if missing.is_empty() { "complete" } else { "incomplete" });
    // checked evaluation
    let env: Env = names.iter().enumerate().map(|(k, n)| (*n, k as f64 + 0.5)).collect();
    match x.eval(&env) {
        Ok(_) if missing.is_empty() => {}
        Ok(v) => return Err(format!("{x} evaluates to {v:?} without {missing:?}")),
        Err(e) if missing.is_empty() => return Err(format!("{x} has all its values, but: {e}")),
        Err(e) => {
            let s = e.to_string();
            let named = s.split('\'').count() >= 3 && {
                let a = s.find('\'').unwrap();
                let b = s.rfind("' w").unwrap_or(s.len());
                missing.contains(&s[a + 1..b])
            };
            if !named {
                return Err(format!("{x}: `{s}`, missing are {missing:?}"));
            }
        }
    }
    if names.is_empty() {
        let r = x.eval_no_vars();
        if r.is_ok() != missing.is_empty() {
            return Err(format!("eval_no_vars of {x} gives {r:?}, missing are {missing:?}"));
        }
    }
    // unchecked evaluation panics rather than inventing a number
    let u = guarded(|| x.eval_unchecked(&env));
    if u.is_ok() != missing.is_empty() {
        return Err(format!("eval_unchecked of {x} gives {u:?}, missing are {missing:?}"));
    }
    if names.is_empty() {
        let u = guarded(|| x.eval_no_vars_unchecked());
        if u.is_ok() != missing.is_empty() {
            return Err(format!("eval_no_vars_unchecked of {x} gives {u:?}, missing are {missing:?}"));
        }
    }
    // binding, and then calling: never a panic
    let vals: Vec<f64> = (0..names.len()).map(|k| k as f64 + 0.5).collect();
    let one: [&[f64]; 1] = [&vals];
    let unit = |r: Result<Result<Vec<f64>, String>, String>| -> Result<(), String> {
        match r {
            Ok(r) => r.map(|_| ()),
            Err(p) => Err(format!("panic: {p}")),
        }
    };
    if (1..=9).contains(&names.len()) {
        missing_check(&format!("bind {names:?} of {x}"), unit(guarded(|| bind_k(x.clone(), names, &one))), &missing)?;
    }
    if ARR_SIZES.contains(&names.len()) {
        missing_check(&format!("bind_n {names:?} of {x}"), unit(guarded(|| bind_arr(x.clone(), names, &one))), &missing)?;
    }
    missing_check(&format!("bind_n_runtime {names:?} of {x}"), unit(guarded(|| bind_slice(x.clone(), names, &one))), &missing)?;
    // too few and too many values for a slice
    if missing.is_empty() {
        let f = x.clone().bind_n_runtime(names).map_err(|e| e.to_string())?;
        let counts: Vec<usize> = if names.len() <= 12 { (0..=names.len() + 2).collect() } else { vec![0, 1, names.len() / 2, names.len() - 1, names.len(), names.len() + 1] };
        for count in counts {
            let given: Vec<f64> = (0..count).map(|k| k as f64 + 0.5).collect();
            let have: BTreeSet<&str> = names.iter().take(count).copied().collect();
            let missing: BTreeSet<&String> = need.iter().filter(|n| !have.contains(n.as_str())).collect();
            match guarded(|| f(&given)) {
                Err(p) => return Err(format!("slice-bound {x} called with {count} values of {}: panic {p}", names.len())),
                Ok(Ok(v)) => {
                    if !missing.is_empty() {
                        return Err(format!("slice-bound {x} ({names:?}) gives {v:?} from {count} values, missing are {missing:?}"));
                    }
                    let env: Env = names.iter().copied().zip(given.iter().copied()).collect();
                    let w = x.eval(&env).map_err(|e| e.to_string())?;
                    if !same(v, w) {
                        return Err(format!("slice-bound {x} gives {v:?} from {count} values, eval {w:?}"));
                    }
                }
                Ok(Err(e)) => {
                    let s = e.to_string();
                    let a = s.find('\'').unwrap_or(0);
                    let b = s.rfind("' w").unwrap_or(s.len());
                    if !missing.iter().any(|m| m.as_str() == &s[(a + 1).min(b)..b]) {
                        return Err(format!("slice-bound {x} with {count} values: `{s}`, missing are {missing:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run_c09(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "pair" {
        return super::names::run("C09", data, stats);
    }
    let pair = std_pair();
    match sub {
        "missing" => {
            // n variables, m names given
            let v: Vec<usize> = data.split(' ').map(|s| s.parse().unwrap()).collect();
            let (n, skip, m) = (v[0], v[1], v[2]);
            let names: Vec<String> = (0..n).map(|k| format!("c{k}")).collect();
            let text = format!("v({})", names.join(","));
            let x = pair.parser.parse(&text).map_err(|e| e.to_string())?;
            let l: Vec<&str> = names.iter().skip(skip).take(m).map(String::as_str).collect();
            c09_one(&x, pair, &l, stats)
        }
        "history" => {
            // expressions that lost variables by simplification
            let Ok(x) = pair.parser.parse(data) else { return Ok(()) };
            let names: Vec<&str> = x.vars.iter().copied().collect();
            for v in [0.0, 1.0, 2.5] {
                for n in &names {
                    let y = x.clone().simplify_for((n, v));
                    for l in [&[][..], &["x"], &["y"], &["x", "y"], &["q", "x"]] {
                        c09_one(&y, pair, l, stats)?;
                    }
                    let mut z = x.clone();
                    z.simplify_for_multiple_in_place(&[(n, v), ("absent", 1.0)]);
                    for l in [&[][..], &["x"], &["y"], &["x", "y"]] {
                        c09_one(&z, pair, l, stats)?;
                    }
                }
            }
            Ok(())
        }
        _ => {
            let (text, names) = data.split_once('\u{1}').unwrap();
            let names: Vec<&str> = if names.is_empty() { vec![] } else { names.split(',').collect() };
            let Ok(x) = pair.parser.parse(text) else { return Ok(()) };
            if !model::opt() {
                // without optimisation the text says what is needed
                let ast = model::parse(text, &pair.m).map_err(|e| format!("{e:?}"))?;
                let want: BTreeSet<String> = ast.var_set().into_iter().map(str::to_owned).collect();
                if printed_vars(&x, pair) != want {
                    return Err(format!("{x} lost or gained a variable"));
                }
            }
            c09_one(&x, pair, &names, stats)
        }
    }
}

pub fn enum_c09(rt: &mut Rt) {
    super::names::enumerate(rt);
    let t = Trees::new(&["x", "y", "0", "1", "X", "k"], &["(-@)", "(+@)", "(@!)", "g(@)", "v(@)", "sin(@)"], &[BIN_OPS.as_slice(), &["h(@,@)", "v(@,@)", "min(@,@)"]].concat());
    let lists = ["", "x", "y", "X", "x,y", "y,x", "x,X", "X,y,x", "q", "q,x", "x,x", "k", "k,x", "sin,g", "x_,y_"];
    for n in 0..=1 {
        t.each(n, &mut |s| {
            for l in lists {
                rt.shared_case("tree", &format!("{s}\u{1}{l}"));
            }
            !rt.stop()
        });
    }
    let t = Trees::new(&["x", "y", "0"], &["(-@)", "g(@)"], &[BIN_OPS.as_slice(), &["h(@,@)"]].concat());
    t.each(2, &mut |s| {
        for l in ["", "x", "y", "x,y"] {
            rt.shared_case("tree", &format!("{s}\u{1}{l}"));
        }
        if s.len() % 3 == 0 || !s.contains('0') {
            rt.shared_case("history", s);
        }
        !rt.stop()
    });
    let t = Trees::new(&["x", "y"], &["(-@)", "(@!)", "g(@)", "v(2,@)", "(y-@)", "(@^2)", "sqrt(@)"], &[]);
    for n in 2..=rt.pick(4, 5) {
        t.each(n, &mut |s| {
            for l in ["", "x", "y", "x,y"] {
                rt.shared_case("tree", &format!("{s}\u{1}{l}"));
            }
            !rt.stop()
        });
    }
    let t = Trees::new(&["x", "y", "2"], &["(-@)", "(@!)", "g(@)", "v(@)"], &[BIN_OPS.as_slice(), &["v(@,@)"]].concat());
    for n in 2..=3 {
        t.each(n, &mut |s| {
            if n == 2 || !rt.quick() || s.len() % 5 == 0 && !s.contains('2') {
                for l in ["", "x", "y,x"] {
                    rt.shared_case("tree", &format!("{s}\u{1}{l}"));
                }
            }
            !rt.stop()
        });
    }
    let t = Trees::new(&["x", "y", "0", "1"], &["(-@)"], &BIN_OPS);
    for n in 0..=1 {
        t.each(n, &mut |s| {
            rt.shared_case("history", s);
            !rt.stop()
        });
    }
    // every subset of up to 7 variables
    for n in 0..=rt.pick(7usize, 10) {
        let names: Vec<String> = (0..n).map(|k| format!("d{k}")).collect();
        let text = if n == 0 { "2".to_owned() } else { names.join("*2-") };
        for mask in 0..1u32 << n {
            let l: Vec<&str> = (0..n).filter(|k| mask >> k & 1 == 1).map(|k| names[k].as_str()).collect();
            rt.shared_case("tree", &format!("{text}\u{1}{}", l.join(",")));
            if n > 0 {
                rt.shared_case("tree", &format!("{text}\u{1}{}", l.iter().rev().copied().chain(["extra", "more"]).collect::<Vec<_>>().join(",")));
            }
        }
    }
    // any number missing
    let own = magic(20_000);
    for n in (0..=rt.pick(560usize, 1100)).chain(own.iter().copied()) {
        if !own.contains(&n) && n > 40 && n % 7 != 0 && !(254..=259).contains(&n) && !(510..=514).contains(&n) {
            continue;
        }
        for (skip, m) in [(0, 0), (0, 1), (0, n.saturating_sub(1)), (1, n), (0, n), (n / 2, n), (0, n / 2), (2, n.saturating_sub(3))] {
            rt.shared_case("missing", &format!("{n} {skip} {m}"));
        }
    }
    for n in 65_530..65_540usize {
        if rt.quick() && n != 65_536 && n != 65_537 {
            continue;
        }
        rt.shared_case("missing", &format!("{n} 0 0"));
        rt.shared_case("missing", &format!("{n} 0 1"));
    }
}

// ---------------------------------------------------------------- C10

const UNIVERSE: [&str; 6] = ["x", "y", "X", "q", "k", "e"];

fn declared_check(x: &Result<Xprs, xprs::ParseError>, vars: &BTreeSet<String>, list: &[&str], text: &str) -> Outcome {
    use miette::Diagnostic;
    let bad: Vec<&String> = vars.iter().filter(|v| !list.contains(&v.as_str())).collect();
    match x {
        Ok(_) if bad.is_empty() => Ok(()),
        Ok(x) => Err(format!("{text} parsed as {x}, expected variables {list:?}")),
        Err(e) if bad.is_empty() => Err(format!("{text} rejected with expected variables {list:?}: {e}")),
        Err(e) => {
            let m = e.to_string();
            let name = m.split('`').nth(1).unwrap_or("");
            if !m.starts_with("Variable not previously declared") || !bad.iter().any(|b| *b == name) {
                return Err(format!("{text}, expected variables {list:?}: `{m}`"));
            }
            let help = e.help().map(|h| h.to_string()).unwrap_or_default();
            let mut offered: Vec<&str> = help.split('`').skip(1).step_by(2).filter(|s| !s.is_empty()).collect();
            offered.sort_unstable();
            let mut want: Vec<&str> = list.iter().copied().collect();
            want.sort_unstable();
            want.dedup();
            if offered != want {
                return Err(format!("{text}: `{help}` offers {offered:?}, allowed are {want:?}"));
            }
            Ok(())
        }
    }
}

pub fn run_c10(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "pair" {
        return super::names::run("C10", data, stats);
    }
    let pair = std_pair();
    let as_set = |x: &Xprs| -> BTreeSet<String> { x.vars.iter().map(|s| (*s).to_owned()).collect() };
    if sub == "lists" {
        // many allowed names, many variables
        let v: Vec<usize> = data.split(' ').map(|s| s.parse().unwrap()).collect();
        let (n, allowed, extra) = (v[0], v[1], v[2]);
        let names: Vec<String> = (0..n + extra).map(|k| format!("d{k}_")).collect();
        let text = format!("v({})", names[..n].join(","));
        let list: Vec<&str> = names[..allowed].iter().chain(&names[n..]).map(String::as_str).collect();
        let mut p = pair.parser.clone();
        let owned: HashSet<&'static str> = list.iter().map(|s| intern(s)).collect();
        p.ctx_mut().set_expected_vars(owned);
        let vars: BTreeSet<String> = names[..n].iter().cloned().collect();
        let r = p.parse(&text);
        declared_check(&r, &vars, &list, &format!("{n} variables, {allowed} allowed"))?;
        let x = pair.parser.parse(&text).map_err(|e| e.to_string())?;
        if as_set(&x) != vars {
            return Err(format!("{} variables reported of {n}", x.vars.len()));
        }
        let mut y = x.clone();
        for (i, nme) in names[..n].iter().enumerate() {
            y.simplify_for_in_place((nme, 1.5));
            if i % 16 == 0 && y.vars.len() != n - i - 1 {
                return Err(format!("{} variables left after removing {} of {n}", y.vars.len(), i + 1));
            }
        }
        return Ok(());
    }
    if sub == "many" {
        return many_vars(data, stats);
    }
    let Ok(x) = pair.parser.parse(data) else {
        stats.inc("rejected");
        return Ok(());
    };
    stats.inc("accepted");
    let printed = printed_vars(&x, pair);
    let mentioned: BTreeSet<String> = model::parse(data, &pair.m).map_err(|e| format!("{e:?}"))?.var_set().into_iter().map(str::to_owned).collect();
    let want = if model::opt() { printed.clone() } else { mentioned.clone() };
    if as_set(&x) != want || printed != want || !want.is_subset(&mentioned) {
        return Err(format!("{x}: variables {:?}, occurring are {want:?}", x.vars));
    }
    // after every simplification
    for n in ["x", "y", "X", "q", "k", "absent"] {
        for v in [0.0, 1.0, 2.5] {
            let y = x.clone().simplify_for((n, v));
            let mut z = x.clone();
            z.simplify_for_in_place((n, v));
            let mut w = x.clone();
            w.simplify_for_multiple_in_place(&[(n, v), ("y", 1.0)]);
            let u = x.clone().simplify_for_multiple(&[("q", 0.0), (n, v)]);
            let e = x.clone().simplify_for_multiple(&[]);
            for s in [y, z, w, u, e] {
                stats.inc("simplified");
                stats.state_str(&s.to_string());
                let p = printed_vars(&s, pair);
                if as_set(&s) != p || !p.is_subset(&want) {
                    return Err(format!("{x} simplified for {n}={v}: {s}: variables {:?}, occurring are {p:?}", s.vars));
                }
            }
        }
    }
    if sub == "vars" {
        return Ok(());
    }
    // every list of expected variables
    let mut p = pair.parser.clone();
    for mask in 0..1u32 << UNIVERSE.len() {
        let list: Vec<&str> = (0..UNIVERSE.len()).filter(|k| mask >> k & 1 == 1).map(|k| UNIVERSE[k]).collect();
        // the list is changed on the same parser: takes effect at once
        p.ctx_mut().set_expected_vars(list.iter().map(|s| intern(s)).collect());
        stats.inc("lists");
        let r = p.parse(data);
        declared_check(&r, &want, &list, data)?;
        if mask % 16 == 5 {
            let p2 = Parser::new_with_ctx(pair.parser.ctx().clone_static().with_expected_vars(list.iter().map(|s| intern(s)).collect()));
            declared_check(&p2.parse(data), &want, &list, data)?;
        }
    }
    // lifted
    *p.ctx_mut() = pair.parser.ctx().clone_static();
    p.parse(data).map_err(|e| format!("after the list was lifted: {e}"))?;
    Ok(())
}

/// The parser only lends its context for its own lifetime: the standard one is rebuilt instead.
trait CloneStatic {
    fn clone_static(&self) -> Context<'static>;
}
impl CloneStatic for Context<'_> {
    fn clone_static(&self) -> Context<'static> {
        let mut p = std_pair().parser.clone();
        std::mem::take(p.ctx_mut())
    }
}

const SHAPES: [&str; 9] = ["sum", "call", "right", "left", "pairs", "product", "calls", "signs", "powers"];

fn shaped(shape: &str, names: &[String]) -> String {
    let n = names.len();
    match shape {
        "sum" => names.join("+"),
        "call" => format!("v({})", names.join(",")),
        "right" => format!("{}{}", names.join("-("), ")".repeat(n.saturating_sub(1))),
        "left" => format!("{}{}", "(".repeat(n.saturating_sub(1)), names.join(")/")).replacen(")/", "/", 1) + if n > 1 { ")" } else { "" },
        "pairs" => names.chunks(2).map(|c| c.join("*")).collect::<Vec<_>>().join("-"),
        "product" => names.join(" "),
        "calls" => format!("{}{}", names.iter().map(|s| format!("h({s},")).collect::<String>(), "1".to_owned() + &")".repeat(n)),
        "signs" => names.iter().map(|s| format!("-{s}!")).collect(),
        _ => names.iter().map(|s| format!("g({s})^2")).collect::<Vec<_>>().join("%"),
    }
}

/// Many variables, some or all of them replaced at once or one by one.
fn many_vars(data: &str, stats: &mut Stats) -> Outcome {
    let (shape, n) = data.split_once(' ').unwrap();
    let n: usize = n.parse().unwrap();
    let pair = std_pair();
    let names: Vec<String> = (0..n).map(|k| format!("m{k}_")).collect();
    let text = shaped(shape, &names);
    let x = pair.parser.parse(&text).map_err(|e| format!("{text}: {e}"))?;
    let set = |x: &Xprs| -> BTreeSet<String> { x.vars.iter().map(|s| (*s).to_owned()).collect() };
    if x.vars.len() != n || set(&x) != names.iter().cloned().collect() {
        return Err(format!("{} variables reported of {n}", x.vars.len()));
    }
    let large = n > 66 && shape != "call";
    let mut counts = if large { vec![1] } else { vec![0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] };
    counts.retain(|&c| c <= n);
    counts.sort_unstable();
    counts.dedup();
    for count in counts {
        for pick in 0..if large { 1 } else { 3 } {
            let chosen: Vec<&str> = (0..count).map(|i| names[match pick { 0 => i, 1 => n - 1 - i, _ => (i * 2 + i * 2 / n.max(1) * (1 - n % 2)) % n.max(1) }].as_str()).collect();
            for v in [0.0, 1.0, 2.5] {
                let given: Vec<(&str, f64)> = chosen.iter().map(|&c| (c, v)).collect();
                let mut routes = vec![("simplify_for_multiple", x.clone().simplify_for_multiple(&given))];
                let mut y = x.clone();
                y.simplify_for_multiple_in_place(&given);
                routes.push(("simplify_for_multiple_in_place", y));
                if n <= 70 {
                    let mut y = x.clone();
                    for &g in &given {
                        y.simplify_for_in_place(g);
                    }
                    routes.push(("simplify_for_in_place", y));
                    routes.push(("simplify_for", given.iter().fold(x.clone(), |y, &g| y.simplify_for(g))));
                }
                // all in one go, then again what is left
                let mut y = x.clone().simplify_for_multiple(&given);
                y.simplify_for_multiple_in_place(&given);
                routes.push(("twice", y));
                for (what, s) in routes {
                    stats.inc("simplified");
                    let p = printed_vars(&s, pair);
                    if set(&s) != p || given.iter().any(|g| s.vars.contains(g.0)) {
                        return Err(format!("{what} for {count} of {n} variables (={v}): {} variables reported, {} occur", s.vars.len(), p.len()));
                    }
                    let complete: HashMap<&str, f64> = p.iter().map(|s| (s.as_str(), 1.5)).collect();
                    if let Err(e) = s.eval(&complete) {
                        return Err(format!("{what} for {count} of {n} variables (={v}): with a value for all: {e}"));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn enum_c10(rt: &mut Rt) {
    for s in SHAPES {
        for n in [66, 67, 100, 101, 102, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 400].into_iter().chain(magic(400)) {
            rt.shared_case("many", &format!("{s} {n}"));
        }
        for n in (0..=rt.pick(20usize, 60)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).filter(|&n| if s == "call" { true } else { n > 0 && (n < 34 || n == 65 && s == "sum") || n == 0 && s == "calls" }) {
            rt.shared_case("many", &format!("{s} {n}"));
        }
    }
    super::names::enumerate(rt);
    let t = Trees::new(&["x", "y", "0", "1", "X", "k", "e", "pi"], &["(-@)", "(+@)", "(@!)", "g(@)", "v(@)", "sin(@)"], &[BIN_OPS.as_slice(), &["h(@,@)", "v(@,@)", "min(@,@)"]].concat());
    for n in 0..=1 {
        t.each(n, &mut |s| {
            rt.shared_case("lists-of", s);
            !rt.stop()
        });
    }
    let t = Trees::new(&["x", "y", "0", "2"], &["(-@)", "g(@)", "(@!)"], &[BIN_OPS.as_slice(), &["h(@,@)"]].concat());
    t.each(2, &mut |s| {
        rt.shared_case("vars", s);
        !rt.stop()
    });
    let t = Trees::new(&["x", "y"], &["(-@)", "(@!)", "g(@)"], &[BIN_OPS.as_slice(), &["v(@,@)"]].concat());
    t.each(3, &mut |s| {
        rt.shared_case("vars", s);
        !rt.stop()
    });
    let t = Trees::new(&["x"], &["(-@)", "(@!)", "g(@)", "v(2,@)", "(2*@)", "(@^y)"], &[]);
    t.each(rt.pick(4, 6), &mut |s| {
        rt.shared_case("vars", s);
        !rt.stop()
    });
    if !rt.quick() {
        let t = Trees::new(&["x", "y", "1"], &["(-@)"], &BIN_OPS);
        t.each(3, &mut |s| {
            rt.shared_case("vars", s);
            !rt.stop()
        });
    }
    use Tok::T;
    let toks = [T("x"), T("X"), T("2"), T("e"), T("k"), T("-"), T("*"), T("("), T(")"), T("g("), T("v("), T(","), T("z()"), T("!"), T("q")];
    Dfs { sub: "lists-of", toks: &toks, nums: &NUMS, max: rt.pick(4, 5), ctx: &std_pair().m, apart: true, slack: 0, split: 2 }.run(rt);
    for s in ["x x x", "x+y+X+q", "v(x,v(y,v(X,v(q))))", "sin(x)cos(y)", "2", "pi+e", "k(x)", "min()", "v(v(),z())", "x^y^X", "g(g(g(q)))", "q-q", "0*x+y", "x*0", "0/x", "(x-x)y", "x!-y!", "h(x,x)", "q+0q", "gamma(q)", "x+sin_", "e_+e", "pi2+pi", "sinx+Sin+sin(x)"] {
        rt.shared_case("lists-of", s);
    }
    for n in (0..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513]).chain(magic(2000)) {
        for (a, e) in [(n, 0), (n, 5), (n.saturating_sub(1), 0), (n.saturating_sub(1), 3), (0, 0), (0, 2), (n / 2, 1), (1.min(n), 300)] {
            rt.shared_case("lists", &format!("{n} {a} {e}"));
        }
    }
}
