//! C23: comparisons of public values obey the laws of comparison.
use crate::rt::{Fnv, Outcome, Rt, Stats};
use crate::util::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;
use xprs::{BindError, Context, ErrorKind, EvalError, Function, ParseError, Parser, Symbol, Xprs};

fn fa(a: &[f64]) -> f64 {
    a.iter().sum::<f64>() + 1.25
}
fn fb(a: &[f64]) -> f64 {
    a.iter().product::<f64>() - 7.5
}
fn fc(a: &[f64]) -> f64 {
    a.first().copied().unwrap_or(3.0) * 2.0
}

/// Values of one type, each with what it consists of: values with the same content must compare equal, others different.
struct Pool<T> {
    vals: Vec<T>,
    /// content; None when nothing is known about it (then only the laws are checked)
    what: Vec<Option<String>>,
    /// does not equal itself (a NaN inside)
    nan: Vec<bool>,
}

impl<T: Clone> Pool<T> {
    fn new() -> Self {
        Self { vals: vec![], what: vec![], nan: vec![] }
    }
    fn push(&mut self, v: T, what: Option<String>, nan: bool) {
        self.vals.push(v.clone());
        self.what.push(what.clone());
        self.nan.push(nan);
        self.vals.push(v);
        self.what.push(what);
        self.nan.push(nan);
    }
}

fn functions() -> &'static Pool<Function> {
    static P: OnceLock<Pool<Function>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        let statics: [(&str, fn(&[f64]) -> f64); 3] = [("fa", fa), ("fb", fb), ("fc", fc)];
        for name in ["a", "b", "B", "aa", "a_", "", "sin"] {
            for arity in [None, Some(0u8), Some(1), Some(2), Some(255)] {
                for (id, f) in statics {
                    p.push(Function::new_static(intern(name), f, arity), Some(format!("{name} {arity:?} {id}")), false);
                }
                for k in 0..2 {
                    let by = f64::from(k) + 0.5;
                    // every closure is one of its own
                    p.push(Function::new_dyn(intern(name), move |a: &[f64]| a.len() as f64 * by, arity), Some(format!("{name} {arity:?} dyn{k}")), false);
                }
            }
        }
        // one implementation under several names and arities
        let statics = Function::new_static("a", fa, None);
        let shared = [(Function::new_dyn("a", |a: &[f64]| a.len() as f64, None), "shared"), (statics, "fa")];
        for name in ["a", "aa", "sin"] {
            for arity in [None, Some(0u8), Some(1), Some(2), Some(255)] {
                for (f, id) in &shared {
                    let mut g = f.clone();
                    g.name = intern(name);
                    g.nb_args = arity;
                    p.push(g, Some(format!("{name} {arity:?} {id}")), false);
                }
            }
        }
        p
    })
}

fn symbols() -> &'static Pool<Symbol> {
    static P: OnceLock<Pool<Symbol>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        for v in [0.0, -0.0, 1.0, -1.0, 1.0000000000000002, 5e-324, 0.1, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740992.0, 9007199254740994.0] {
            // zeros of both signs are the same number
            p.push(Symbol::from(v), Some(format!("{:?}", v + 0.0)), v.is_nan());
            p.push(Symbol::Variable(v), Some(format!("{:?}", v + 0.0)), v.is_nan());
        }
        let f = functions();
        for i in (0..f.vals.len()).step_by(6) {
            p.push(Symbol::from(f.vals[i].clone()), f.what[i].clone().map(|w| format!("fun {w}")), false);
        }
        p
    })
}

fn contexts() -> &'static Pool<Context<'static>> {
    static P: OnceLock<Pool<Context<'static>>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        let f = functions();
        // subsets of definitions, made in two orders
        for mask in 0..64u32 {
            for order in 0..2 {
                let mut c = Context::default();
                let mut ks: Vec<u32> = (0..6).filter(|k| mask >> k & 1 == 1).collect();
                if order == 1 {
                    ks.reverse();
                }
                for k in ks {
                    match k {
                        0 => c.set_var("x", 1.5),
                        1 => c.set_var("y", -0.25),
                        2 => c.set_fn(f.vals[0].clone()),
                        3 => c.set_fn(f.vals[f.vals.len() - 3].clone()),
                        4 => c.set_expected_vars(["x", "q"].into()),
                        _ => c.set_var("Y", 0.0),
                    }
                }
                p.push(c, Some(format!("{mask}")), false);
            }
        }
        for (i, v) in [1.5000000000000002, 1.0, f64::NAN, f64::INFINITY].into_iter().enumerate() {
            p.push(Context::default().with_var("x", v), Some(format!("x{i}")), v.is_nan());
        }
        for l in [vec![], vec!["x"], vec!["q"], vec!["x", "q", "z"]] {
            p.push(Context::default().with_expected_vars(l.iter().copied().collect()), Some(format!("expected {l:?}")), false);
        }
        for k in [2, 5, 8, 20, 30] {
            p.push(Context::default().with_symbols(HashMap::from([("x", Symbol::from(f.vals[k].clone()))])), Some(format!("x fun {k}")), false);
        }
        p
    })
}

fn parsers() -> &'static Pool<Parser<'static>> {
    static P: OnceLock<Pool<Parser<'static>>> = OnceLock::new();
    P.get_or_init(|| {
        let c = contexts();
        let mut p = Pool::new();
        for i in (0..c.vals.len()).step_by(2) {
            let q = Parser::new_with_ctx(c.vals[i].clone());
            // one that has been used equals one that has not
            let _ = q.parse("x+1").is_ok();
            p.push(q, c.what[i].clone(), c.nan[i]);
        }
        p
    })
}

fn expressions() -> &'static Pool<Xprs<'static>> {
    static P: OnceLock<Pool<Xprs<'static>>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        let t = Trees::new(&["x", "y", "2", "3"], &["(-@)", "(@!)", "g(@)", "v(@)"], &["(@+@)", "(@*@)", "(@-@)", "(@/@)", "(@^@)", "(@%@)", "h(@,@)", "v(@,@)"]);
        let mut l = t.list(0);
        l.extend(t.list(1));
        let t = Trees::new(&["x", "y"], &["(-@)"], &["(@+@)", "(@*@)", "(@-@)"]);
        l.extend(t.list(2));
        for s in l {
            if let Ok(x) = std_pair().parser.parse(intern(&s)) {
                let nan = super::text::tokens(&x.to_string()).contains(&"NaN");
                p.push(x, None, nan);
            }
        }
        p
    })
}

/// Texts that are refused, for every kind of error.
fn refused() -> &'static Vec<(usize, String)> {
    static P: OnceLock<Vec<(usize, String)>> = OnceLock::new();
    P.get_or_init(|| {
        let toks = ["1", "x", "+", "(", ")", "!", "g(", "h(", ",", "1.2.3", "$", "é", "€", "q", " "];
        let mut out = vec![];
        let mut last = vec![String::new()];
        for n in 0..=3 {
            for s in &last {
                for (k, p) in strict().iter().enumerate() {
                    if (k == 0 || n <= 2) && p.parse(s).is_err() {
                        out.push((k, s.clone()));
                    }
                }
            }
            last = last.iter().flat_map(|s| toks.iter().map(move |t| format!("{s}{t}"))).collect();
        }
        for s in ["g()", "g(1,2)", "g(1,2,3)", "h(1)", "h(1,2,3)", "g (1,2)", "1..2", "1...2", "1__.._2", "x+q", "q+x", "q q", "q'"] {
            for k in 0..strict().len() {
                if strict()[k].parse(s).is_err() {
                    out.push((k, s.to_owned()));
                }
            }
        }
        out
    })
}

fn strict() -> &'static [Parser<'static>; 3] {
    static P: OnceLock<[Parser<'static>; 3]> = OnceLock::new();
    P.get_or_init(|| {
        let c = std_pair().parser.ctx().clone();
        [std_pair().parser.clone(), Parser::new_with_ctx(c.clone().with_expected_vars(["x"].into())), Parser::new_with_ctx(c.with_expected_vars(HashSet::new()))]
    })
}

fn parse_errors() -> &'static Pool<ParseError> {
    static P: OnceLock<Pool<ParseError>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        for (k, s) in refused() {
            if s.matches('q').count() + s.matches('x').count() > 1 && *k > 0 {
                // any of several undeclared names may be the one reported
                continue;
            }
            let e = strict()[*k].parse(s).expect_err("refused");
            let f = strict()[*k].clone().parse(&s.clone()).expect_err("refused");
            let place = {
                use miette::Diagnostic;
                let l = e.labels().and_then(|mut l| l.next()).map(|l| (l.offset(), l.len()));
                let h = e.help().map(|h| h.to_string());
                format!("{l:?} {h:?}")
            };
            let what = format!("{s:?} {e} {place}");
            p.push(e, Some(what.clone()), false);
            p.push(f, Some(what), false);
        }
        p
    })
}

fn kinds() -> &'static Pool<ErrorKind> {
    static P: OnceLock<Pool<ErrorKind>> = OnceLock::new();
    P.get_or_init(|| {
        use ErrorKind::*;
        let mut v = vec![UnexpectedEndOfExpression, MissingArgument];
        for c in ['a', 'b', 'é', '0', '\u{10ffff}'] {
            v.extend([UnexpectedToken(c), IllegalCharacter(c), ExpectedToken(c)]);
        }
        for s in ["", "a", "b", "aa", "B"] {
            v.push(MalformedNumber(s.into()));
            for l in [&[][..], &["x"], &["x", "y"], &["y", "x"]] {
                v.push(VariableNotDeclared(s.into(), l.iter().map(|x| (*x).to_owned()).collect()));
            }
        }
        for a in [0u8, 1, 2, 255] {
            for b in [0usize, 1, 2, 256, usize::MAX] {
                v.extend([TooFewArguments(a, b), TooManyArguments(a, b)]);
            }
        }
        let mut p = Pool::new();
        for k in v {
            let what = format!("{k:?}");
            p.push(k, Some(what), false);
        }
        p
    })
}

fn eval_errors() -> &'static Pool<EvalError> {
    static P: OnceLock<Pool<EvalError>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        for n in ["a", "b", "aa", "A", "a_", "x", "y", "long_name'"] {
            for t in [n.to_owned(), format!("{n}+1"), format!("g({n})")] {
                let e = std_pair().parser.parse(intern(&t)).expect("a variable").eval_no_vars().expect_err("missing");
                p.push(e, Some(n.to_owned()), false);
            }
        }
        p
    })
}

fn bind_errors() -> &'static Pool<BindError> {
    static P: OnceLock<Pool<BindError>> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool::new();
        for n in ["a", "b", "aa", "A", "a_", "a+b", "a+aa", "b+A"] {
            let x = std_pair().parser.parse(n).expect("variables");
            if let Err(e) = x.clone().bind("nobody") {
                let what = e.to_string();
                p.push(e, Some(what), false);
            };
            if let Err(e) = x.bind_n(["a"]) {
                let what = e.to_string();
                p.push(e, Some(what), false);
            };
        }
        for s in ["a", "b", "a, b", ""] {
            p.push(BindError::OneVariable(s.into()), Some(BindError::OneVariable(s.into()).to_string()), false);
            p.push(BindError::MultipleVariables(s.into()), Some(BindError::MultipleVariables(s.into()).to_string()), false);
        }
        p
    })
}

fn show<T: std::fmt::Debug>(v: &T, what: &Option<String>) -> String {
    let s: String = format!("{v:?}").chars().take(160).collect();
    what.as_ref().map_or(s.clone(), |w| format!("{s} [{w}]"))
}

/// Equality of the i-th value with all others, and what follows from it.
fn eq_row<T: PartialEq + Clone + std::fmt::Debug>(p: &Pool<T>, i: usize, stats: &mut Stats) -> Outcome {
    let a = &p.vals[i];
    let name = |k: usize| show(&p.vals[k], &p.what[k]);
    if (*a == a.clone()) == p.nan[i] || (*a != a.clone()) != p.nan[i] {
        return Err(format!("{} compared with its clone: equal {}", name(i), *a == a.clone()));
    }
    let mut same = vec![];
    for (j, b) in p.vals.iter().enumerate() {
        let e = a == b;
        stats.inc("pairs");
        if e != (b == a) || e == (a != b) {
            return Err(format!("{} and {}: == gives {e}, the other way round {}, != {}", name(i), name(j), b == a, a != b));
        }
        if let (Some(u), Some(v)) = (&p.what[i], &p.what[j]) {
            if e != (u == v && !p.nan[i]) {
                return Err(format!("{} and {}: == gives {e}", name(i), name(j)));
            }
        }
        if e {
            same.push(j);
        }
    }
    for &j in &same {
        for &k in &same {
            stats.inc("triples");
            if p.vals[j] != p.vals[k] {
                return Err(format!("{} equals {} and {}, which differ", name(i), name(j), name(k)));
            }
        }
    }
    Ok(())
}

/// Order of the i-th value with all others.
fn ord_row<T: PartialOrd + Clone + std::fmt::Debug>(p: &Pool<T>, i: usize, stats: &mut Stats) -> Outcome {
    let a = &p.vals[i];
    let name = |k: usize| show(&p.vals[k], &p.what[k]);
    let mut below = vec![];
    for (j, b) in p.vals.iter().enumerate() {
        let c = a.partial_cmp(b);
        stats.inc("pairs");
        if (c == Some(Ordering::Equal)) != (a == b) {
            return Err(format!("{} and {}: the order says {c:?}, == says {}", name(i), name(j), a == b));
        }
        if b.partial_cmp(a) != c.map(Ordering::reverse) {
            return Err(format!("{} and {}: {c:?}, the other way round {:?}", name(i), name(j), b.partial_cmp(a)));
        }
        let four = (a < b, a <= b, a > b, a >= b);
        let want = (c == Some(Ordering::Less), matches!(c, Some(Ordering::Less | Ordering::Equal)), c == Some(Ordering::Greater), matches!(c, Some(Ordering::Greater | Ordering::Equal)));
        if four != want {
            return Err(format!("{} and {}: {c:?}, but < <= > >= give {four:?}", name(i), name(j)));
        }
        if c == Some(Ordering::Less) {
            below.push(j);
        }
    }
    for &j in &below {
        for (k, c) in p.vals.iter().enumerate() {
            stats.inc("triples");
            if p.vals[j] < *c && !(a < c) {
                return Err(format!("{} < {} < {}, but not the first and the last", name(i), name(j), name(k)));
            }
        }
    }
    Ok(())
}

fn digest<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn hash_row<T: Eq + Hash + Clone + std::fmt::Debug>(p: &Pool<T>, i: usize, stats: &mut Stats) -> Outcome {
    let a = &p.vals[i];
    for (j, b) in p.vals.iter().enumerate() {
        stats.inc("pairs");
        if a == b && digest(a) != digest(b) {
            return Err(format!("{} and {} are equal, their hashes differ", show(a, &p.what[i]), show(b, &p.what[j])));
        }
    }
    if i % 256 > 1 {
        return Ok(());
    }
    let set: HashSet<T> = p.vals.iter().cloned().collect();
    if !set.contains(a) || (p.what.iter().all(Option::is_some) && set.len() != p.what.iter().collect::<BTreeSet<_>>().len()) {
        return Err(format!("a set of all {} values has {} elements, {} different ones are known", p.vals.len(), set.len(), p.what.iter().collect::<BTreeSet<_>>().len()));
    }
    Ok(())
}

fn total_row<T: Ord + Clone + std::fmt::Debug>(p: &Pool<T>, i: usize, _: &mut Stats) -> Outcome {
    for (j, b) in p.vals.iter().enumerate() {
        if p.vals[i].partial_cmp(b) != Some(p.vals[i].cmp(b)) {
            return Err(format!("{} and {}: cmp and partial_cmp differ", show(&p.vals[i], &p.what[i]), show(b, &p.what[j])));
        }
    }
    Ok(())
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let i: usize = data.parse().map_err(|e| format!("{e}"))?;
    let mut h = Fnv::new();
    h.bytes(sub.as_bytes());
    h.u64(i as u64);
    stats.state(h.0);
    macro_rules! rows {
        ($p:expr; $($f:ident)*) => {{ let p = $p; $($f(p, i, stats)?;)* Ok(()) }};
    }
    match sub {
        "functions" => rows!(functions(); eq_row ord_row),
        "symbols" => rows!(symbols(); eq_row ord_row),
        "contexts" => rows!(contexts(); eq_row),
        "parsers" => rows!(parsers(); eq_row),
        "expressions" => rows!(expressions(); eq_row),
        "parse errors" => rows!(parse_errors(); eq_row hash_row),
        "kinds" => rows!(kinds(); eq_row ord_row hash_row total_row),
        "evaluation errors" => rows!(eval_errors(); eq_row ord_row hash_row total_row),
        "bind errors" => rows!(bind_errors(); eq_row ord_row hash_row total_row),
        _ => Err(format!("unknown {sub}")),
    }
}

pub fn enumerate(rt: &mut Rt) {
    let pools: [(&'static str, usize); 9] = [
        ("functions", functions().vals.len()),
        ("symbols", symbols().vals.len()),
        ("contexts", contexts().vals.len()),
        ("parsers", parsers().vals.len()),
        ("expressions", expressions().vals.len()),
        ("parse errors", parse_errors().vals.len()),
        ("kinds", kinds().vals.len()),
        ("evaluation errors", eval_errors().vals.len()),
        ("bind errors", bind_errors().vals.len()),
    ];
    for (name, n) in pools {
        for i in 0..n {
            rt.shared_case(name, &i.to_string());
        }
    }
}
