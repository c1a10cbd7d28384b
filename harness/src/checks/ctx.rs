//! C11 (contexts) and C12 (calls).
use crate::model::{self, MCtx, MFun, MSym};
use crate::rt::{Fnv, Outcome, Rt, Stats};
use crate::util::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::OnceLock;
use xprs::{xprs_fn, Context, Function, Parser, Symbol, Xprs};

// ---------------------------------------------------------------- C11

const NAMES: [&str; 4] = ["a", "sin", "pi", "a_"];

fn fa(x: &[f64]) -> f64 {
    x.iter().sum::<f64>() + 100.0
}

/// The functions of the histories: one object each, cloned, so that equality is well defined.
fn funcs() -> &'static Vec<(Function, MFun)> {
    static F: OnceLock<Vec<(Function, MFun)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v = Vec::new();
        for n in ["a", "sin", "pi"] {
            let f = Function::new_static(n, fa, Some(1));
            v.push((f, MFun { name: n.into(), arity: Some(1), f: std::sync::Arc::new(fa) }));
            let k = n.len() as f64;
            let g = move |x: &[f64]| x.iter().product::<f64>() - k;
            v.push((Function::new_dyn(n, g, None), MFun { name: n.into(), arity: None, f: std::sync::Arc::new(g) }));
        }
        v
    })
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Def {
    Num(u64),
    Fun(usize),
}

/// State of the model: what has been defined, and whether the context is in a parser.
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
struct CState {
    syms: std::collections::BTreeMap<&'static str, Def>,
    expected: Option<BTreeSet<&'static str>>,
    owned_by_parser: bool,
}

enum Real {
    Ctx(Context<'static>),
    Par(Parser<'static>),
}

impl Real {
    fn ctx(&mut self) -> &mut Context<'static> {
        match self {
            Real::Ctx(c) => c,
            Real::Par(p) => p.ctx_mut(),
        }
    }
    fn edit(&mut self, f: impl FnOnce(Context<'static>) -> Context<'static>) {
        let c = self.ctx();
        let old = std::mem::take(c);
        *c = f(old);
    }
    fn snapshot(&mut self) -> Context<'static> {
        self.ctx().clone()
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    SetNum(&'static str, f64),
    SetInt(&'static str, i32),
    WithNum(&'static str, f64),
    WithF32(&'static str, f32),
    SetFn(usize),
    WithFn(usize),
    Table(u8),
    SetExpected(u8),
    WithExpected(u8),
    Own,
    Parse(u8),
    Clone,
}

const PARSED: [&str; 4] = ["a+sin(1)", "pi a(2", "b", "a_!"];

fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for n in NAMES {
        v.push(Op::SetNum(n, 1.5));
        v.push(Op::WithNum(n, -0.25));
    }
    v.push(Op::SetInt("a", -2));
    v.push(Op::WithF32("sin", 0.5));
    for f in 0..funcs().len() {
        v.push(if f % 2 == 0 { Op::SetFn(f) } else { Op::WithFn(f) });
    }
    v.push(Op::WithFn(0));
    v.push(Op::SetFn(3));
    v.extend([Op::Table(0), Op::Table(1), Op::Table(2)]);
    v.extend([Op::SetExpected(0), Op::WithExpected(1), Op::SetExpected(2), Op::WithExpected(3), Op::SetExpected(1), Op::WithExpected(2), Op::SetExpected(3)]);
    v.extend([Op::Own, Op::Clone]);
    v.extend((0..PARSED.len() as u8).map(Op::Parse));
    v
}

fn table(k: u8) -> Vec<(&'static str, Def)> {
    match k {
        0 => vec![],
        1 => vec![("a", Def::Num(2.5f64.to_bits())), ("b", Def::Num(8.0f64.to_bits()))],
        // under a name that is not the function's own
        _ => vec![("a_", Def::Fun(0)), ("sin", Def::Num(3.0f64.to_bits())), ("a", Def::Fun(5))],
    }
}
fn expected(k: u8) -> &'static [&'static str] {
    match k {
        0 => &[],
        1 => &["a"],
        2 => &["a", "b", "a_", "B", "sin"],
        _ => &["c", "b"],
    }
}

fn real_table(k: u8) -> HashMap<&'static str, Symbol> {
    table(k)
        .into_iter()
        .map(|(n, d)| (n, match d { Def::Num(b) => Symbol::from(f64::from_bits(b)), Def::Fun(i) => Symbol::from(funcs()[i].0.clone()) }))
        .collect()
}

fn apply_model(s: &mut CState, op: Op) {
    match op {
        Op::SetNum(n, v) | Op::WithNum(n, v) => {
            s.syms.insert(n, Def::Num(v.to_bits()));
        }
        Op::SetInt(n, v) => {
            s.syms.insert(n, Def::Num(f64::from(v).to_bits()));
        }
        Op::WithF32(n, v) => {
            s.syms.insert(n, Def::Num(f64::from(v).to_bits()));
        }
        Op::SetFn(f) | Op::WithFn(f) => {
            s.syms.insert(funcs()[f].0.name, Def::Fun(f));
        }
        Op::Table(k) => s.syms = table(k).into_iter().collect(),
        Op::SetExpected(k) | Op::WithExpected(k) => s.expected = Some(expected(k).iter().copied().collect()),
        Op::Own => s.owned_by_parser = true,
        Op::Parse(_) | Op::Clone => {}
    }
}

/// `forks` collects clones with the state they must keep.
fn apply_real(r: Real, op: Op, s: &CState, forks: &mut Vec<(Real, CState)>) -> Real {
    let mut r = r;
    match op {
        Op::SetNum(n, v) => r.ctx().set_var(n, v),
        Op::SetInt(n, v) => r.ctx().set_var(n, v),
        Op::WithNum(n, v) => r.edit(|c| c.with_var(n, v)),
        Op::WithF32(n, v) => r.edit(|c| c.with_var(n, v)),
        Op::SetFn(f) => r.ctx().set_fn(funcs()[f].0.clone()),
        Op::WithFn(f) => r.edit(|c| c.with_fn(funcs()[f].0.clone())),
        Op::Table(k) => r.edit(|c| c.with_symbols(real_table(k))),
        Op::SetExpected(k) => r.ctx().set_expected_vars(expected(k).iter().copied().collect()),
        Op::WithExpected(k) => r.edit(|c| c.with_expected_vars(expected(k).iter().copied().collect())),
        Op::Own => {
            if let Real::Ctx(c) = r {
                r = Real::Par(Parser::new_with_ctx(c));
            }
        }
        Op::Parse(k) => {
            let t = PARSED[k as usize];
            match &r {
                Real::Par(p) => drop(p.parse(t)),
                Real::Ctx(c) => drop(Parser::new_with_ctx(c.clone()).parse(t)),
            }
        }
        // go on with the copy and keep the original, or the other way round
        Op::Clone => {
            let c = match &r {
                Real::Ctx(c) => Real::Ctx(c.clone()),
                Real::Par(p) => Real::Par(p.clone()),
            };
            if forks.len() % 2 == 0 {
                forks.push((c, s.clone()));
            } else {
                forks.push((std::mem::replace(&mut r, c), s.clone()));
            }
        }
    }
    r
}

fn mctx(s: &CState) -> MCtx {
    let mut m = MCtx::default();
    for (n, d) in &s.syms {
        let sym = match d {
            Def::Num(b) => MSym::Const(f64::from_bits(*b)),
            Def::Fun(i) => MSym::Fun(funcs()[*i].1.clone()),
        };
        m.syms.insert((*n).to_owned(), sym);
    }
    m.expected = s.expected.as_ref().map(|e| e.iter().map(|x| (*x).to_owned()).collect());
    m
}

/// A context made from the model state in one straight way.
fn canonical(s: &CState) -> Context<'static> {
    let mut c = Context::default();
    for (n, d) in s.syms.iter().rev() {
        match d {
            Def::Num(b) => c.set_var(n, f64::from_bits(*b)),
            Def::Fun(i) if funcs()[*i].0.name == *n => c.set_fn(funcs()[*i].0.clone()),
            Def::Fun(_) => {
                // only a whole table can give a function another name
                let all: HashMap<&'static str, Symbol> = s
                    .syms
                    .iter()
                    .map(|(n, d)| (*n, match d { Def::Num(b) => Symbol::Variable(f64::from_bits(*b)), Def::Fun(i) => Symbol::Function(funcs()[*i].0.clone()) }))
                    .collect();
                c = c.with_symbols(all);
                break;
            }
        }
    }
    if let Some(e) = &s.expected {
        c.set_expected_vars(e.iter().copied().collect());
    }
    c
}

const PROBES: [&str; 20] = [
    "a", "a(2)", "a(2,3)", "a()", "sin", "sin(2)", "sin(1,2)", "pi", "pi(3)", "pi pi", "a_", "a_(2)", "b", "2b+a", "A", "Sin(2)", "e", "cos(pi)", "c", "a sin(1)pi",
];

fn probe(r: &mut Real, s: &CState, stats: &mut Stats) -> Outcome {
    let m = mctx(s);
    // definitions
    for n in ["a", "sin", "pi", "a_", "b", "A", "", "cos", "e", "c", "sin ", "a_b"] {
        let got = r.ctx().get(n);
        let ok = match (s.syms.get(n), got) {
            (None, None) => true,
            (Some(Def::Num(b)), Some(Symbol::Variable(v))) => v.to_bits() == *b,
            (Some(Def::Fun(i)), Some(Symbol::Function(f))) => {
                let (want, mf) = &funcs()[*i];
                f.name == want.name && f.nb_args == want.nb_args && f == want && (f.func)(&[2.5]) == (mf.f)(&[2.5])
            }
            _ => false,
        };
        if !ok {
            return Err(format!("{n:?} resolves to {got:?}, defined is {:?}", s.syms.get(n)));
        }
    }
    let e: Option<BTreeSet<&str>> = r.ctx().get_expected_vars().map(|e| e.iter().copied().collect());
    if e != s.expected {
        return Err(format!("expected variables {e:?}, set were {:?}", s.expected));
    }
    // equality, both ways, and with every neighbour
    let c = r.snapshot();
    let k = canonical(s);
    if c != k || k != c {
        return Err(format!("{c:?} and {k:?} have the same definitions and differ"));
    }
    for op in 0..9u8 {
        let mut other = s.clone();
        match op {
            4 => other.expected = if s.expected.is_none() { Some(BTreeSet::new()) } else { None },
            5 => {
                let Some(e) = &mut other.expected else { continue };
                e.insert("zz");
            }
            6 => {
                let Some(e) = &mut other.expected else { continue };
                if e.pop_last().is_none() {
                    continue;
                }
            }
            // the last definition under another name
            7 => {
                let Some((_, d)) = other.syms.pop_last() else { continue };
                other.syms.insert("zy", d);
            }
            // a number where a function is, or the other way round
            8 => {
                let Some((n, d)) = s.syms.iter().next_back() else { continue };
                other.syms.insert(n, if let Def::Num(_) = d { Def::Fun(0) } else { Def::Num(2) });
            }
            0 => {
                other.syms.insert("zz", Def::Num(1));
            }
            1 => {
                let v = other.syms.get("a").map_or(7.0, |d| if let Def::Num(b) = d { f64::from_bits(*b) + 1.0 } else { 7.0 });
                other.syms.insert("a", Def::Num(v.to_bits()));
            }
            2 => other.expected = Some(["q"].into()),
            _ => {
                if other.syms.pop_first().is_none() {
                    continue;
                }
            }
        }
        let o = canonical(&other);
        if o == c || c == o {
            return Err(format!("{c:?} equals {o:?}"));
        }
    }
    // meaning of texts
    let parser = match r {
        Real::Par(p) => p.clone(),
        Real::Ctx(c) => Parser::new_with_ctx(c.clone()),
    };
    for t in PROBES {
        stats.inc("probes");
        let want = model::parse(t, &m);
        let got = parser.parse(t);
        match (&want, &got) {
            (Err(e), Err(g)) => {
                if g.to_string() != e.kind.message() {
                    return Err(format!("{t}: `{g}`, expected `{}`", e.kind.message()));
                }
            }
            (Err(e), Ok(x)) => return Err(format!("{t} accepted as {x}, expected `{}`", e.kind.message())),
            (Ok(ast), got) => {
                let vars = ast.var_set();
                let bad: Vec<_> = vars.iter().filter(|v| s.expected.as_ref().is_some_and(|e| !e.contains(**v))).collect();
                match got {
                    Ok(x) => {
                        if !bad.is_empty() {
                            return Err(format!("{t} accepted as {x}, {bad:?} not expected"));
                        }
                        let have: BTreeSet<&str> = x.vars.iter().copied().collect();
                        if have != vars {
                            return Err(format!("{t} has variables {have:?}, expected {vars:?}"));
                        }
                        values_agree(ast, x, stats).map_err(|e| format!("{t}: {e}"))?;
                    }
                    Err(g) => {
                        let msg = g.to_string();
                        if bad.is_empty() || !bad.iter().any(|b| msg == format!("Variable not previously declared: `{b}`")) {
                            return Err(format!("{t}: `{msg}`, not expected are {bad:?}"));
                        }
                    }
                }
            }
        }
    }
    if *parser.ctx() != c || r.snapshot() != c {
        return Err("parsing changed the context".into());
    }
    Ok(())
}

pub fn run_c11(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "pair" {
        return super::names::run("C11", data, stats);
    }
    if sub == "redefine" {
        return redefine(data, stats);
    }
    let all = ops();
    let mut s = CState::default();
    let mut r = Real::Ctx(Context::default());
    let mut forks = Vec::new();
    let mut shown = Vec::new();
    for i in data.split(',').filter(|x| !x.is_empty()) {
        let op = all[i.parse::<usize>().unwrap()];
        shown.push(format!("{op:?}"));
        r = apply_real(r, op, &s, &mut forks);
        apply_model(&mut s, op);
        stats.inc("operations");
    }
    let mut h = Fnv::new();
    h.bytes(format!("{s:?}").as_bytes());
    stats.state(h.0);
    probe(&mut r, &s, stats).map_err(|e| format!("after {}: {e}", shown.join(", ")))?;
    for (mut f, fs) in forks {
        stats.inc("clones_checked");
        probe(&mut f, &fs, stats).map_err(|e| format!("after {}: the clone: {e}", shown.join(", ")))?;
    }
    Ok(())
}

/// Values given to names one after the other; `f` is a function instead.
const SPECIAL: [&str; 16] = ["NaN", "inf", "-inf", "0", "-0", "1", "-1", "5e-324", "1e308", "0.1", "f32", "i32", "u8", "bool", "f", "table"];

/// `others way:value way:value ...`: the last definition of "a" holds, among others.
fn redefine(data: &str, stats: &mut Stats) -> Outcome {
    let mut w = data.split(' ');
    let others: usize = w.next().unwrap().parse().unwrap();
    let names: Vec<&'static str> = (0..others).map(|k| intern(&format!("o{k}"))).collect();
    let mut c: Context<'static> = Context::default();
    for (k, n) in names.iter().enumerate() {
        c.set_var(n, k as f64 + 0.25);
    }
    let mut kept = true;
    let mut want: Result<f64, ()> = Err(());
    for d in w {
        let (way, v) = d.split_once(':').unwrap();
        let set = way == "set";
        want = match v {
            "f" => {
                let f = Function::new_dyn("a", |a| a.len() as f64, Some(0));
                if set { c.set_fn(f) } else { c = c.with_fn(f) }
                Err(())
            }
            "table" => {
                c = c.with_symbols(HashMap::from([("a", Symbol::from(-7.5))]));
                kept = false;
                Ok(-7.5)
            }
            "f32" => {
                if set { c.set_var("a", 0.1f32) } else { c = c.with_var("a", 0.1f32) }
                Ok(f64::from(0.1f32))
            }
            "i32" => {
                if set { c.set_var("a", i32::MIN) } else { c = c.with_var("a", i32::MIN) }
                Ok(f64::from(i32::MIN))
            }
            "u8" => {
                if set { c.set_var("a", 200u8) } else { c = c.with_var("a", 200u8) }
                Ok(200.0)
            }
            "bool" => {
                if set { c.set_var("a", true) } else { c = c.with_var("a", true) }
                Ok(1.0)
            }
            _ => {
                let v: f64 = v.parse().unwrap();
                if set { c.set_var("a", v) } else { c = c.with_var("a", v) }
                Ok(v)
            }
        };
        stats.inc("operations");
    }
    let mut h = Fnv::new();
    h.bytes(data.as_bytes());
    stats.state(h.0);
    match (c.get("a"), want) {
        (Some(Symbol::Variable(v)), Ok(x)) if model::same(*v, x) && (x.is_nan() || v.to_bits() == x.to_bits()) => {}
        (Some(Symbol::Function(f)), Err(())) if f.name == "a" => {}
        (got, _) => return Err(format!("{data}: \"a\" resolves to {got:?}")),
    }
    for (k, n) in names.iter().enumerate() {
        if (c.get(n) == Some(&Symbol::Variable(k as f64 + 0.25))) != kept {
            return Err(format!("{data}: {n} resolves to {:?}", c.get(n)));
        }
    }
    let p = Parser::new_with_ctx(c);
    let (text, x) = if want.is_ok() { ("a", want.unwrap()) } else { ("a()", 0.0) };
    let got = p.parse(text).map_err(|e| format!("{data}: {e}"))?.eval_no_vars().map_err(|e| format!("{data}: {e}"))?;
    if !model::same(got, x) {
        return Err(format!("{data}: {text} is {got:?}, expected {x:?}"));
    }
    if kept && others > 0 {
        let t = names.join("+");
        let want: f64 = (0..others).map(|k| k as f64 + 0.25).sum();
        let got = p.parse(&t).map_err(|e| format!("{data}: {e}"))?.eval_no_vars().map_err(|e| format!("{data}: {e}"))?;
        if got != want {
            return Err(format!("{data}: {t} is {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

pub fn enum_c11(rt: &mut Rt) {
    super::names::enumerate(rt);
    for n in [0usize, 1, 3, 7, 28, 100, 1000].into_iter().chain(magic(1000)) {
        for u in SPECIAL {
            for v in SPECIAL {
                for ways in 0..4 {
                    let w = |b: bool| if b { "set" } else { "with" };
                    rt.shared_case("redefine", &format!("{n} {}:{u} {}:{v}", w(ways & 1 == 1), w(ways & 2 == 2)));
                    if n == 1 || !rt.quick() && n < 100 {
                        for x in SPECIAL {
                            rt.shared_case("redefine", &format!("{n} {}:{u} {}:{v} {}:{x}", w(ways & 1 == 1), w(ways & 2 == 2), w(ways & 1 == 1)));
                        }
                    }
                }
            }
        }
    }
    let all = ops();
    // every history up to the depth
    fn go(rt: &mut Rt, n: usize, left: usize, text: &mut String, depth: usize) {
        if rt.stop() {
            return;
        }
        if depth == 2 && !rt.mine() {
            return;
        }
        if depth >= 2 || rt.shard == 0 {
            rt.case("history", text);
        }
        if left == 0 {
            return;
        }
        for k in 0..n {
            let l = text.len();
            if l > 0 {
                text.push(',');
            }
            text.push_str(&k.to_string());
            go(rt, n, left - 1, text, depth + 1);
            text.truncate(l);
        }
    }
    go(rt, all.len(), rt.pick(3, 4), &mut String::new(), 0);
    // every reachable state of the model, and every transition out of it, with a clone taken before
    let clone = all.iter().position(|o| matches!(o, Op::Clone)).unwrap();
    let mut seen: HashSet<CState> = HashSet::from([CState::default()]);
    let mut frontier = vec![(CState::default(), String::new())];
    while let Some((s, h)) = frontier.pop() {
        if rt.stop() {
            return;
        }
        for (k, op) in all.iter().enumerate() {
            let mut t = s.clone();
            apply_model(&mut t, *op);
            let h2 = if h.is_empty() { k.to_string() } else { format!("{h},{k}") };
            rt.shared_case("transition", &h2);
            let fork = if h.is_empty() { format!("{clone},{k}") } else { format!("{h},{clone},{k}") };
            rt.shared_case("transition", &fork);
            if !rt.quick() {
                rt.shared_case("transition", &format!("{clone},{fork}"));
            }
            if seen.insert(t.clone()) {
                frontier.insert(0, (t, h2));
            }
        }
    }
    rt.stats.add("model_states_reached", if rt.shard == 0 { seen.len() as u64 } else { 0 });
}

// ---------------------------------------------------------------- C12

thread_local! {
    static INNER_FINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
    static CALLS: RefCell<Vec<(u32, Vec<u64>)>> = const { RefCell::new(Vec::new()) };
}

fn record(id: u32, args: &[f64]) -> f64 {
    CALLS.with(|c| c.borrow_mut().push((id, args.iter().map(|a| a.to_bits()).collect())));
    weigh(args) + f64::from(id)
}
fn take_calls() -> Vec<(u32, Vec<u64>)> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
fn s0(a: &[f64]) -> f64 {
    record(0, a)
}
fn s1(a: &[f64]) -> f64 {
    record(1, a)
}
fn s2(a: &[f64]) -> f64 {
    record(2, a)
}

/// Functions of every kind, each of which records its calls: names z g h t v V.
fn recording() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pair::default().fun("z", Some(0), s0).fun("g", Some(1), s1).dynfun("h", Some(2), |a| record(5, a));
        p.parser.ctx_mut().set_fn(xprs_fn!("t", |a: f64, b: f64, c: f64| record(6, &[a, b, c]), 3));
        p.m = p.m.with_fun("t", Some(3), |a| record(6, a));
        p.parser.ctx_mut().set_fn(xprs_fn!("v", s2));
        p.m = p.m.with_fun("v", None, |a| record(2, a));
        p.dynfun("V", None, |a| record(7, a))
    })
}

/// Functions with the names of the built-in ones, which record their calls.
fn recording_shadows() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| shadows(|k, a| record(100 + k as u32, a)))
}

fn limited(arity: Option<u8>, kind: u8) -> Function {
    match kind {
        0 => Function::new_static("f", s1, arity),
        _ => Function::new_dyn("f", |a| record(1, a), arity),
    }
}

fn args_text(n: usize, kind: u8) -> String {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(match kind {
            0 => format!("a{i}"),
            1 => format!("{}.5", i + 1),
            _ => if i % 2 == 0 { format!("a{i}") } else { format!("-{i}") },
        });
    }
    v.join(",")
}

fn count_case(arity: Option<u8>, count: usize, kind: u8, args: u8, stats: &mut Stats) -> Outcome {
    let f = limited(arity, kind);
    let parser = Parser::new_with_ctx(Context::default().with_fn(f));
    let text = format!("f({})", args_text(count, args));
    let short = format!("f with {arity:?} parameters called with {count} arguments");
    take_calls();
    let got = parser.parse(&text);
    let parse_calls = take_calls();
    let fits = arity.map_or(true, |n| usize::from(n) == count);
    match got {
        Err(e) => {
            if fits {
                return Err(format!("{short} rejected: {e}"));
            }
            let n = arity.unwrap();
            let want = if count < usize::from(n) { model::Kind::TooFew(n, count) } else { model::Kind::TooMany(n, count) }.message();
            if e.to_string() != want {
                return Err(format!("{short}: `{e}`, expected `{want}`"));
            }
            // the advice counts the arguments as well
            std::hint::black_box(miette::Diagnostic::help(&e).map(|h| h.to_string()));
            stats.inc("rejected");
        }
        Ok(x) => {
            if !fits {
                return Err(format!("{short} accepted"));
            }
            stats.inc("accepted");
            let vals: Vec<f64> = (0..count)
                .map(|i| match args {
                    0 => 0.25 + i as f64,
                    1 => (i + 1) as f64 + 0.5,
                    _ => if i % 2 == 0 { 0.25 + i as f64 } else { -(i as f64) },
                })
                .collect();
            let names: Vec<String> = (0..count).map(|i| format!("a{i}")).collect();
            let env: HashMap<&str, f64> = names.iter().enumerate().map(|(i, n)| (n.as_str(), 0.25 + i as f64)).collect();
            let bits: Vec<u64> = vals.iter().map(|v| v.to_bits()).collect();
            let constant = args == 1 || count == 0;
            let want = weigh(&vals) + 1.0;
            if model::opt() && constant {
                if parse_calls != vec![(1, bits.clone())] {
                    return Err(format!("{short}: calls while folding: {}", show_calls(&parse_calls)));
                }
            } else if !parse_calls.is_empty() {
                return Err(format!("{short}: called while parsing: {}", show_calls(&parse_calls)));
            }
            for round in 0..2 {
                let v = if round == 0 { x.eval(&env).map_err(|e| e.to_string())? } else { x.eval_unchecked(&env) };
                let calls = take_calls();
                let expect = if model::opt() && constant { vec![] } else { vec![(1, bits.clone())] };
                if calls != expect {
                    return Err(format!("{short}: calls {}, expected {}", show_calls(&calls), show_calls(&expect)));
                }
                if !model::same(v, want) {
                    return Err(format!("{short}: value {v:?}, expected {want:?}"));
                }
            }
        }
    }
    Ok(())
}

fn show_calls(c: &[(u32, Vec<u64>)]) -> String {
    c.iter().take(6).map(|(i, a)| format!("#{i}({})", a.iter().take(12).map(|b| format!("{:?}", f64::from_bits(*b))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ")
}

const EDGE_ARGS: [f64; 10] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -2.5, 5e-324, f64::MAX, 3.0];

/// Whatever the values of its arguments are, a function is called once, with exactly them, and
/// what it returns is the value of the call.
fn tuple_case(data: &str, stats: &mut Stats) -> Outcome {
    let idx: Vec<usize> = data.split(' ').map(|s| s.parse().unwrap()).collect();
    let (ret, idx) = (EDGE_ARGS[idx[0]], &idx[1..]);
    let vals: Vec<f64> = idx.iter().map(|i| EDGE_ARGS[*i]).collect();
    let names: Vec<String> = (0..vals.len()).map(|i| format!("a{i}")).collect();
    let env: HashMap<&str, f64> = names.iter().map(String::as_str).zip(vals.iter().copied()).collect();
    let want: Vec<(u32, Vec<u64>)> = vec![(1, vals.iter().map(|v| v.to_bits()).collect())];
    let answer = move |a: &[f64]| {
        record(1, a);
        ret
    };
    let text = format!("f({})", names.join(","));
    for arity in [None, Some(vals.len() as u8)] {
        let mut p = Parser::new_with_ctx(Context::default().with_fn(Function::new_dyn("f", answer, arity)));
        for (name, v) in &env {
            p.ctx_mut().set_var(intern(&format!("c{name}")), *v);
        }
        let x = p.parse(&text).map_err(|e| e.to_string())?;
        let constants = format!("f({})", names.iter().map(|n| format!("c{n}")).collect::<Vec<_>>().join(","));
        let folded = p.parse(&constants).map_err(|e| e.to_string())?;
        let f_calls = take_calls();
        let check = |how: &str, v: f64, calls: Vec<(u32, Vec<u64>)>| {
            if calls != want {
                return Err(format!("{how}: calls {}, expected {}", show_calls(&calls), show_calls(&want)));
            }
            if v.to_bits() != ret.to_bits() && !(v.is_nan() && ret.is_nan()) {
                return Err(format!("{how}: value {v:?}, the function returned {ret:?}"));
            }
            Ok(())
        };
        let v = x.eval(&env).map_err(|e| e.to_string())?;
        check("eval", v, take_calls())?;
        let v = x.eval_unchecked(&env);
        check("eval_unchecked", v, take_calls())?;
        let v = folded.eval(&HashMap::new()).map_err(|e| e.to_string())?;
        let mut all = f_calls;
        all.extend(take_calls());
        // NaN constants may be written another way
        check("constants", v, all)?;
        let all_names: Vec<&str> = names.iter().map(String::as_str).collect();
        let y = x.clone();
        let b = y.bind_n_runtime(&all_names).map_err(|e| e.to_string())?;
        let v = b(&vals).map_err(|e| e.to_string())?;
        check("bind_n_runtime", v, take_calls())?;
        drop(b);
        let mut s = x.clone();
        for (n, v) in &env {
            s = s.simplify_for((n, *v));
        }
        let mut all = take_calls();
        let v = s.eval(&HashMap::new()).map_err(|e| e.to_string())?;
        all.extend(take_calls());
        check("simplify_for", v, all)?;
        stats.inc("argument_tuples");
    }
    Ok(())
}

/// The calls of one evaluation are those of the model, with the same arguments, as often.
fn nested_case(text: &str, p: &Pair, stats: &mut Stats) -> Outcome {
    take_calls();
    let want = model::parse(text, &p.m);
    let got = p.parser.parse(text);
    let folded = take_calls();
    let ast = match (want, &got) {
        (Err(e), Err(g)) => {
            return if g.to_string() == e.kind.message() { Ok(()) } else { Err(format!("`{g}`, expected `{}`", e.kind.message())) };
        }
        (Err(e), Ok(x)) => return Err(format!("accepted as {x}, expected `{}`", e.kind.message())),
        (Ok(_), Err(g)) => return Err(format!("rejected: {g}")),
        (Ok(a), Ok(_)) => a,
    };
    let x = got.unwrap();
    let vars = ast.var_set();
    if !model::opt() && !folded.is_empty() {
        return Err(format!("called while parsing: {}", show_calls(&folded)));
    }
    let env: HashMap<&str, f64> = vars.iter().map(|v| (*v, var_value(0, v))).collect();
    take_calls();
    let wv = ast.eval(&env).unwrap();
    let mut want = take_calls();
    want.sort();
    for _ in 0..2 {
        let v = x.eval(&env).map_err(|e| e.to_string())?;
        let calls = take_calls();
        let mut all: Vec<_> = folded.iter().cloned().chain(calls).collect();
        all.sort();
        stats.inc("call_traces");
        if all != want {
            return Err(format!("calls {}, expected {}", show_calls(&all), show_calls(&want)));
        }
        if !model::same(v, wv) {
            return Err(format!("value {v:?}, expected {wv:?}"));
        }
    }
    Ok(())
}

/// Calls under operators: an evaluation makes exactly the calls that the expression shows, by
/// every route, and parsing and simplifying make none but those that disappear from it.
fn operators_case(text: &str, stats: &mut Stats) -> Outcome {
    let p = recording();
    take_calls();
    let x = p.parser.parse(text).map_err(|e| e.to_string())?;
    let folded = take_calls();
    if !model::opt() && !folded.is_empty() {
        return Err(format!("called while parsing: {}", show_calls(&folded)));
    }
    same_calls(&x, text, stats)?;
    for (n, v) in [("x", 2.0), ("y", -1.5), ("x", 0.0), ("y", 1.0)] {
        let y = x.clone().simplify_for((n, v));
        take_calls();
        same_calls(&y, text, stats).map_err(|e| format!("simplified for {n}={v}: {e}"))?;
    }
    Ok(())
}

fn same_calls(x: &Xprs, text: &str, stats: &mut Stats) -> Outcome {
    let p = recording();
    let shown = x.to_string();
    if shown.contains("NaN") || shown.contains("inf") {
        return Ok(());
    }
    let ast = model::parse(&shown, &p.m).map_err(|e| format!("{text} prints `{shown}`: {}", e.kind.message()))?;
    let vals = [("x", 2.75), ("y", -1.5)];
    let env: HashMap<&str, f64> = vals.into();
    take_calls();
    let wv = ast.eval(&env).ok_or("a variable too many")?;
    let mut want = take_calls();
    want.sort();
    let judge = |route: &str, v: f64| -> Outcome {
        let mut calls = take_calls();
        calls.sort();
        if calls != want {
            return Err(format!("{route} of {shown}: calls {}, expected {}", show_calls(&calls), show_calls(&want)));
        }
        if !model::same0(v, wv) {
            return Err(format!("{route} of {shown}: value {v:?}, expected {wv:?}"));
        }
        Ok(())
    };
    stats.inc("call_traces");
    judge("eval", x.eval(&env).map_err(|e| e.to_string())?)?;
    judge("eval_unchecked", x.eval_unchecked(&env))?;
    judge("bind2", x.clone().bind2("x", "y").map_err(|e| e.to_string())?(2.75, -1.5))?;
    judge("bind_n", x.clone().bind_n(["y", "x"]).map_err(|e| e.to_string())?([-1.5, 2.75]))?;
    judge("bind_n_runtime", x.clone().bind_n_runtime(&["x", "y"]).map_err(|e| e.to_string())?(&[2.75, -1.5]).map_err(|e| e.to_string())?)?;
    if x.vars.is_empty() {
        judge("eval_no_vars", x.eval_no_vars().map_err(|e| e.to_string())?)?;
        judge("eval_no_vars_unchecked", x.eval_no_vars_unchecked())?;
    }
    Ok(())
}

/// Helper macro: every number of parameters, named and unnamed, plain and capturing.
fn macro_case(data: &str, stats: &mut Stats) -> Outcome {
    let (form, k) = data.split_once(' ').unwrap();
    let k: u8 = k.parse().unwrap();
    let w = |a: &[f64]| weigh(a) + 1000.0;
    let off = 1000.0;
    fn n0() -> f64 { weigh(&[]) + 1000.0 }
    fn n1(a: f64) -> f64 { weigh(&[a]) + 1000.0 }
    fn n2(a: f64, b: f64) -> f64 { weigh(&[a, b]) + 1000.0 }
    fn n3(a: f64, b: f64, c: f64) -> f64 { weigh(&[a, b, c]) + 1000.0 }
    fn n4(a: f64, b: f64, c: f64, d: f64) -> f64 { weigh(&[a, b, c, d]) + 1000.0 }
    fn n5(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 { weigh(&[a, b, c, d, e]) + 1000.0 }
    fn n6(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> f64 { weigh(&[a, b, c, d, e, f]) + 1000.0 }
    fn n7(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64) -> f64 { weigh(&[a, b, c, d, e, f, g]) + 1000.0 }
    #[allow(clippy::too_many_arguments)]
    fn n8(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 { weigh(&[a, b, c, d, e, f, g, h]) + 1000.0 }
    #[allow(clippy::too_many_arguments)]
    fn n9(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64 { weigh(&[a, b, c, d, e, f, g, h, i]) + 1000.0 }
    fn nv(a: &[f64]) -> f64 { weigh(a) + 1000.0 }
    let (name, f): (&str, Function) = match (form, k) {
        ("named", 0) => ("f", xprs_fn!("f", n0, 0)),
        ("named", 1) => ("f", xprs_fn!("f", n1, 1)),
        ("named", 2) => ("f", xprs_fn!("f", n2, 2)),
        ("named", 3) => ("f", xprs_fn!("f", n3, 3)),
        ("named", 4) => ("f", xprs_fn!("f", n4, 4)),
        ("named", 5) => ("f", xprs_fn!("f", n5, 5)),
        ("named", 6) => ("f", xprs_fn!("f", n6, 6)),
        ("named", 7) => ("f", xprs_fn!("f", n7, 7)),
        ("named", 8) => ("f", xprs_fn!("f", n8, 8)),
        ("named", 9) => ("f", xprs_fn!("f", n9, 9)),
        ("named", _) => ("f", xprs_fn!("f", nv)),
        ("dyn", 0) => ("f", xprs_fn!("f", dyn move || weigh(&[]) + off, 0)),
        ("dyn", 1) => ("f", xprs_fn!("f", dyn move |a| weigh(&[a]) + off, 1)),
        ("dyn", 2) => ("f", xprs_fn!("f", dyn move |a, b| weigh(&[a, b]) + off, 2)),
        ("dyn", 3) => ("f", xprs_fn!("f", dyn move |a, b, c| weigh(&[a, b, c]) + off, 3)),
        ("dyn", 4) => ("f", xprs_fn!("f", dyn move |a, b, c, d| weigh(&[a, b, c, d]) + off, 4)),
        ("dyn", 5) => ("f", xprs_fn!("f", dyn move |a, b, c, d, e| weigh(&[a, b, c, d, e]) + off, 5)),
        ("dyn", 6) => ("f", xprs_fn!("f", dyn move |a, b, c, d, e, f| weigh(&[a, b, c, d, e, f]) + off, 6)),
        ("dyn", 7) => ("f", xprs_fn!("f", dyn move |a, b, c, d, e, f, g| weigh(&[a, b, c, d, e, f, g]) + off, 7)),
        ("dyn", 8) => ("f", xprs_fn!("f", dyn move |a, b, c, d, e, f, g, h| weigh(&[a, b, c, d, e, f, g, h]) + off, 8)),
        ("dyn", 9) => ("f", xprs_fn!("f", dyn move |a, b, c, d, e, f, g, h, i| weigh(&[a, b, c, d, e, f, g, h, i]) + off, 9)),
        ("dyn", _) => ("f", xprs_fn!("f", dyn move |a: &[f64]| weigh(a) + off)),
        ("plain", _) => ("nv", xprs_fn!(nv)),
        ("plaindyn", 0) => ("n0", xprs_fn!(dyn n0, 0)),
        ("plaindyn", 1) => ("n1", xprs_fn!(dyn n1, 1)),
        ("plaindyn", 2) => ("n2", xprs_fn!(dyn n2, 2)),
        ("plaindyn", 3) => ("n3", xprs_fn!(dyn n3, 3)),
        ("plaindyn", 4) => ("n4", xprs_fn!(dyn n4, 4)),
        ("plaindyn", 5) => ("n5", xprs_fn!(dyn n5, 5)),
        ("plaindyn", 6) => ("n6", xprs_fn!(dyn n6, 6)),
        ("plaindyn", 7) => ("n7", xprs_fn!(dyn n7, 7)),
        ("plaindyn", 8) => ("n8", xprs_fn!(dyn n8, 8)),
        ("plaindyn", 9) => ("n9", xprs_fn!(dyn n9, 9)),
        _ => ("nv", xprs_fn!(dyn nv)),
    };
    let arity = if k > 9 { None } else { Some(k) };
    if f.name != name || f.nb_args != arity {
        return Err(format!("the macro made {f:?}, expected {name} with {arity:?}"));
    }
    let p = Parser::new_with_ctx(Context::default().with_fn(f));
    for n in 0..=12usize {
        for args in 0..3u8 {
            let t = format!("{name}({})", args_text(n, args));
            let r = p.parse(&t);
            if arity.is_some_and(|a| usize::from(a) != n) {
                if r.is_ok() {
                    return Err(format!("{t} accepted, {arity:?} parameters"));
                }
                continue;
            }
            let x = r.map_err(|e| format!("{t}: {e}"))?;
            let names: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
            let env: HashMap<&str, f64> = names.iter().enumerate().map(|(i, s)| (s.as_str(), 0.25 + i as f64)).collect();
            let vals: Vec<f64> = (0..n).map(|i| match args { 0 => 0.25 + i as f64, 1 => (i + 1) as f64 + 0.5, _ => if i % 2 == 0 { 0.25 + i as f64 } else { -(i as f64) } }).collect();
            stats.inc("macro_calls");
            let v = x.eval(&env).map_err(|e| format!("{t}: {e}"))?;
            if !model::same(v, w(&vals)) {
                return Err(format!("{t} gives {v:?}, expected {:?}", w(&vals)));
            }
        }
    }
    Ok(())
}

/// Functions made from expressions: f(a,b) := inner; then outer uses it.
fn higher_case(data: &str, stats: &mut Stats) -> Outcome {
    let v: Vec<&str> = data.split('\u{1}').collect();
    let (inner, how, outer) = (v[0], v[1], v[2]);
    let p0 = &std_pair().parser;
    let Ok(x) = p0.parse(inner) else { return Ok(()) };
    let ast = model::parse(inner, &std_pair().m).map_err(|e| format!("{e:?}"))?;
    let x: Xprs<'static> = {
        // the expression must live as long as the function
        drop(x);
        p0.parse(intern(inner)).map_err(|e| e.to_string())?
    };
    let names: [&'static str; 2] = if how.ends_with('r') { ["y", "x"] } else { ["x", "y"] };
    let f = match &how[..1] {
        "2" => {
            let b = x.bind2(names[0], names[1]).map_err(|e| e.to_string())?;
            let b = Share::new(b);
            let b = move |p, q| b.get()(p, q);
            xprs_fn!("f", dyn b, 2)
        }
        "n" => {
            let b = x.bind_n(names).map_err(|e| e.to_string())?;
            let b = Share::new(b);
            Function::new_dyn("f", move |a| b.get()([a[0], a[1]]), Some(2))
        }
        "s" => {
            let l: &'static [&'static str] = Box::leak(Box::new(names));
            let b = x.bind_n_runtime(l).map_err(|e| e.to_string())?;
            let b = Share::new(b);
            Function::new_dyn("f", move |a| b.get()(a).unwrap_or(f64::NAN), Some(2))
        }
        "e" => Function::new_dyn("f", move |a| x.eval_unchecked(&HashMap::from([(names[0], a[0]), (names[1], a[1])])), Some(2)),
        _ => {
            // simplified first, then bound
            Function::new_dyn(
                "f",
                move |a| {
                    let y = x.clone().simplify_for((names[0], a[0]));
                    let b = y.bind(names[1]).expect("bind");
                    b(a[1])
                },
                Some(2),
            )
        }
    };
    // simplification may use the rules of the finite case: values of the model decide below
    let rough = &how[..1] == "m";
    let mut ctx = Context::default().with_fn(f);
    let mast = ast.clone();
    let mf = move |a: &[f64]| {
        let mut seen = model::Seen { finite: true, zero_sign: false };
        let v = mast.eval_seen(&HashMap::from([(names[0], a[0]), (names[1], a[1])]), &mut seen).unwrap();
        if !seen.finite {
            INNER_FINITE.with(|f| f.set(false));
        }
        v
    };
    let m = std_pair().m.clone().with_fun("f", Some(2), mf);
    for (n, s) in [("g", "g"), ("h", "h"), ("v", "v")] {
        let f = match std_pair().parser.ctx().get(s) { Some(Symbol::Function(f)) => f.clone(), _ => return Err(format!("{n} missing")) };
        ctx.set_fn(f);
    }
    ctx.set_var("k", 1.75);
    ctx.set_var("K", -2.0);
    let p = Parser::new_with_ctx(ctx);
    let o = p.parse(outer).map_err(|e| format!("{outer}: {e}"))?;
    let oast = model::parse(outer, &m).map_err(|e| format!("{e:?}"))?;
    let vars = oast.var_set();
    for k in 0..VALUATIONS {
        let env: model::Env = vars.iter().map(|&v| (v, var_value(k, v))).collect();
        let mut seen = model::Seen { finite: true, zero_sign: false };
        INNER_FINITE.with(|f| f.set(true));
        let want = oast.eval_seen(&env, &mut seen).unwrap();
        if (model::opt() || rough) && !(seen.finite && INNER_FINITE.with(std::cell::Cell::get)) {
            stats.inc("values_unguarded");
            continue;
        }
        // values inside the inner expression
        stats.inc("compositions");
        let got = o.eval(&env).map_err(|e| e.to_string())?;
        if !(model::same(got, want) || (model::opt() || rough) && model::same0(got, want)) {
            return Err(format!("f(x,y)={inner} ({how}), {outer} with {}: {got:?}, expected {want:?}", show_env(&env)));
        }
    }
    Ok(())
}

pub fn run_c12(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "pair" {
        return super::names::run("C12", data, stats);
    }
    match sub {
        "count" => {
            let v: Vec<i64> = data.split(' ').map(|s| s.parse().unwrap()).collect();
            let arity = if v[0] < 0 { None } else { Some(v[0] as u8) };
            stats.state((v[0] + 1) as u64 * 100_000 + v[1] as u64);
            count_case(arity, v[1] as usize, v[2] as u8, v[3] as u8, stats)
        }
        "operators" => operators_case(data, stats),
        "macro" => macro_case(data, stats),
        "tuple" => tuple_case(data, stats),
        "higher" => higher_case(data, stats),
        _ => {
            let mut h = Fnv::new();
            h.bytes(data.as_bytes());
            stats.state(h.0);
            nested_case(data, if sub == "shadow" { recording_shadows() } else { recording() }, stats)
        }
    }
}

pub fn enum_c12(rt: &mut Rt) {
    super::names::enumerate(rt);
    // every arity and count, functions of both kinds, variable, constant and mixed arguments
    for arity in -1..=255i64 {
        for count in 0..=257i64 {
            let near = arity < 0 || (count - arity).abs() <= 2 || count <= 3 || count >= 254;
            for kind in 0..2 {
                for args in 0..3 {
                    if near || (!rt.quick() || (kind + args + arity + count) % 6 == 0) {
                        rt.shared_case("count", &format!("{arity} {count} {kind} {args}"));
                    }
                }
            }
        }
    }
    for count in [511i64, 512, 513, 1023, 1024, 4096, 65_535, 65_536, 65_537, 65_538].into_iter().chain(magic(70_000).into_iter().map(|n| n as i64)) {
        for arity in [-1i64, 0, 1, 2, 255] {
            for kind in 0..2 {
                for args in 0..2 {
                    rt.shared_case("count", &format!("{arity} {count} {kind} {args}"));
                }
            }
        }
    }
    for t in shadow_texts() {
        // these are simplified away
        if !(model::opt() && (t.contains("0*") || t.contains("*0") || t.contains("e/e") || ["-", "/", "%"].iter().any(|o| t.split_once(o).is_some_and(|(a, b)| a == b)))) {
            rt.shared_case("shadow", &t);
        }
    }
    // every argument and every answer of the edges
    let n = EDGE_ARGS.len();
    for len in 1..=rt.pick(3u32, 5) {
        for code in 0..n.pow(len) {
            for ret in 0..n {
                if len > 1 && rt.quick() && ret % 4 != code % 4 {
                    continue;
                }
                let mut t = ret.to_string();
                let mut c = code;
                for _ in 0..len {
                    t += &format!(" {}", c % n);
                    c /= n;
                }
                rt.shared_case("tuple", &t);
            }
        }
    }
    for form in ["named", "dyn", "plain", "plaindyn"] {
        for k in 0..=10 {
            // an earlier arm of the macro takes (function, count): it cannot be used that way
            if form == "plain" && k <= 9 {
                continue;
            }
            rt.shared_case("macro", &format!("{form} {k}"));
        }
    }
    // nested calls: every tree
    let t = Trees {
        leaves: ["x", "y", "2", "z()", "v()", "V( )"].map(str::to_owned).to_vec(),
        unary: ["g(", "v(", "V(", "(-"].iter().map(|s| ((*s).to_owned(), ")".to_owned())).collect(),
        binary: ["h(", "v(", "V("].iter().map(|s| ((*s).to_owned(), ",".to_owned(), ")".to_owned())).chain([("(".to_owned(), "-".to_owned(), ")".to_owned())]).chain([("t(".to_owned(), ",3,".to_owned(), ")".to_owned()), ("V(1,".to_owned(), ",x,".to_owned(), ",y)".to_owned())]).collect(),
    };
    for n in 0..=rt.pick(2, 3) {
        t.each(n, &mut |s| {
            // x-x is simplified away
            if !(model::opt() && (s.contains("(x-x)") || s.contains("(y-y)"))) {
                rt.shared_case("nested", s);
            }
            !rt.stop()
        });
    }
    // calls under every operator
    let t = Trees::new(&["g(x)", "v(x,y)", "z()", "x", "0", "1", "2", "0.5", "3", "4"], &["(-@)", "(+@)", "(@!)", "g(@)"], &[BIN_OPS.as_slice(), &["h(@,@)"]].concat());
    for n in 0..=2 {
        t.each(n, &mut |s| {
            if s.contains("g(") || s.contains("v(") || s.contains("z(") || s.contains("h(") {
                rt.shared_case("operators", s);
            }
            !rt.stop()
        });
    }
    let t = Trees::new(&["g(x)", "v(y)", "2", "x"], &["(-@)"], &BIN_OPS);
    t.each(rt.pick(2, 3), &mut |s| {
        rt.shared_case("operators", s);
        !rt.stop()
    });
    for e in (-20..=40).flat_map(|k| [format!("{k}"), format!("{}.5", k)]).chain(["0.25", "0.75", "0.1", "100", "1000", "255", "256", "1e3"].map(str::to_owned)) {
        for op in ["+", "-", "*", "/", "%", "^"] {
            rt.shared_case("operators", &format!("g(x){op}({e})"));
            rt.shared_case("operators", &format!("({e}){op}g(x)"));
            rt.shared_case("operators", &format!("h(x,y){op}g(({e}){op}v(x))"));
        }
    }
    let t = Trees::new(&["x", "2", "z()"], &["g(@)", "v(@)"], &["h(@,@)", "V(@,@)"]);
    t.each(3, &mut |s| {
        rt.shared_case("nested", s);
        !rt.stop()
    });
    // token strings around calls: what is accepted
    use Tok::T;
    let toks = [T("g"), T("h("), T("z("), T("v("), T("("), T(")"), T(","), T("x"), T("2"), T("-"), T(" ")];
    Dfs { sub: "nested", toks: &toks, nums: &NUMS, max: rt.pick(6, 7), ctx: &recording().m, apart: false, slack: 1, split: 2 }.run(rt);
    let inners = Trees::new(&["x", "y", "2", "0", "k"], &["(-@)", "g(@)"], &[BIN_OPS.as_slice(), &["h(@,@)"]].concat());
    for n in 0..=1 {
        inners.each(n, &mut |s| {
            for how in ["2", "2r", "n", "nr", "s", "sr", "e", "er", "m", "mr"] {
                for outer in ["f(x,y)", "f(y,x)", "f(2,x)", "f(f(x,y),f(y,2))", "g(f(x,f(1,y)))-f(x,x)", "f(3,4)", "v(f(x,1),f(1,x),f(2,3))"] {
                    rt.shared_case("higher", &format!("{s}\u{1}{how}\u{1}{outer}"));
                }
            }
            !rt.stop()
        });
    }
}
