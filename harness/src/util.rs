//! Helpers shared by the checks: matched pairs of implementation and model contexts, enumerators.
use crate::model::{self, Ast, Env, MCtx, MErr};
use crate::rt::{Outcome, Rt, Stats};
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};
use xprs::{Context, Function, Parser, Xprs};

/// A string that lives for ever (names of functions are static).
pub fn intern(s: &str) -> &'static str {
    static ALL: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut g = ALL.get_or_init(Mutex::default).lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = g.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
    g.insert(l);
    l
}

/// An implementation parser and the model context that stands for it.
pub struct Pair {
    pub parser: Parser<'static>,
    pub m: MCtx,
}

impl Default for Pair {
    fn default() -> Self {
        Self { parser: Parser::new_with_ctx(Context::default()), m: MCtx::default() }
    }
}

impl Pair {
    pub fn konst(mut self, name: &str, v: f64) -> Self {
        self.parser.ctx_mut().set_var(intern(name), v);
        self.m = self.m.with_const(name, v);
        self
    }
    pub fn fun(mut self, name: &str, arity: Option<u8>, f: fn(&[f64]) -> f64) -> Self {
        self.parser.ctx_mut().set_fn(Function::new_static(intern(name), f, arity));
        self.m = self.m.with_fun(name, arity, f);
        self
    }
    pub fn dynfun(mut self, name: &str, arity: Option<u8>, f: impl Fn(&[f64]) -> f64 + Send + Sync + Clone + 'static) -> Self {
        self.parser.ctx_mut().set_fn(Function::new_dyn(intern(name), f.clone(), arity));
        self.m = self.m.with_fun(name, arity, f);
        self
    }
}

pub fn weigh(args: &[f64]) -> f64 {
    let mut acc = 0.375;
    for (i, a) in args.iter().enumerate() {
        acc += (i as f64 + 1.25) * a;
    }
    acc
}
fn z0(_: &[f64]) -> f64 {
    2.625
}
fn g1(a: &[f64]) -> f64 {
    a[0] * 1.25 + 0.5
}
fn h2(a: &[f64]) -> f64 {
    a[0] * 3.0 - a[1] * 0.5 + 0.25
}

/// Functions: z() g(a) h(a,b) v(...), constants k (1.75) and K (-2).
pub fn std_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        Pair::default()
            .fun("z", Some(0), z0)
            .fun("g", Some(1), g1)
            .dynfun("h", Some(2), h2)
            .dynfun("v", None, weigh)
            .konst("k", 1.75)
            .konst("K", -2.0)
    })
}

/// Same, without any context.
pub fn plain_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(Pair::default)
}

/// Every built-in name is defined as something else of the same kind and arity.
pub fn shadow_pair() -> &'static Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| shadows(|k, args| weigh(args) * (1.0 + k / 64.0) - k / 8.0))
}

pub fn shadows(f: fn(f64, &[f64]) -> f64) -> Pair {
    let mut names: Vec<_> = model::builtins().iter().collect();
    names.sort_by_key(|(n, _)| n.as_str());
    let mut p = Pair::default();
    for (k, (name, sym)) in names.into_iter().enumerate() {
        let k = k as f64 + 1.0;
        p = match sym {
            model::MSym::Fun(g) => p.dynfun(name, g.arity, move |a| f(k, a)),
            model::MSym::Const(_) => p.konst(name, 0.625 + k),
        };
    }
    p
}

/// Texts in which built-in names are called in every small way.
pub fn shadow_texts() -> Vec<String> {
    let mut names: Vec<(&str, usize)> = model::builtins().iter().filter_map(|(n, s)| match s {
        model::MSym::Fun(g) => Some((n.as_str(), g.arity.map_or(2, usize::from))),
        model::MSym::Const(_) => None,
    }).collect();
    names.sort_unstable();
    let call = |(n, k): (&str, usize), a: &str| format!("{n}({})", [a, "y", "x"][..k].join(","));
    let mut v: Vec<String> = ["e", "pi", "e+pi", "e^x", "x^e", "pi*x", "2pi", "pi-pi", "e/e", "x*e", "-e", "e!", "ln(e)", "sin(pi)", "cos(pi)", "exp(1)", "ln(1)", "logn(e,x)"].map(str::to_owned).to_vec();
    for f in &names {
        let f = *f;
        for a in ["x", "-x", "(-x)", "--x", "x*-1", "-1*x", "0-x", "-x*y", "(-x)^2", "x-y", "y-x", "x+y", "x*y", "x/y", "x^2", "x^0.5", "2^x", "e^x", "x!", "1/x", "1-x", "x+1", "x%1", "0", "1", "-1", "0.5", "pi", "e", "pi/2", "2*pi", "x+pi", "x+2*pi", "x*x", "0*x"] {
            v.push(call(f, a));
            v.push(format!("-{}", call(f, a)));
        }
        let c = call(f, "x");
        let d = call(f, "-x");
        for t in ["#+#", "#-#", "#*#", "#/#", "#^2", "#^0.5", "#!", "#%#", "#^-1", "1/#", "-#", "--#", "#+@", "#-@", "#*@", "#/@", "@+#", "@-#", "0*#", "1*#", "#*0", "#^0", "#^1", "2^#", "e^#", "#x", "2#", "(#)(@)", "x#", "#%1"] {
            v.push(t.replace('#', &c).replace('@', &d));
        }
        for g in &names {
            v.push(call(f, &call(*g, "x")));
            v.push(call(f, &format!("-{}", call(*g, "x"))));
            v.push(format!("{}-{}", call(f, "x"), call(*g, "x")));
            v.push(format!("{}*{}", call(f, "x"), call(*g, "x")));
            v.push(format!("{}/{}", call(f, "x"), call(*g, "x")));
            v.push(format!("{}^2+{}^2", call(f, "x"), call(*g, "x")));
            v.push(call(f, &call(*g, "0.5")).replace('y', "2").replace("x)", "3)"));
        }
    }
    v
}

/// Value of a variable in valuation `k`, any name.
pub fn var_value(k: usize, name: &str) -> f64 {
    const A: [[f64; 8]; 4] = [
        [0.7390851332151607, 1.618033988749895, 0.5671432904097838, 1.324717957244746, 2.2360679774997896, 0.9159655941772190, 1.2020569031595942, 0.3183098861837907],
        [3.0, 2.0, 4.0, 1.0, 5.0, 2.0, 3.0, 6.0],
        [-1.5, 0.25, -0.75, 2.5, -3.25, 0.5, -0.125, 1.75],
        [0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, -0.5],
    ];
    let mut i = 0usize;
    for (p, b) in name.bytes().enumerate() {
        i = i.wrapping_add((b as usize).wrapping_mul(p * 2 + 1));
    }
    let base = A[k % 4][i % 8];
    if k % 4 == 1 {
        base
    } else {
        base + (i % 1009) as f64 * if k % 4 == 3 { 0.0 } else { 0.0009765625 }
    }
}

pub fn env_for<'a>(ast: &'a Ast, k: usize) -> Env<'a> {
    ast.var_set().into_iter().map(|v| (v, var_value(k, v))).collect()
}

pub const VALUATIONS: usize = 3;

/// Compares parse result and values of one text with the model; the error kind is not compared.
pub fn agree(text: &str, pair: &Pair, stats: &mut Stats) -> Outcome {
    let want = model::parse_observed(text, &pair.m, Some(stats));
    let got = pair.parser.parse(text);
    match (&want, &got) {
        (Err(e), Err(_)) => {
            stats.inc(e.kind.tag());
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("rejected ({e}), the text is well formed")),
        (Err(e), Ok(x)) => Err(format!("accepted as {x}, expected: {}", e.kind.message())),
        (Ok(ast), Ok(x)) => {
            stats.inc("accepted");
            values_agree(ast, x, stats)
        }
    }
}

/// All valuations: bit-identical without optimisation, identical under the finite guard with it.
pub fn values_agree(ast: &Ast, x: &Xprs, stats: &mut Stats) -> Outcome {
    let vars = ast.var_set();
    let n = if vars.is_empty() { 1 } else { VALUATIONS };
    for k in 0..n {
        let env: Env = vars.iter().map(|&v| (v, var_value(k, v))).collect();
        value_agrees(ast, x, &env, stats)?;
    }
    Ok(())
}

pub fn value_agrees(ast: &Ast, x: &Xprs, env: &Env, stats: &mut Stats) -> Outcome {
    let mut seen = model::Seen { finite: true, zero_sign: false };
    let Some(want) = ast.eval_seen(env, &mut seen) else { return Err("model: missing variable".into()) };
    if model::opt() && (!seen.finite || seen.zero_sign) && !ast.var_set().is_empty() {
        stats.inc("values_unguarded");
        return Ok(());
    }
    stats.inc("values_compared");
    match x.eval(env) {
        Ok(v) if model::same(want, v) || (model::opt() && model::same0(want, v)) => Ok(()),
        Ok(v) => Err(format!("value {v:?} ({:016x}), expected {want:?} ({:016x}) with {}", v.to_bits(), want.to_bits(), show_env(env))),
        Err(e) => Err(format!("evaluation failed: {e}, expected {want:?}")),
    }
}

pub fn show_env(env: &Env) -> String {
    let mut v: Vec<_> = env.iter().map(|(k, x)| format!("{k}={x:?}")).collect();
    v.sort();
    format!("{{{}}}", v.join(", "))
}

/// Tokens of an enumeration. `Num` is a number literal whose text depends on the position.
#[derive(Clone, Copy)]
pub enum Tok {
    T(&'static str),
    Num,
    Var,
}

pub const NUMS: [&str; 12] = ["2", "3", "1.5", "0.75", "4", "2.5", "1.25", "3.5", "0.5", "5", "1.75", "6"];
pub const INTS: [&str; 12] = ["3", "2", "4", "1", "5", "2", "3", "0", "4", "1", "2", "3"];
pub const VARS: [&str; 12] = ["x", "y", "q", "w", "r", "s", "t", "u", "m", "n", "o", "p"];

pub struct Dfs<'a> {
    pub sub: &'static str,
    pub toks: &'a [Tok],
    pub nums: &'a [&'static str],
    pub max: usize,
    pub ctx: &'a MCtx,
    /// keep words apart by a space
    pub apart: bool,
    /// how many more tokens to add after no continuation can be accepted
    pub slack: usize,
    pub split: usize,
}

fn wordy(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'_' | b'\'' | b'.')
}

impl Dfs<'_> {
    pub fn run(&self, rt: &mut Rt) {
        let mut text = String::new();
        self.go(rt, &mut text, 0, self.slack);
    }

    fn go(&self, rt: &mut Rt, text: &mut String, depth: usize, slack: usize) {
        if rt.stop() {
            return;
        }
        if depth == self.split {
            if !rt.mine() {
                return;
            }
        }
        if depth >= self.split || rt.shard == 0 {
            rt.case(self.sub, text);
        }
        if depth == self.max {
            return;
        }
        let mut slack = slack;
        let dead = match model::parse(text, self.ctx) {
            Ok(_) => false,
            Err(e) => !model::viable(text, &e),
        };
        if dead {
            if slack == 0 {
                return;
            }
            slack -= 1;
        }
        for tok in self.toks {
            let len = text.len();
            let t = match tok {
                Tok::T(s) => s,
                Tok::Num => self.nums[depth % self.nums.len()],
                Tok::Var => VARS[depth % VARS.len()],
            };
            if self.apart && !text.is_empty() && wordy(text.as_bytes()[len - 1]) && wordy(t.as_bytes()[0]) {
                text.push(' ');
            }
            text.push_str(t);
            self.go(rt, text, depth + 1, slack);
            text.truncate(len);
        }
    }
}

/// Well-formed texts of every construct, as tokens.
pub const BASES: [&str; 22] = [
    "v( 1 , x , 2 , y )", "v( 1 , x , 2 , y , q , 3 )", "h( x , y )", "h( g( x ) , v( 1 , 2 , 3 ) )", "v( h( 1 , x ) , z( ) , g( 2 ) , k )", "z( ) - z( )",
    "( ( x ) - ( y ) ) ^ 2", "x ^ - y ^ 2 !", "2 x ^ 3 - 4 y / ( q ) w", "- ( - x ! ) ! % 3", "x + y - 2 * q / w % 5 ^ r", "k ( 2 ) ( 3 ) x", "1.5 g( .5 ) h( 2. , 1e1 )",
    "v( ( 1 ) , ( x + 2 ) , - 3 , y ! )", "sin( x ) ^ 2 + cos( x ) ^ 2", "max( 1 , 2 , 3 , 4 ) - min( x , y )", "1 2 x", "v( v( 1 , 2 , 3 , 4 ) , v( 1 , 2 , 3 , x ) , 5 , 6 )",
    "( x , y )", "v( )", "g( g( g( x ) ) )", "- 2 ^ - 2 ! ! - - x",
];

/// Every text that is `times` edits away from one of the texts: a token inserted, removed, replaced,
/// or exchanged with the next.
pub fn edits(rt: &mut Rt, sub: &'static str, bases: &[&str], toks: &[&str], times: usize) {
    fn go<'a>(rt: &mut Rt, sub: &'static str, b: &[&'a str], toks: &[&'a str], left: usize, top: bool) {
        if rt.stop() {
            return;
        }
        if left == 0 {
            return rt.case(sub, &b.concat());
        }
        let next = |rt: &mut Rt, e: Vec<&'a str>| {
            if !top || rt.mine() {
                go(rt, sub, &e, toks, left - 1, false);
            }
        };
        for i in 0..=b.len() {
            for t in toks {
                let mut e = b.to_vec();
                e.insert(i, t);
                next(rt, e);
                if i < b.len() && b[i] != *t {
                    let mut e = b.to_vec();
                    e[i] = t;
                    next(rt, e);
                }
            }
            if i < b.len() {
                let mut e = b.to_vec();
                e.remove(i);
                next(rt, e);
            }
            if i + 1 < b.len() && b[i] != b[i + 1] {
                let mut e = b.to_vec();
                e.swap(i, i + 1);
                next(rt, e);
            }
        }
    }
    for b in bases {
        let b: Vec<&str> = b.split(' ').collect();
        go(rt, sub, &b, toks, times, true);
    }
}

/// All strings over `alphabet` of length 0..=max, wrapped by prefix and suffix.
pub fn all_strings(rt: &mut Rt, sub: &'static str, alphabet: &[&str], max: usize, prefix: &str, suffix: &str) {
    fn go(rt: &mut Rt, sub: &'static str, al: &[&str], left: usize, text: &mut String, suffix: &str, depth: usize) {
        if rt.stop() {
            return;
        }
        if depth == 2 && !rt.mine() {
            return;
        }
        if depth >= 2 || rt.shard == 0 {
            let l = text.len();
            text.push_str(suffix);
            rt.case(sub, text);
            text.truncate(l);
        }
        if left == 0 {
            return;
        }
        for a in al {
            let l = text.len();
            text.push_str(a);
            go(rt, sub, al, left - 1, text, suffix, depth + 1);
            text.truncate(l);
        }
    }
    let mut t = String::from(prefix);
    go(rt, sub, alphabet, max, &mut t, suffix, 0);
}

/// Operators of the tree enumeration, as templates with `@` for operands.
pub struct Trees {
    pub leaves: Vec<String>,
    pub unary: Vec<(String, String)>,
    pub binary: Vec<(String, String, String)>,
}

impl Trees {
    pub fn new(leaves: &[&str], unary: &[&str], binary: &[&str]) -> Self {
        let sp = |s: &str| s.split('@').map(str::to_owned).collect::<Vec<_>>();
        Self {
            leaves: leaves.iter().map(|s| (*s).to_owned()).collect(),
            unary: unary.iter().map(|s| { let v = sp(s); (v[0].clone(), v[1].clone()) }).collect(),
            binary: binary.iter().map(|s| { let v = sp(s); (v[0].clone(), v[1].clone(), v[2].clone()) }).collect(),
        }
    }

    /// All trees with exactly `n` internal nodes, in a list.
    pub fn list(&self, n: usize) -> Vec<String> {
        let mut out = Vec::new();
        self.each(n, &mut |s| {
            out.push(s.to_owned());
            true
        });
        out
    }

    /// Calls `f` on every tree with exactly `n` internal nodes; stops when it returns false.
    pub fn each(&self, n: usize, f: &mut dyn FnMut(&str) -> bool) {
        if n == 0 {
            for l in &self.leaves {
                if !f(l) {
                    return;
                }
            }
            return;
        }
        let smaller: Vec<Vec<String>> = (0..n).map(|k| self.list(k)).collect();
        let mut buf = String::new();
        for (a, b) in &self.unary {
            for s in &smaller[n - 1] {
                buf.clear();
                buf.push_str(a);
                buf.push_str(s);
                buf.push_str(b);
                if !f(&buf) {
                    return;
                }
            }
        }
        for (a, b, c) in &self.binary {
            for k in 0..n {
                for l in &smaller[k] {
                    for r in &smaller[n - 1 - k] {
                        buf.clear();
                        buf.push_str(a);
                        buf.push_str(l);
                        buf.push_str(b);
                        buf.push_str(r);
                        buf.push_str(c);
                        if !f(&buf) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

pub const BIN_OPS: [&str; 6] = ["(@+@)", "(@-@)", "(@*@)", "(@/@)", "(@%@)", "(@^@)"];

/// Every combination of values for the variables.
pub fn for_each_env<'a>(vars: &[&'a str], grid: &[f64], f: &mut dyn FnMut(&Env<'a>) -> Outcome) -> Outcome {
    let mut idx = vec![0usize; vars.len()];
    let mut env: Env<'a> = HashMap::new();
    loop {
        for (v, &i) in vars.iter().zip(&idx) {
            env.insert(v, grid[i]);
        }
        f(&env)?;
        let mut p = 0;
        loop {
            if p == idx.len() {
                return Ok(());
            }
            idx[p] += 1;
            if idx[p] < grid.len() {
                break;
            }
            idx[p] = 0;
            p += 1;
        }
    }
}

/// All permutations of 0..n, in lexicographic order.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<usize> = (0..n).collect();
    loop {
        out.push(cur.clone());
        let Some(i) = (1..n).rev().find(|&i| cur[i - 1] < cur[i]) else { return out };
        let j = (i..n).rev().find(|&j| cur[j] > cur[i - 1]).unwrap();
        cur.swap(i - 1, j);
        cur[i..].reverse();
    }
}

pub fn err_span(e: &xprs::ParseError) -> Option<(usize, usize)> {
    use miette::Diagnostic;
    let l: Vec<_> = e.labels()?.collect();
    if l.len() != 1 {
        return None;
    }
    Some((l[0].offset(), l[0].len()))
}

pub fn model_err<'a>(r: &'a Result<Ast, MErr>) -> Option<&'a MErr> {
    r.as_ref().err()
}

/// Lets a bound function whose type lost `Send` or `Sync` be used in one thread all the same: whether
/// it may be shared is C17's business.
pub struct Share<F>(F);

// SAFETY: used by the thread that makes it only
unsafe impl<F> Send for Share<F> {}
// SAFETY: same
unsafe impl<F> Sync for Share<F> {}

impl<F> Share<F> {
    pub fn new(f: F) -> Self {
        Self(f)
    }

    pub fn get(&self) -> &F {
        &self.0
    }
}

/// The constants written in the code under test (see dictionary.py): lists of integers, numbers and words.
fn dict() -> &'static [String] {
    static D: OnceLock<Vec<String>> = OnceLock::new();
    D.get_or_init(|| std::env::var("XPRS_MC_DICT").unwrap_or_default().split(';').map(str::to_owned).collect())
}

fn dict_part(k: usize) -> impl Iterator<Item = &'static str> {
    dict().get(k).map_or("", String::as_str).split(',').filter(|s| !s.is_empty())
}

/// Lengths and counts around every integer of the code beyond those every enumeration has anyway.
pub fn magic(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = dict_part(0).filter_map(|s| s.parse().ok()).filter(|&n| n >= 10).flat_map(|n: usize| (n - 2..=n + 2).chain(2 * n - 1..=2 * n + 1)).filter(|&n| n <= max).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Numbers of the code that aren't negative.
pub fn dict_floats() -> impl Iterator<Item = f64> {
    dict_part(1).filter_map(|s| s.parse().ok())
}

/// Words of the code that could be names, but aren't names of built-ins.
pub fn dict_names() -> impl Iterator<Item = &'static str> {
    dict_part(2).filter(|s| !model::builtins().contains_key(*s))
}

/// Those numbers, and some beside each.
pub fn numbers_near() -> impl Iterator<Item = f64> {
    dict_floats().flat_map(|x| [x, f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits().saturating_sub(1)), x + 1.0, (x - 1.0).abs(), x + 0.5]).filter(|x| x.is_finite())
}
