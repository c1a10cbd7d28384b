//! Reference model: an explicit pushdown machine for the grammar and a plain evaluator.
//! It is written from the documentation and the property statements, without recursion descent,
//! so that it shares no structure with the code it judges.
use crate::rt::{Fnv, Stats};
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, OnceLock};

pub type Env<'a> = HashMap<&'a str, f64>;

#[derive(Clone)]
pub struct MFun {
    pub name: String,
    pub arity: Option<u8>,
    pub f: Arc<dyn Fn(&[f64]) -> f64 + Send + Sync>,
}

#[derive(Clone)]
pub enum MSym {
    Const(f64),
    Fun(MFun),
}

#[derive(Clone, Default)]
pub struct MCtx {
    pub syms: HashMap<String, MSym>,
    pub expected: Option<BTreeSet<String>>,
}

impl MCtx {
    pub fn with_const(mut self, n: &str, v: f64) -> Self {
        self.syms.insert(n.to_owned(), MSym::Const(v));
        self
    }
    pub fn with_fun(mut self, n: &str, arity: Option<u8>, f: impl Fn(&[f64]) -> f64 + Send + Sync + 'static) -> Self {
        self.syms.insert(n.to_owned(), MSym::Fun(MFun { name: n.to_owned(), arity, f: Arc::new(f) }));
        self
    }
    pub fn lookup(&self, name: &str) -> Option<MSym> {
        self.syms.get(name).cloned().or_else(|| builtin(name))
    }
}

#[derive(Clone)]
pub enum Ast {
    Num(f64),
    Var(String),
    Un(u8, Box<Ast>),
    Bin(u8, Box<Ast>, Box<Ast>),
    Call(MFun, Vec<Ast>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    End,
    Unexpected(char),
    Malformed(String),
    Illegal(char),
    Expected(char),
    TooFew(u8, usize),
    TooMany(u8, usize),
    MissingArg,
    NotDeclared(Vec<String>),
}

impl Kind {
    /// The message the documentation of the error kinds promises.
    pub fn message(&self) -> String {
        match self {
            Kind::End => "Unexpected end of expression".into(),
            Kind::Unexpected(c) => format!("Unexpected token: `{c}`"),
            Kind::Malformed(s) => format!("Malformed number: `{s}`"),
            Kind::Illegal(c) => format!("Illegal character: `{c}`"),
            Kind::Expected(c) => format!("Expected token: `{c}`"),
            Kind::TooFew(e, g) => format!("Too few arguments for function call, expected {e} got {g}"),
            Kind::TooMany(e, g) => format!("Too many arguments for function call, expected {e} got {g}"),
            Kind::MissingArg => "Missing argument for function call".into(),
            Kind::NotDeclared(v) => format!("Variable not previously declared: `{}`", v[0]),
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Kind::End => "err:end",
            Kind::Unexpected(_) => "err:unexpected",
            Kind::Malformed(_) => "err:malformed",
            Kind::Illegal(_) => "err:illegal",
            Kind::Expected(_) => "err:expected",
            Kind::TooFew(..) => "err:toofew",
            Kind::TooMany(..) => "err:toomany",
            Kind::MissingArg => "err:missingarg",
            Kind::NotDeclared(_) => "err:notdeclared",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MErr {
    pub kind: Kind,
    pub off: usize,
    pub len: usize,
    /// Position reached when the text was found wrong.
    pub at: usize,
}

enum Frame {
    Paren,
    Call { fun: MFun, args: Vec<Ast>, start: usize },
    Un(u8),
    Bin(u8, u8, Ast),
}

pub const PREC_UNARY: u8 = 3;

pub fn pej() -> bool {
    cfg!(feature = "pejmdas")
}

pub fn opt() -> bool {
    cfg!(feature = "opt")
}

fn prec(op: u8) -> Option<u8> {
    match op {
        b'+' | b'-' => Some(1),
        b'*' | b'/' | b'%' => Some(2),
        b'^' => Some(4),
        _ => None,
    }
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)
}
pub fn is_ident_start(b: u8) -> bool {
    b.is_ascii_alphabetic()
}
pub fn is_ident(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'\''
}

/// End of the number literal starting at `i`.
pub fn number_end(t: &[u8], i: usize) -> usize {
    let at = |k: usize| t.get(k).copied().unwrap_or(0);
    let mut j = i;
    while at(j).is_ascii_digit() || at(j) == b'.' || at(j) == b'_' {
        j += 1;
    }
    if at(j) == b'e' || at(j) == b'E' {
        let k = if at(j + 1) == b'+' || at(j + 1) == b'-' { j + 2 } else { j + 1 };
        if at(k).is_ascii_digit() {
            j = k;
            while at(j).is_ascii_digit() {
                j += 1;
            }
        }
    }
    j
}

/// Value of a number literal, None when malformed.
pub fn number_value(lit: &str) -> Option<f64> {
    let mantissa_end = lit.find(['e', 'E']).unwrap_or(lit.len());
    let m = &lit[..mantissa_end];
    if m.bytes().filter(|&b| b == b'.').count() > 1 || !m.bytes().any(|b| b.is_ascii_digit()) {
        return None;
    }
    let clean: String = lit.chars().filter(|&c| c != '_').collect();
    Some(clean.parse::<f64>().expect("model: a valid literal"))
}

/// The reference parser.
pub fn parse(text: &str, ctx: &MCtx) -> Result<Ast, MErr> {
    parse_observed(text, ctx, None)
}

pub fn parse_observed(text: &str, ctx: &MCtx, mut stats: Option<&mut Stats>) -> Result<Ast, MErr> {
    let t = text.as_bytes();
    let mut stack: Vec<Frame> = Vec::new();
    let mut i = 0usize;
    let mut value: Option<Ast> = None; // operand just completed: operator mode
    let mut after_number = false;
    let err = |kind, off, len, at| Err(MErr { kind, off, len, at });
    let calls = |stack: &[Frame]| stack.iter().filter(|f| matches!(f, Frame::Call { .. })).count();
    loop {
        while i < t.len() && is_ws(t[i]) {
            i += 1;
        }
        if let Some(st) = stats.as_deref_mut() {
            // the configuration of the machine, without the values it carries
            let mut h = Fnv::new();
            h.byte(u8::from(value.is_some()));
            h.byte(u8::from(after_number));
            for f in &stack {
                match f {
                    Frame::Paren => h.byte(b'('),
                    Frame::Call { fun, args, .. } => {
                        h.byte(b'f');
                        h.byte(fun.arity.map_or(255, |a| a));
                        h.u64(args.len() as u64);
                    }
                    Frame::Un(op) => {
                        h.byte(b'u');
                        h.byte(*op);
                    }
                    Frame::Bin(op, p, _) => {
                        h.byte(b'b');
                        h.byte(*op);
                        h.byte(*p);
                    }
                }
            }
            st.state(h.0);
            st.inc("model_steps");
        }
        let c = t.get(i).copied();
        let chr = || text[i..].chars().next().unwrap();
        let Some(v) = value.take() else {
            // operand mode
            match c {
                None => return err(Kind::End, t.len().max(1) - 1, 0, i),
                Some(b'0'..=b'9' | b'.') => {
                    let j = number_end(t, i);
                    let lit = &text[i..j];
                    match number_value(lit) {
                        None => return err(Kind::Malformed(lit.to_owned()), i, j - i, j),
                        Some(x) => value = Some(Ast::Num(x)),
                    }
                    i = j;
                    after_number = true;
                }
                Some(b) if is_ident_start(b) => {
                    let start = i;
                    while i < t.len() && is_ident(t[i]) {
                        i += 1;
                    }
                    let name = &text[start..i];
                    match ctx.lookup(name) {
                        None => value = Some(Ast::Var(name.to_owned())),
                        Some(MSym::Const(x)) => value = Some(Ast::Num(x)),
                        Some(MSym::Fun(fun)) => {
                            while i < t.len() && is_ws(t[i]) {
                                i += 1;
                            }
                            if t.get(i) != Some(&b'(') {
                                return err(Kind::Expected('('), i, 0, i);
                            }
                            i += 1;
                            let mut k = i;
                            while k < t.len() && is_ws(t[k]) {
                                k += 1;
                            }
                            if t.get(k) == Some(&b')') {
                                i = k + 1;
                                check_arity(&fun, 0, start, i)?;
                                value = Some(Ast::Call(fun, Vec::new()));
                            } else {
                                stack.push(Frame::Call { fun, args: Vec::new(), start });
                            }
                        }
                    }
                    after_number = false;
                }
                Some(op @ (b'+' | b'-')) => {
                    stack.push(Frame::Un(op));
                    i += 1;
                }
                Some(b'(') => {
                    stack.push(Frame::Paren);
                    i += 1;
                }
                Some(b')') => {
                    return if calls(&stack) > 0 {
                        err(Kind::MissingArg, i - 1, 2, i)
                    } else {
                        err(Kind::Unexpected(')'), i, 0, i)
                    }
                }
                Some(_) => return err(Kind::Illegal(chr()), i, 0, i),
            }
            continue;
        };
        // operator mode
        let mut v = v;
        if c == Some(b'!') {
            value = Some(Ast::Un(b'!', Box::new(v)));
            i += 1;
            after_number = false;
            continue;
        }
        let binary = match c {
            Some(b) if prec(b).is_some() => Some((b, prec(b).unwrap(), 1)),
            Some(b) if is_ident_start(b) || b == b'(' => Some((b'*', if pej() { 3 } else { 2 }, 0)),
            Some(b) if b.is_ascii_digit() && !after_number => Some((b'*', if pej() { 3 } else { 2 }, 0)),
            _ => None,
        };
        let bound = binary.map_or(0, |(_, p, _)| p);
        // reduce everything that binds at least as tightly
        loop {
            match stack.last() {
                Some(Frame::Un(_)) if PREC_UNARY >= bound => {
                    let Some(Frame::Un(op)) = stack.pop() else { unreachable!() };
                    v = Ast::Un(op, Box::new(v));
                }
                Some(Frame::Bin(_, p, _)) if *p >= bound => {
                    let Some(Frame::Bin(op, _, l)) = stack.pop() else { unreachable!() };
                    v = Ast::Bin(op, Box::new(l), Box::new(v));
                }
                _ => break,
            }
        }
        if let Some((op, p, width)) = binary {
            stack.push(Frame::Bin(op, p, v));
            i += width;
            continue;
        }
        match stack.last_mut() {
            None => match c {
                None => return Ok(v),
                Some(_) => return err(Kind::Unexpected(chr()), i, 0, i),
            },
            Some(Frame::Paren) => {
                if c != Some(b')') {
                    return err(Kind::Expected(')'), i, 0, i);
                }
                stack.pop();
                i += 1;
                after_number = false;
                value = Some(v);
            }
            Some(Frame::Call { args, .. }) => match c {
                Some(b',') => {
                    args.push(v);
                    i += 1;
                }
                Some(b')') => {
                    let Some(Frame::Call { fun, mut args, start }) = stack.pop() else { unreachable!() };
                    args.push(v);
                    i += 1;
                    check_arity(&fun, args.len(), start, i)?;
                    after_number = false;
                    value = Some(Ast::Call(fun, args));
                }
                None => return err(Kind::End, t.len() - 1, 0, i),
                Some(_) => {
                    return if calls(&stack) > 1 {
                        err(Kind::MissingArg, i - 1, 1 + chr().len_utf8(), i)
                    } else {
                        err(Kind::Unexpected(chr()), i, 0, i)
                    }
                }
            },
            Some(_) => unreachable!(),
        }
    }
}

fn check_arity(fun: &MFun, got: usize, start: usize, end: usize) -> Result<(), MErr> {
    let Some(n) = fun.arity else { return Ok(()) };
    let e = |kind| Err(MErr { kind, off: start, len: end - start, at: end });
    match got.cmp(&usize::from(n)) {
        std::cmp::Ordering::Equal => Ok(()),
        std::cmp::Ordering::Less => e(Kind::TooFew(n, got)),
        std::cmp::Ordering::Greater => e(Kind::TooMany(n, got)),
    }
}

/// Whether some continuation of the rejected text could be accepted (the machine ran out of text).
pub fn viable(text: &str, e: &MErr) -> bool {
    match e.kind {
        Kind::End => true,
        Kind::Malformed(_) | Kind::Expected(_) => e.at >= text.len(),
        _ => false,
    }
}

/// Values seen while evaluating.
#[derive(Clone, Copy, Debug)]
pub struct Seen {
    /// every operand and result of a binary operator is finite, and no zero given to a function gave a value that isn't
    pub finite: bool,
    /// a zero was given to a function that can tell +0 from -0 without becoming infinite
    pub zero_sign: bool,
}

impl Ast {
    pub fn eval(&self, env: &Env) -> Option<f64> {
        let mut s = Seen { finite: true, zero_sign: false };
        self.eval_seen(env, &mut s)
    }

    pub fn eval_seen(&self, env: &Env, seen: &mut Seen) -> Option<f64> {
        let r = match self {
            Ast::Num(x) => *x,
            Ast::Var(v) => *env.get(v.as_str())?,
            Ast::Un(op, a) => {
                let a = a.eval_seen(env, seen)?;
                match op {
                    b'+' => a,
                    b'-' => -a,
                    _ => factorial(a),
                }
            }
            Ast::Bin(op, a, b) => {
                let a = a.eval_seen(env, seen)?;
                let b = b.eval_seen(env, seen)?;
                let r = bin(*op, a, b);
                // the identities of the optimiser hold for finite numbers
                seen.finite &= a.is_finite() && b.is_finite() && r.is_finite();
                r
            }
            Ast::Call(f, args) => {
                let mut v = Vec::with_capacity(args.len());
                for a in args {
                    v.push(a.eval_seen(env, seen)?);
                }
                if f.name == "atan2" && v.contains(&0.0) {
                    seen.zero_sign = true;
                }
                let r = (f.f)(&v);
                seen.finite &= r.is_finite() || !v.contains(&0.0);
                r
            }
        };
        Some(r)
    }

    pub fn vars<'a>(&'a self, out: &mut BTreeSet<&'a str>) {
        match self {
            Ast::Num(_) => {}
            Ast::Var(v) => {
                out.insert(v);
            }
            Ast::Un(_, a) => a.vars(out),
            Ast::Bin(_, a, b) => {
                a.vars(out);
                b.vars(out);
            }
            Ast::Call(_, args) => args.iter().for_each(|a| a.vars(out)),
        }
    }

    pub fn var_set(&self) -> BTreeSet<&str> {
        let mut s = BTreeSet::new();
        self.vars(&mut s);
        s
    }

    /// Number of calls of functions.
    pub fn calls(&self) -> usize {
        match self {
            Ast::Num(_) | Ast::Var(_) => 0,
            Ast::Un(_, a) => a.calls(),
            Ast::Bin(_, a, b) => a.calls() + b.calls(),
            Ast::Call(_, args) => 1 + args.iter().map(Ast::calls).sum::<usize>(),
        }
    }

    pub fn all_finite_consts(&self) -> bool {
        match self {
            Ast::Num(x) => x.is_finite(),
            Ast::Var(_) => true,
            Ast::Un(_, a) => a.all_finite_consts(),
            Ast::Bin(_, a, b) => a.all_finite_consts() && b.all_finite_consts(),
            Ast::Call(_, args) => args.iter().all(Ast::all_finite_consts),
        }
    }
}

#[inline(never)]
pub fn bin(op: u8, a: f64, b: f64) -> f64 {
    match op {
        b'+' => a + b,
        b'-' => a - b,
        b'*' => a * b,
        b'/' => a / b,
        b'%' => a % b,
        _ => a.powf(b),
    }
}

/// Factorial as f64. Above 22! it isn't exactly representable: the table of the implementation is
/// taken (C13 compares that table with the exact integers).
pub fn factorial(x: f64) -> f64 {
    if x.is_nan() || x < 0.0 || (x.is_finite() && x.fract() != 0.0) {
        return f64::NAN;
    }
    if x > 170.0 {
        return f64::INFINITY;
    }
    let n = x as usize;
    if n <= 22 {
        return (1..=n).map(|k| k as f64).product();
    }
    static TABLE: OnceLock<Vec<f64>> = OnceLock::new();
    TABLE.get_or_init(|| {
        (0..=170)
            .map(|k| {
                let text = format!("{k}!");
                xprs::Parser::default().parse(&text).ok().and_then(|x| x.eval_no_vars().ok()).unwrap_or(f64::NAN)
            })
            .collect()
    })[n]
}

extern "C" {
    fn tgamma(x: f64) -> f64;
}

pub type F1 = fn(f64) -> f64;
pub const UNARY: [(&str, F1); 25] = [
    ("sin", f64::sin),
    ("sinh", f64::sinh),
    ("asin", f64::asin),
    ("asinh", f64::asinh),
    ("cos", f64::cos),
    ("cosh", f64::cosh),
    ("acos", f64::acos),
    ("acosh", f64::acosh),
    ("tan", f64::tan),
    ("tanh", f64::tanh),
    ("atan", f64::atan),
    ("atanh", f64::atanh),
    ("ln", f64::ln),
    ("log", f64::log10),
    ("sqrt", f64::sqrt),
    ("cbrt", f64::cbrt),
    ("exp", f64::exp),
    ("abs", f64::abs),
    ("floor", f64::floor),
    ("ceil", f64::ceil),
    ("round", f64::round),
    ("trunc", f64::trunc),
    ("fract", f64::fract),
    ("recip", f64::recip),
    ("invert", f64::recip),
];

pub fn gamma(x: f64) -> f64 {
    unsafe { tgamma(x) }
}

pub fn builtins() -> &'static HashMap<String, MSym> {
    static B: OnceLock<HashMap<String, MSym>> = OnceLock::new();
    B.get_or_init(|| {
        let mut c = MCtx::default()
            .with_const("pi", 3.141_592_653_589_793)
            .with_const("e", 2.718_281_828_459_045);
        for (n, f) in UNARY {
            c = c.with_fun(n, Some(1), move |a| f(a[0]));
        }
        c = c
            .with_fun("factorial", Some(1), |a| factorial(a[0]))
            .with_fun("gamma", Some(1), |a| gamma(a[0]))
            .with_fun("atan2", Some(2), |a| a[0].atan2(a[1]))
            .with_fun("logn", Some(2), |a| a[0].log(a[1]))
            .with_fun("hypot", Some(2), |a| a[0].hypot(a[1]))
            .with_fun("min", None, |a| a.iter().fold(f64::INFINITY, |x, &y| x.min(y)))
            .with_fun("max", None, |a| a.iter().fold(f64::NEG_INFINITY, |x, &y| x.max(y)))
            .with_fun("sum", None, |a| a.iter().sum())
            .with_fun("mean", None, |a| a.iter().sum::<f64>() / a.len() as f64);
        c.syms
    })
}

pub fn builtin(name: &str) -> Option<MSym> {
    builtins().get(name).cloned()
}

/// Same number: same bits, or both NaN.
#[inline]
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Same number, +0 and -0 identified.
#[inline]
pub fn same0(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
