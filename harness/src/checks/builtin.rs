//! C13: what the built-in names denote.
use crate::model::{self, same, same0, MSym, UNARY};
use crate::rt::{Fnv, Outcome, Rt, Stats};
use crate::util::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use xprs::{Context, Parser};

fn grid() -> &'static Vec<f64> {
    static G: OnceLock<Vec<f64>> = OnceLock::new();
    G.get_or_init(|| {
        let mut v = vec![];
        for m in [1.0, 1.0000000000000002, 1.25, 1.5, 1.75, 1.9999999999999998] {
            for e in [-1074, -1073, -1050, -1023, -1022, -1021, -600, -300, -100, -60, -54, -53, -52, -30, -27, -20, -10, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 31, 32, 51, 52, 53, 54, 62, 63, 64, 100, 300, 511, 512, 600, 1000, 1022, 1023] {
                v.push(m * 2f64.powi(e / 2) * 2f64.powi(e - e / 2));
            }
        }
        for k in 0..64 {
            v.extend([f64::from(k), f64::from(k) + 0.5, f64::from(k) / 10.0, f64::from(k) * std::f64::consts::FRAC_PI_4, f64::from(k) * std::f64::consts::FRAC_PI_6]);
        }
        for x in [100.0, 170.0, 170.5, 171.0, 171.7, 709.0, 709.78, 709.79, 710.0, 710.4758600739439, 745.13, 745.14, 746.0, 1e5, 1e15, 4503599627370495.5, 1e16, 1e22, 1e100, 1e300, 1.0e-5, 1e-10, 1e-300] {
            v.push(x);
        }
        for x in [f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, std::f64::consts::E, 0.49999999999999994, 0.9999999999999999, 1.0000000000000002] {
            v.push(x);
        }
        v.extend(numbers_near());
        let mut w: Vec<f64> = v.iter().flat_map(|&x| [x, -x]).collect();
        w.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
        w.sort_by(f64::total_cmp);
        w.dedup_by(|a, b| a.to_bits() == b.to_bits());
        w
    })
}

/// A text for a number: a literal, its negation, or a name of the context.
fn literal(v: f64) -> String {
    if v.is_nan() {
        "nn".into()
    } else if v == f64::INFINITY {
        "ii".into()
    } else if v == f64::NEG_INFINITY {
        "-ii".into()
    } else if v.is_sign_negative() {
        format!("-{:?}", -v)
    } else {
        format!("{v:?}")
    }
}

fn parser() -> &'static Parser<'static> {
    static P: OnceLock<Parser<'static>> = OnceLock::new();
    P.get_or_init(|| Parser::new_with_ctx(Context::default().with_var("nn", f64::NAN).with_var("ii", f64::INFINITY)))
}

/// `text` over a0.. gives `want`, with the arguments as variables, constants and mixed.
fn routes(name: &str, args: &[f64], want: f64, loose: bool, stats: &mut Stats) -> Outcome {
    const N: [&str; 6] = ["p0", "p1", "p2", "p3", "p4", "p5"];
    let p = parser();
    let ok = |v: f64| same(v, want) || loose && same0(v, want);
    let env: HashMap<&str, f64> = N.iter().copied().zip(args.iter().copied()).collect();
    let full = (1u32 << args.len()) - 1;
    let masks: Vec<u32> = if args.len() <= 2 { (0..=full).collect() } else { vec![0, full, 1, full ^ 1] };
    for mask in masks {
        let a: Vec<String> = args.iter().enumerate().map(|(i, &v)| if mask >> i & 1 == 1 { literal(v) } else { N[i].to_owned() }).collect();
        let t = format!("{name}({})", a.join(","));
        let x = p.parse(&t).map_err(|e| format!("{t}: {e}"))?;
        stats.inc("values");
        let v = x.eval(&env).map_err(|e| format!("{t}: {e}"))?;
        if !ok(v) {
            return Err(format!("{t} with {args:?} gives {v:?}, expected {want:?}"));
        }
        if mask != 0 {
            continue;
        }
        // arguments given before evaluation: the first, the last, all of them
        let n = args.len();
        let cuts: &[usize] = if n == 0 { &[] } else if n == 1 { &[1] } else { &[1, n, n + 1] };
        for &c in cuts {
            let some = if c == n + 1 { n - 1..n } else { 0..c };
            let vars: Vec<(&str, f64)> = some.map(|i| (N[i], args[i])).collect();
            let y = if let [v] = vars[..] { x.clone().simplify_for(v) } else { x.clone().simplify_for_multiple(&vars) };
            stats.inc("values");
            let v = y.eval(&env).map_err(|e| format!("{t} with {vars:?} given: {e}"))?;
            if !ok(v) {
                return Err(format!("{t} with {vars:?} given, of {args:?}, gives {v:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

/// n! as the nearest f64, by exact arithmetic.
pub fn exact_factorial(n: u32) -> f64 {
    // little-endian limbs
    let mut b: Vec<u32> = vec![1];
    for k in 2..=n {
        let mut carry = 0u64;
        for l in b.iter_mut() {
            let x = u64::from(*l) * u64::from(k) + carry;
            *l = x as u32;
            carry = x >> 32;
        }
        if carry > 0 {
            b.push(carry as u32);
        }
    }
    let bits = b.len() * 32 - b[b.len() - 1].leading_zeros() as usize;
    let bit = |i: usize| (b[i / 32] >> (i % 32)) & 1;
    let keep = bits.min(53);
    let mut m = 0u64;
    for i in 0..keep {
        m = m << 1 | u64::from(bit(bits - 1 - i));
    }
    let rest = bits - keep;
    if rest > 0 {
        let half = bit(rest - 1) == 1;
        let more = (0..rest - 1).any(|i| bit(i) == 1);
        if half && (more || m & 1 == 1) {
            m += 1;
        }
    }
    (m as f64) * 2f64.powi(rest as i32)
}

fn factorial_case(x: f64, stats: &mut Stats) -> Outcome {
    let judge = |v: f64, t: &str| -> Outcome {
        let ok = if x.is_nan() || x < 0.0 || (x.is_finite() && x.fract() != 0.0) {
            v.is_nan()
        } else if x > 170.0 {
            v == f64::INFINITY
        } else {
            let w = exact_factorial(x as u32);
            (v - w).abs() <= 1e-14 * w
        };
        if ok { Ok(()) } else { Err(format!("{t} with {x:?} gives {v:?}")) }
    };
    let p = parser();
    let l = literal(x);
    for t in ["x!".to_owned(), "factorial(x)".to_owned(), format!("factorial({l})"), format!("({l})!"), "(x)!".to_owned(), "factorial(x*1)".to_owned()] {
        let e = p.parse(&t).map_err(|e| format!("{t}: {e}"))?;
        stats.inc("values");
        let v = e.eval(&HashMap::from([("x", x)])).map_err(|e| e.to_string())?;
        judge(v, &t)?;
        if t.contains('x') {
            let s = e.simplify_for(("x", x));
            judge(s.eval_no_vars().map_err(|e| e.to_string())?, &format!("{t} simplified"))?;
        }
    }
    if l.starts_with(|c: char| c.is_ascii_digit()) {
        let t = format!("{l}!");
        let e = p.parse(&t).map_err(|e| format!("{t}: {e}"))?;
        judge(e.eval_no_vars().map_err(|e| e.to_string())?, &t)?;
    }
    Ok(())
}

fn name_case(name: &str, stats: &mut Stats) -> Outcome {
    let p = &plain_pair().parser;
    let r = p.parse(name);
    match model::builtin(name) {
        None => {
            stats.inc("plain_names");
            let x = r.map_err(|e| format!("{name} is not a variable: {e}"))?;
            if x.vars.len() != 1 || !x.vars.contains(name) {
                return Err(format!("{name} has variables {:?}", x.vars));
            }
            // and called it is a product
            let t = format!("{name}(3)");
            let x = p.parse(&t).map_err(|e| format!("{t}: {e}"))?;
            if x.vars.len() != 1 || x.eval(&HashMap::from([(name, 5.0)])).ok() != Some(15.0) {
                return Err(format!("{t} is not {name} times 3: {x}"));
            }
        }
        Some(MSym::Const(v)) => {
            stats.inc("builtin_names");
            let x = r.map_err(|e| format!("{name}: {e}"))?;
            if !x.vars.is_empty() || x.eval_no_vars().ok().map(f64::to_bits) != Some(v.to_bits()) {
                return Err(format!("{name} is not {v:?}"));
            }
        }
        Some(MSym::Fun(f)) => {
            stats.inc("builtin_names");
            if r.is_ok() {
                return Err(format!("the function {name} is accepted without arguments"));
            }
            // its arity
            for n in 0..=5usize {
                let t = format!("{name}({})", vec!["x"; n].join(","));
                let fits = f.arity.map_or(true, |a| usize::from(a) == n);
                if p.parse(&t).is_ok() != fits {
                    return Err(format!("{t}: accepted {}, expected {fits}", !fits));
                }
            }
        }
    }
    Ok(())
}

fn parse_bits(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let mut h = Fnv::new();
    h.bytes(sub.as_bytes());
    h.bytes(data.as_bytes());
    stats.state(h.0);
    match sub {
        "unary" => {
            let (name, b) = data.split_once(' ').unwrap();
            let x = parse_bits(b);
            let want = match name {
                "gamma" => model::gamma(x),
                _ => UNARY.iter().find(|u| u.0 == name).unwrap().1(x),
            };
            routes(name, &[x], want, false, stats)
        }
        "binary" => {
            let v: Vec<&str> = data.split(' ').collect();
            let (a, b) = (parse_bits(v[1]), parse_bits(v[2]));
            let want = match v[0] {
                "atan2" => a.atan2(b),
                "hypot" => a.hypot(b),
                _ => a.log(b),
            };
            routes(v[0], &[a, b], want, false, stats)
        }
        "list" => {
            let v: Vec<f64> = data.split(' ').filter(|s| !s.is_empty()).map(parse_bits).collect();
            let n = v.len() as f64;
            routes("min", &v, v.iter().fold(f64::INFINITY, |x, &y| x.min(y)), true, stats)?;
            routes("max", &v, v.iter().fold(f64::NEG_INFINITY, |x, &y| x.max(y)), true, stats)?;
            let s: f64 = v.iter().sum();
            routes("sum", &v, s, true, stats)?;
            routes("mean", &v, s / n, true, stats)
        }
        "many" => {
            // count, kind of values: exact, rounding at every step, of very different sizes; one NaN
            let (n, kind) = data.split_once(' ').unwrap();
            let n: usize = n.parse().unwrap();
            let mut vals: Vec<f64> = (0..n).map(|i| ((i * 7919) % 1009) as f64 - 500.25).collect();
            for (i, v) in vals.iter_mut().enumerate() {
                match kind {
                    "exact" => {}
                    "round" => *v = *v / 7.0 + 0.1,
                    "wide" => *v = (*v / 3.0) * 10f64.powi((i * 37 % 41) as i32 - 20),
                    k => {
                        let at: usize = k.parse().unwrap();
                        if i == at {
                            *v = f64::NAN;
                        }
                    }
                }
            }
            let names: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
            let env: HashMap<&str, f64> = names.iter().map(String::as_str).zip(vals.iter().copied()).collect();
            let s: f64 = vals.iter().sum();
            for (f, want) in [("min", vals.iter().fold(f64::INFINITY, |x, &y| x.min(y))), ("max", vals.iter().fold(f64::NEG_INFINITY, |x, &y| x.max(y))), ("sum", s), ("mean", s / n as f64)] {
                let texts = [
                    format!("{f}({})", names.join(",")),
                    format!("{f}({})", vals.iter().map(|&v| literal(v)).collect::<Vec<_>>().join(",")),
                    format!("{f}({})", vals.iter().zip(&names).enumerate().map(|(i, (&v, n))| if i % 3 == 1 { literal(v) } else { n.clone() }).collect::<Vec<_>>().join(",")),
                ];
                for t in texts {
                    stats.inc("values");
                    let v = parser().parse(&t).map_err(|e| e.to_string())?.eval(&env).map_err(|e| e.to_string())?;
                    if !same0(v, want) {
                        return Err(format!("{f} of {n} arguments ({kind}) gives {v:?}, expected {want:?}"));
                    }
                    let given: Vec<(&str, f64)> = names.iter().map(String::as_str).zip(vals.iter().copied()).collect();
                    let parts: &[&[(&str, f64)]] = if n > 600 { &[] } else { &[&given[..n / 2], &given[n / 2..], &given] };
                    for some in parts.iter().copied() {
                        let y = parser().parse(&t).map_err(|e| e.to_string())?.simplify_for_multiple(some);
                        let v = y.eval(&env).map_err(|e| e.to_string())?;
                        if !same0(v, want) {
                            return Err(format!("{f} of {n} arguments ({kind}), {} of them given, gives {v:?}, expected {want:?}", some.len()));
                        }
                    }
                }
            }
            Ok(())
        }
        "factorial" => factorial_case(parse_bits(data), stats),
        _ => name_case(data, stats),
    }
}

pub fn enumerate(rt: &mut Rt) {
    let g = grid();
    for name in UNARY.iter().map(|u| u.0).chain(["gamma"]) {
        for x in g {
            rt.shared_case("unary", &format!("{name} {:016x}", x.to_bits()));
        }
        // all exponents
        for e in 0..2047u64 {
            for m in if rt.quick() { &[0x8_0000_0000_0001u64][..] } else { &[0, 1, 0x5_5555_5555_5555, 0x8_0000_0000_0001, 0xf_ffff_ffff_ffff][..] } {
                for s in [0u64, 1] {
                    rt.shared_case("unary", &format!("{name} {:016x}", s << 63 | e << 52 | m));
                }
            }
        }
    }
    let step = rt.pick(8, 2);
    let mut some: Vec<f64> = g.iter().copied().step_by(step).collect();
    some.extend([0.0, -0.0, 1.0, -1.0, 2.0, 10.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, std::f64::consts::E]);
    for name in ["atan2", "hypot", "logn"] {
        for a in &some {
            for b in &some {
                rt.shared_case("binary", &format!("{name} {:016x} {:016x}", a.to_bits(), b.to_bits()));
            }
        }
    }
    // lists of up to five values
    let vals = [0.0, -0.0, 1.5, -2.25, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 1e-320, 0.1, 3.0];
    let max = rt.pick(4, 5);
    fn lists(rt: &mut Rt, vals: &[f64], left: usize, t: &mut String) {
        if rt.stop() {
            return;
        }
        rt.shared_case("list", t);
        if left == 0 {
            return;
        }
        for v in vals {
            let l = t.len();
            t.push_str(&format!("{:016x} ", v.to_bits()));
            lists(rt, vals, left - 1, t);
            t.truncate(l);
        }
    }
    lists(rt, &vals, max, &mut String::new());
    for n in (0..300usize).chain([512, 1000, 1024, 65_536]).chain(magic(100_000)) {
        for kind in ["exact", "round", "wide"] {
            rt.shared_case("many", &format!("{n} {kind}"));
        }
        for at in [0, 1, n / 2, n.saturating_sub(1)] {
            rt.shared_case("many", &format!("{n} {at}"));
        }
    }
    // factorials
    for x in numbers_near() {
        for y in [x, -x, x.trunc(), x.ceil()] {
            rt.shared_case("factorial", &format!("{:016x}", y.to_bits()));
        }
    }
    for k in -800..=1600 {
        let x = f64::from(k) / 4.0;
        for y in [x, f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits().wrapping_sub(1))] {
            rt.shared_case("factorial", &format!("{:016x}", y.to_bits()));
        }
    }
    for x in g {
        rt.shared_case("factorial", &format!("{:016x}", x.to_bits()));
    }
    for k in 0..64 {
        for d in [-1.0, 0.0, 1.0] {
            for s in [1.0, -1.0] {
                rt.shared_case("factorial", &format!("{:016x}", (s * (2f64.powi(k) + d)).to_bits()));
            }
        }
    }
    // names
    let low: Vec<String> = (b'a'..=b'z').map(|b| char::from(b).to_string()).collect();
    let low: Vec<&str> = low.iter().map(String::as_str).collect();
    all_names(rt, &low, rt.pick(4, 5));
    let any: Vec<String> = (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').chain(*b"_'").map(|b| char::from(b).to_string()).collect();
    let any: Vec<&str> = any.iter().map(String::as_str).collect();
    all_names(rt, &any, 3);
    let word = |rt: &mut Rt, w: &str| {
        if w.bytes().next().is_some_and(|b| b.is_ascii_alphabetic()) {
            rt.shared_case("name", w);
        }
    };
    let mut builtin: Vec<&String> = model::builtins().keys().collect();
    builtin.sort();
    for b in builtin {
        word(rt, b);
        for mask in 1..1u32 << b.len() {
            let s: String = b.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            word(rt, &s);
        }
        // everything one edit away
        for i in 0..=b.len() {
            for c in &any {
                word(rt, &format!("{}{c}{}", &b[..i], &b[i..]));
                if i < b.len() {
                    word(rt, &format!("{}{c}{}", &b[..i], &b[i + 1..]));
                }
            }
            if i < b.len() {
                word(rt, &format!("{}{}", &b[..i], &b[i + 1..]));
            }
            if i + 1 < b.len() {
                word(rt, &format!("{}{}{}{}", &b[..i], &b[i + 1..i + 2], &b[i..=i], &b[i + 2..]));
            }
        }
    }
    for w in [
        "exp2", "exp10", "log2", "log10", "ln1p", "pow", "mod", "sign", "signum", "sgn", "sec", "csc", "cot", "arcsin", "arccos", "arctan", "arsinh", "deg", "rad", "rand", "random", "average", "avg", "median", "variance", "std", "tau", "phi", "inf", "nan",
        "infinity", "NaN", "PI", "Pi", "E", "i", "j", "ans", "root", "nthroot", "lgamma", "beta", "fact", "int", "frac", "floor2", "abs2", "cosinus", "if", "and", "or", "not", "let", "fn", "true", "false", "null", "exit", "quit", "help", "gcd", "lcm", "clamp",
        "sinc", "hypot3", "inv", "inverse", "reciprocal", "product", "prod", "count", "len", "minimum", "maximum", "logb", "log_n", "ceiling", "truncate", "power", "square", "cube", "sqr", "neg", "plus", "minus",
    ] {
        word(rt, w);
    }
    for w in dict_names() {
        word(rt, w);
        word(rt, &w.to_ascii_lowercase());
        word(rt, &w.to_ascii_uppercase());
    }
}

fn all_names(rt: &mut Rt, al: &[&str], max: usize) {
    fn go(rt: &mut Rt, al: &[&str], left: usize, t: &mut String) {
        if rt.stop() {
            return;
        }
        if !t.is_empty() {
            rt.shared_case("name", t);
        }
        if left == 0 {
            return;
        }
        for a in al {
            if t.is_empty() && !a.as_bytes()[0].is_ascii_alphabetic() {
                continue;
            }
            let l = t.len();
            t.push_str(a);
            go(rt, al, left - 1, t);
            t.truncate(l);
        }
    }
    go(rt, al, max, &mut String::new());
}
