//! Every operator and built-in on many values with full mantissas, against many special partners:
//! arithmetic that is replaced by nearly equal arithmetic (`x^0.5` by a square root, `x^-1` by a
//! quotient, `2^x` by `exp2`) differs in the last bit, at few values only.
use super::trees;
use crate::model::{self, same, same0, Env};
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;

/// The `k`-th value: all mantissa bits in use, moderate exponents mostly.
fn value(k: u64) -> f64 {
    let m = (k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 12;
    let e = match k % 64 {
        63 => (k / 64 * 37 % 1000) as i64 - 500,
        i if i % 8 == 7 => (k / 8 * 11 % 120) as i64 - 60,
        i if i % 2 == 1 => 0,
        i => (i % 9) as i64 - 4,
    };
    let v = f64::from_bits(((1023 + e) as u64) << 52 | m);
    if k % 3 == 2 { -v } else { v }
}

const SPECIAL: [f64; 44] = [
    0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 4.0, -4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, -10.0, 16.0, 17.0, 32.0, 64.0, 100.0, 256.0, 1024.0, 0.25, -0.25, 0.125, 0.75, 1.5, -1.5, 2.5, 3.5, 0.1, 0.2,
    0.01, 1.0 / 3.0, 2.0 / 3.0, -1.0 / 3.0, std::f64::consts::E, std::f64::consts::PI, std::f64::consts::SQRT_2, 1e10, 0.0, 1e-10,
];

const SEGMENTS: u64 = 24;

/// Where arithmetic has its corners.
const EDGES: [f64; 30] = [
    0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, -1.0, 5e-324, -5e-324, 1e-310, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e308, -1e308, 9007199254740992.0, 9007199254740993.0, -9007199254740995.0, 4503599627370497.5,
    1e16, 170.0, 171.0, -170.0, 0.49999999999999994, -0.5, 2.0, -3.0, 1e-17, 1.0000000000000002,
];

/// Those, and the numbers written in the code.
fn edge_values() -> &'static [f64] {
    static V: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v = EDGES.to_vec();
        for x in dict_floats() {
            for y in [x, -x, f64::from_bits(x.to_bits() + 1)] {
                if !v.iter().any(|z| z.to_bits() == y.to_bits()) && (y == x || x > 9.0 || x.fract() != 0.0) {
                    v.push(y);
                }
            }
        }
        v
    })
}

/// `#` is the value, `$` its partner.
fn templates() -> Vec<String> {
    let mut t: Vec<String> = ["+", "-", "*", "/", "%", "^"].iter().flat_map(|o| [format!("#{o}$"), format!("${o}#")]).collect();
    t.extend(["#^2", "#^#", "#*#", "#/#", "#%#", "-#", "#!", "-#^$", "#^-$", "1/#^$", "#*#*#", "#^$*#", "#/$*$", "#-$+$", "#+$-#", "$*#/$", "-#%$", "-#*-$", "-#/-$", "#--$"].map(str::to_owned));
    for (f, s) in model::builtins() {
        if let model::MSym::Fun(f_) = s {
            match f_.arity {
                Some(1) => t.extend([format!("{f}(#)"), format!("{f}(-#)"), format!("{f}(#)^2"), format!("{f}($*#)"), format!("{f}(#)*$")]),
                Some(2) => t.extend([format!("{f}(#,$)"), format!("{f}($,#)")]),
                _ => t.extend([format!("{f}(#,$,#)"), format!("{f}($,#)"), format!("{f}(#)")]),
            }
        }
    }
    t
}

pub fn enumerate(rt: &mut Rt) {
    for t in templates() {
        for s in 0..SEGMENTS {
            rt.shared_case("dense-values", &format!("{t}\u{1}{s}\u{1}{}", rt.pick(1, 12)));
        }
        rt.shared_case("dense-values", &format!("{t}\u{1}edges\u{1}1"));
    }
}

fn literal(v: f64) -> String {
    if v.is_sign_negative() { format!("(-{:e})", -v) } else { format!("{v:e}") }
}

pub fn run(check: &str, data: &str, stats: &mut Stats) -> Outcome {
    let mut it = data.split('\u{1}');
    let t = it.next().unwrap();
    let seg = it.next().unwrap();
    let edges = seg == "edges";
    let seg: u64 = seg.parse().unwrap_or(0);
    let times: u64 = it.next().unwrap().parse().unwrap();
    // powers agree nearly always, the others are exact and need few values
    let per = if edges { edge_values().len() as u64 } else { times * if check == "C15" { 4 } else if t.contains('^') { if t.len() == 3 { 160 } else { 24 } } else { 8 } };
    let all: &[f64] = if edges { edge_values() } else { &SPECIAL };
    let partners = if t.contains('$') { all } else { &all[..1] };
    let value = |k: u64| if edges { edge_values()[(k / SEGMENTS) as usize] } else { value(k) };
    let pair = std_pair();
    let text = t.replace('#', "x").replace('$', "y");
    let ast = model::parse(&text, &pair.m).map_err(|e| format!("{e:?}"))?;
    let x = pair.parser.parse(&text).map_err(|e| e.to_string())?;
    let two = t.contains('$');
    for &y in partners {
        if !y.is_finite() && matches!(check, "C06" | "C15") {
            continue;
        }
        // the partner as a literal of the text
        let writable = if y.is_finite() { y } else { 1.0 };
        let fixed = t.replace('#', "x").replace('$', &literal(writable));
        let fixed_ast = model::parse(&fixed, &pair.m).map_err(|e| format!("{e:?}"))?;
        let fixed_x = pair.parser.parse(&fixed).map_err(|e| e.to_string())?;
        for k in 0..per {
            let v = value(k * SEGMENTS + seg);
            if !v.is_finite() && matches!(check, "C06" | "C15") {
                continue;
            }
            let mut env: Env = Env::from([("x", v)]);
            let only_x = env.clone();
            if two {
                env.insert("y", y);
            }
            stats.inc("dense_values");
            let guard = |ast: &model::Ast, env: &Env, what: &str, got: Result<f64, String>| -> Outcome {
                let got = got.map_err(|e| format!("{what}: {e}"))?;
                let want = if model::opt() {
                    match trees::guarded_value(ast, env) {
                        Some(w) => w,
                        None => return Ok(()),
                    }
                } else {
                    ast.eval(env).unwrap()
                };
                if if model::opt() { same0(got, want) } else { same(got, want) } {
                    Ok(())
                } else {
                    Err(format!("{what} gives {got:?}, expected {want:?} with {}", show_env(env)))
                }
            };
            match check {
                "C02" | "C05" => {
                    guard(&ast, &env, "eval", x.eval(&env).map_err(|e| e.to_string()))?;
                    guard(&fixed_ast, &only_x, &format!("eval of {fixed}"), fixed_x.eval(&only_x).map_err(|e| e.to_string()))?;
                }
                "C06" => {
                    let c = t.replace('#', &literal(v)).replace('$', &literal(y));
                    trees::run_c06("constant", &c, stats).map_err(|e| format!("{c}: {e}"))?;
                }
                "C08" => {
                    let a = x.eval(&env).map_err(|e| e.to_string())?;
                    let b = x.eval_unchecked(&env);
                    if !same(a, b) {
                        return Err(format!("eval gives {a:?}, eval_unchecked {b:?} with {}", show_env(&env)));
                    }
                    let a = fixed_x.eval(&only_x).map_err(|e| e.to_string())?;
                    let b = fixed_x.eval_unchecked(&only_x);
                    if !same(a, b) {
                        return Err(format!("{fixed}: eval gives {a:?}, eval_unchecked {b:?} with {}", show_env(&only_x)));
                    }
                }
                "C07" => {
                    let given = [("x", v), ("y", y)];
                    let given = &given[..if two { 2 } else { 1 }];
                    trees::check_simplified(&ast, &x.clone().simplify_for_multiple(given), given, &env, "simplify_for_multiple", stats)?;
                    for g in given {
                        trees::check_simplified(&ast, &x.clone().simplify_for(*g), &[*g], &env, "simplify_for", stats)?;
                    }
                    trees::check_simplified(&fixed_ast, &fixed_x.clone().simplify_for(("x", v)), &[("x", v)], &only_x, "simplify_for of a text with a literal", stats)?;
                }
                "C15" => {
                    let grid = [1.0, v, -v * 1.7];
                    trees::round_trip(&x.clone().simplify_for(("y", y)), pair, &grid, &format!("simplified for y={y:?}"), stats)?;
                    if two {
                        trees::round_trip(&x.clone().simplify_for(("x", v)), pair, &[y, v], &format!("simplified for x={v:?}"), stats)?;
                    }
                }
                _ => return Err(format!("no dense values for {check}")),
            }
        }
    }
    // all names bound, all values in one function
    if check == "C08" {
        let names = if two { vec!["x", "y"] } else { vec!["x"] };
        let calls: Vec<Vec<f64>> = (0..per.min(24)).flat_map(|k| partners.iter().map(move |&y| vec![value(k * SEGMENTS + seg), y])).map(|mut c| {
            c.truncate(names.len());
            c
        }).collect();
        super::api::routes(&x, &names, &calls, stats, Some(&ast))?;
    }
    Ok(())
}
