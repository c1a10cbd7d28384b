//! C01: parsing any text is total, and so is what follows.
use crate::model;
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use xprs::{Context, Function, Parser, Symbol};

fn fsum(a: &[f64]) -> f64 {
    a.iter().sum()
}

/// Parsers with different kinds of contexts.
fn parsers() -> &'static Vec<Parser<'static>> {
    static P: OnceLock<Vec<Parser<'static>>> = OnceLock::new();
    P.get_or_init(|| {
        let odd = Context::default()
            .with_var("x", f64::NAN)
            .with_var("e", f64::NEG_INFINITY)
            .with_var("y", -0.0)
            .with_fn(Function::new_static("g", fsum, None))
            .with_fn(Function::new_static("sin", fsum, Some(255)))
            .with_expected_vars(["a"].into());
        let none = Context::default().with_expected_vars([].into());
        let table: HashMap<&'static str, Symbol> =
            HashMap::from([("x", Symbol::Function(Function::new_static("", fsum, Some(0)))), ("X", Symbol::Variable(1e308))]);
        vec![
            std_pair().parser.clone(),
            Parser::new_with_ctx(odd),
            Parser::new_with_ctx(none),
            Parser::new_with_ctx(Context::default().with_symbols(table)),
        ]
    })
}

fn follow_up(p: &Parser, text: &str, stats: &mut Stats, full: bool, vals: &[f64]) {
    match p.parse(text) {
        Ok(x) => {
            stats.inc("accepted");
            let shown = x.to_string();
            std::hint::black_box(&shown);
            let names: Vec<&str> = x.vars.iter().copied().collect();
            for (i, &v) in vals.iter().enumerate() {
                let env: HashMap<&str, f64> = names.iter().enumerate().map(|(k, &n)| (n, if k % 2 == 0 { v } else { vals[(i + k) % vals.len()] })).collect();
                std::hint::black_box(x.eval(&env).is_ok());
                std::hint::black_box(x.eval_unchecked(&env));
                if i == 0 {
                    std::hint::black_box(x.eval_no_vars().is_ok());
                }
            }
            let c = x.clone();
            std::hint::black_box(c == x);
            if full {
                std::hint::black_box(format!("{x:?}"));
                let all: Vec<(&str, f64)> = names.iter().map(|&n| (n, vals[0])).collect();
                let mut c2 = x.clone();
                for &kv in &all {
                    c2.simplify_for_in_place(kv);
                    std::hint::black_box(c2.to_string());
                }
                std::hint::black_box(c.simplify_for_multiple(&all).eval_no_vars().is_ok());
                if let Ok(f) = x.clone().bind_n_runtime(&names) {
                    std::hint::black_box(f(&vec![vals[0]; names.len()]).is_ok());
                }
                std::hint::black_box(x.bind("x").is_ok());
            }
        }
        Err(e) => {
            let s = e.to_string();
            if let Some((k, _)) = s.split_once(':') {
                std::hint::black_box(k);
            }
            stats.inc("rejected");
            std::hint::black_box(e == e.clone());
            if full {
                std::hint::black_box(format!("{e:?}"));
                std::hint::black_box(format!("{:?}", miette::Report::new(e)));
            }
        }
    }
}

const SPECIAL: [f64; 16] = [
    0.5, 0.0, -0.0, 1.0, -1.0, 2.5, 170.0, 171.0, 1e300, -1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, -3.0,
];

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    match sub {
        // everything, diagnostics rendered
        "chars" | "tokens" | "ascii-full" => {
            for p in parsers() {
                follow_up(p, data, stats, true, &[0.75]);
            }
        }
        "values" => {
            for p in &parsers()[..1] {
                follow_up(p, data, stats, true, &SPECIAL);
                if let Ok(x) = p.parse(data) {
                    for v in SPECIAL {
                        for n in x.vars.clone() {
                            std::hint::black_box(x.clone().simplify_for((n, v)).to_string());
                        }
                    }
                }
            }
        }
        "family" => {
            let text = family_text(data);
            follow_up(&parsers()[0], &text, stats, true, &[0.75]);
            follow_up(&parsers()[1], &text, stats, false, &[0.75]);
        }
        // parsing, printing, evaluating
        _ => {
            follow_up(&parsers()[0], data, stats, false, &[0.75]);
            follow_up(&parsers()[1], data, stats, false, &[0.75]);
        }
    }
    Ok(())
}

/// A text, or `#` and a family.
pub fn expand(data: &str) -> String {
    data.strip_prefix('#').map_or_else(|| data.to_owned(), family_text)
}

/// `prefix|core|suffix|n`: prefix n times, core, suffix n times.
pub fn family_text(data: &str) -> String {
    let v: Vec<&str> = data.split('|').collect();
    let n: usize = v[3].parse().unwrap();
    let m: usize = v.get(4).map_or(n, |s| s.parse().unwrap());
    format!("{}{}{}", v[0].repeat(n), v[1], v[2].repeat(m))
}

/// Nesting: one more stack level (or several) per repetition.
pub const NEST: [&str; 26] = [
    "(|x|)", "-|x|", "+|x|", "g(|x|)", "2*(|x|)", "x^-|x|", "v(1,|x|)", "v(|x|,1)", "(x+|1|)", "h(x,|2|)", "-(|x|)!", "2(|3|)", "x-(|y|)", "(|1|)", "(-|2|)^2", "sin(|x|)", "1/(|x|)", "(x*|x|)",
    "(|x|+x)", "(1-|x|)", "(|)|)", "v(|,|)", "g(|é|)", "min(|x|,x)", "h(|x|,y)", "x(|x|)",
];
/// Length: chains, arguments, long words.
pub const CHAIN: [&str; 34] = [
    "x+|x|", "x-|x|", "x*|x|", "x/|x|", "x%|x|", "x^|x|", "1+|1|", "2^|1|", "x |x|", "2x+|1|", "-x+|x|", "|x|!", "|3|!", "1|2|3", "x|y|z", "_|1|_", "1|1|_", "'|x|'", "|x|'", ".|1|", "1.|1|", " |x| ",
    "\t\n|x|\r\n", "0|.|0", "|1e|9", "|1e-|9", "é|x|", "|x|é", "x,|1|", "(x)|x|", "k|x|", "1 |1|", "x!|x|", "x+1-|x|",
];

pub fn enumerate(rt: &mut Rt) {
    let quick = rt.quick();
    // 1. every string over a wide alphabet
    let wide = [
        "0", "7", ".", "_", "'", "e", "E", "x", "X", "+", "-", "*", "/", "%", "^", "!", "(", ")", ",", " ", "\t", "\n", "\r", "\u{b}", "\u{c}", "é", "€", "😀", "\u{a0}", "\u{85}", "\u{2028}", "\0", "\u{7f}",
        "=", "\"", "\\", "g", "k",
    ];
    all_strings(rt, "chars", &wide, 2, "", "");
    all_strings(rt, "string", &wide, rt.pick(3, 4), "", "");
    for (p, s) in [("g(", ")"), ("2", "3"), ("v(1,", "x)"), ("(x", "+1)"), ("é", ""), ("-", "!"), ("1e", "5"), ("z(", ""), ("x^", "^2"), ("h(x", ",1)")] {
        all_strings(rt, "chars", &wide, rt.pick(2, 3), p, s);
    }
    // 2. every ASCII string
    let ascii: Vec<String> = (0..128u8).map(|b| char::from(b).to_string()).collect();
    let ascii: Vec<&str> = ascii.iter().map(String::as_str).collect();
    all_strings(rt, "string", &ascii, 3, "", "");
    for (p, s) in [("x", ""), ("2", ""), ("(", ")"), ("v(1", ")"), ("1e", "")] {
        all_strings(rt, "string", &ascii, 2, p, s);
    }
    // every character of the basic plane and a sample boundary of the others, at three places
    for c in (0u32..0x3000).chain((0x3000..0x11_0000).step_by(if quick { 1021 } else { 61 })) {
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{c}"), format!("x{c}"), format!("v(1,{c})")] {
                rt.shared_case("ascii-full", &t);
            }
        }
    }
    // 3. token strings
    use Tok::T;
    let toks = [T("x"), T("2"), T("+"), T("-"), T("^"), T("!"), T("("), T(")"), T(","), T("g("), T("v("), T("z("), T("k"), T(" "), T("*"), T("%"), T(".5"), T("/"), T("é")];
    let m = &std_pair().m;
    let d = Dfs { sub: "string", toks: &toks, nums: &NUMS, max: rt.pick(5, 6), ctx: m, apart: false, slack: 1, split: 2 };
    d.run(rt);
    let d = Dfs { sub: "tokens", toks: &toks, nums: &NUMS, max: rt.pick(3, 4), ctx: m, apart: false, slack: 4, split: 2 };
    d.run(rt);
    // few tokens, longer
    let toks = [T("x"), T("2"), T("-"), T("^"), T("!"), T("("), T(")"), T("v("), T(",")];
    let d = Dfs { sub: "string", toks: &toks, nums: &NUMS, max: rt.pick(6, 8), ctx: m, apart: true, slack: 1, split: 3 };
    d.run(rt);
    // literals
    all_strings(rt, "string", &["0", "9", ".", "e", "E", "+", "-", "_", "x"], rt.pick(6, 7), "", "");
    // 4. values reaching every operation
    let t = Trees::new(&["x", "y", "0", "1", "-1", "2.5", "1e308", "k"], &["(-@)", "(+@)", "(@!)", "g(@)", "v(@)", "gamma(@)"], &[BIN_OPS.as_slice(), &["h(@,@)", "atan2(@,@)"]].concat());
    for n in 0..=rt.pick(1, 2) {
        t.each(n, &mut |s| {
            rt.shared_case("values", s);
            !rt.stop()
        });
    }
    for (name, sym) in model::builtins() {
        if let model::MSym::Fun(f) = sym {
            let args = ["x", "y", "x", "y"][..f.arity.map_or(4, usize::from)].join(",");
            rt.shared_case("values", &format!("{name}({args})"));
        }
    }
    // 5. scaled families
    for f in NEST {
        let own = magic(400);
        for n in 0..=400usize {
            if quick && !own.contains(&n) && n > 40 && n % 8 != 0 && !n.is_power_of_two() && n < 395 {
                continue;
            }
            rt.shared_case("family", &format!("{f}|{n}"));
            // one closer missing, one too many
            rt.shared_case("family", &format!("{f}|{n}|{}", n.saturating_sub(1)));
            rt.shared_case("family", &format!("{f}|{n}|{}", n + 1));
            rt.shared_case("family", &format!("{f}|{n}|0"));
        }
    }
    for f in CHAIN {
        let own = magic(100_000);
        for n in (0..=1500usize).chain(own.iter().copied().filter(|&n| n > 1500 && n <= 5000)) {
            let own = own.contains(&n);
            if !own && n > 300 && n % if quick { 100 } else { 7 } != 0 && n < 1498 && ![511, 512, 513, 1022, 1023, 1024, 1025].contains(&n) {
                continue;
            }
            if quick && !own && n > 70 && n % 13 != 0 && !(n + 2).is_power_of_two() && !(n + 1).is_power_of_two() && !n.is_power_of_two() && !(n - 1).is_power_of_two() && n < 1498 {
                continue;
            }
            rt.shared_case("family", &format!("{f}|{n}"));
        }
    }
    // many arguments
    for n in (0..=300usize).chain([511, 512, 1023, 1024, 1025]).chain(magic(5000)) {
        for name in ["v", "g", "z", "min", "sum"] {
            rt.shared_case(if n < 64 || n % 4 == 0 || n > 250 { "chars" } else { "string" }, &format!("{name}({})", vec!["x"; n].join(",")));
        }
        rt.shared_case("family", &format!("v(|x|)|1|{}", n.min(400)));
    }
    // very long words and literals (flat: no stack needed)
    for n in [255usize, 256, 257, 4095, 4096, 65_535, 65_536, 65_537, 100_000].into_iter().chain(magic(200_000)) {
        for f in ["a|x|", "|1|1", "|1|0", "0|1|", "|.|9", "1_|1|", " |x|", "|x| ", "|1|_", "|é|é", "|1e|9", "|1e-|9", "|1.|1"] {
            rt.shared_case("family", &format!("{f}|{n}"));
        }
    }
}
