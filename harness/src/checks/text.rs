//! C02, C03, C04, C21, C22: the language, against the pushdown model.
use crate::model::{self, MCtx};
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;
use std::collections::HashMap;
use Tok::{Num, Var, T};

// ---------------------------------------------------------------- C02

pub fn run_c02(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "dense-values" {
        return super::values::run("C02", data, stats);
    }
    match sub {
        "family" => agree(&super::c01::family_text(data), std_pair(), stats),
        _ => agree(data, std_pair(), stats),
    }
}

pub fn enum_c02(rt: &mut Rt) {
    super::values::enumerate(rt);
    let m = &std_pair().m;
    let all = [Num, Var, T("+"), T("-"), T("*"), T("/"), T("%"), T("^"), T("!"), T("("), T(")"), T("g("), T("h("), T(","), T("K")];
    let d = |sub, toks, nums, max, slack| Dfs { sub, toks, nums, max, ctx: m, apart: true, slack, split: 3 };
    d("all", &all, &NUMS, rt.pick(5, 6), 1).run(rt);
    // factorials need whole numbers to give finite values
    let fact = [Num, T("x"), T("+"), T("-"), T("*"), T("^"), T("!"), T("("), T(")")];
    d("factorial", &fact, &INTS, rt.pick(6, 8), 1).run(rt);
    // operators only: one operand kind, more operators
    let ops = [Var, T("+"), T("-"), T("*"), T("/"), T("%"), T("^")];
    d("operators", &ops, &NUMS, rt.pick(7, 9), 0).run(rt);
    let par = [Num, T("-"), T("/"), T("^"), T("("), T(")")];
    d("parens", &par, &NUMS, rt.pick(7, 9), 0).run(rt);
    let signs = [Var, T("-"), T("+"), T("^"), T("!"), T("*")];
    d("signs", &signs, &NUMS, rt.pick(7, 9), 0).run(rt);
    let call = [Var, T("h("), T("v("), T(","), T(")"), T("("), T("-"), T("!"), T("^"), T("z(")];
    d("calls", &call, &NUMS, rt.pick(6, 8), 0).run(rt);
    // texts one or two edits away from well-formed ones of every construct
    edits(rt, "edited", &BASES, &["2", "x", "-", "+", "*", "/", "%", "^", "!", "(", ")", ",", "g(", "v(", "h("], 1);
    edits(rt, "edited", if rt.quick() { &BASES[..7] } else { &BASES }, &["2", "x", "-", "^", "!", "(", ")", ","], 2);
    // operands of every size between every pair of operators
    for n in sizes(rt.quick()).chain(magic(5000)) {
        for a in sized_operands(n) {
            for (i, o) in ["+", "-", "*", "/", "%", "^", "!*"].into_iter().enumerate() {
                for p in ["+", "-", "*", "/", "%", "^"] {
                    rt.shared_case("sized", &format!("y{o}{a}{p}x"));
                    if !rt.quick() || (n + i) % 4 == 0 {
                        rt.shared_case("sized", &format!("{a}{o}x{p}y"));
                        rt.shared_case("sized", &format!("x{o}y{p}{a}"));
                        rt.shared_case("sized", &format!("-{a}{o}-{a}{p}y"));
                    }
                }
            }
        }
    }
    // chains with every operator in every place, exactly operand op operand op ...
    let bin = ["+", "-", "*", "/", "%", "^"];
    let pre = ["", "-", "+", "--"];
    let post = ["", "!"];
    let n = rt.pick(4, 5);
    let total = 6usize.pow(n);
    for code in 0..total {
        for style in 0..8usize {
            let mut t = String::new();
            let mut c = code;
            for k in 0..=n as usize {
                if style < 4 {
                    t.push_str(pre[(style + k * (style & 1)) % 4]);
                } else {
                    t.push_str(pre[usize::from(k == style - 4)]);
                }
                t.push_str(VARS[k]);
                t.push_str(post[usize::from(style == 3 && k % 2 == 1)]);
                if k < n as usize {
                    t.push_str(bin[c % 6]);
                    c /= 6;
                }
            }
            rt.shared_case("chain", &t);
        }
    }
    // repeated patterns of two operators, and nesting, at every length
    let lens: Vec<usize> = (1..=40).chain((45..400).step_by(rt.pick(23, 3))).chain([255, 256, 257, 399, 400]).chain(magic(400)).collect();
    for &l in &lens {
        for a in bin {
            for b in bin {
                // alternating operators; every operand is different enough
                let mut t = String::from("x");
                for k in 0..l {
                    t.push_str(if k % 2 == 0 { a } else { b });
                    t.push_str(["y", "1.25", "q", "0.75", "w", "2"][k % 6]);
                }
                rt.shared_case("long", &t);
            }
        }
        for f in ["(|x|)", "-|x|", "x-(|y|)", "(2-|x|)", "(|x|-2)", "g(|x|)", "h(1,|x|)", "h(|x|,1)", "(-|x|)^2", "2^-|x|", "-(|x|)^2", "(x/|y|)", "1-(|x|)", "+-|x|", "(|3|!)", "(|y|^x)", "(y^|x|)", "v(|x|)", "v(x,|y|,2)", "|x|-y", "x/|y|", "|x|/y", "(|x|%1.5)"] {
            rt.shared_case("family", &format!("{f}|{l}"));
        }
    }
    for n in 1..=8 {
        // repeated postfix
        for base in ["0", "1", "2", "3", "x", "(1)", "g(0)", "k"] {
            rt.shared_case("all", &format!("{base}{}", "!".repeat(n)));
            rt.shared_case("all", &format!("-{base}{}^2", "!".repeat(n)));
            rt.shared_case("all", &format!("2^{base}{}", "!".repeat(n)));
        }
    }
}

/// Sizes of the parts of a text: every small one, and those around powers of two.
pub fn sizes(quick: bool) -> impl Iterator<Item = usize> {
    let (dense, last) = if quick { (24, 1024) } else { (140, 5000) };
    (1..=last).filter(move |n: &usize| *n <= dense || [-1, 0, 1].iter().any(|d| (*n as i64 + d > 0) && (*n as i64 + d).count_ones() == 1) || [50, 51, 100, 101, 200, 500, 1000, 1001].contains(n))
}

/// An operand of every kind whose text has about `n` bytes.
pub fn sized_operands(n: usize) -> Vec<String> {
    let r = |s: &str, k: usize| s.repeat(k);
    vec![
        r("a", n) + "_",
        r("7", n),
        format!("1.{}", r("25", n.div_ceil(2))),
        format!("({})", r("x+", n.div_ceil(2)) + "2"),
        format!("{}x{}", r("(", n.min(300)), r(")", n.min(300))),
        format!("v({}1)", r("1,", n.div_ceil(2))),
        format!("v({}x)", r("2,", n.div_ceil(2))),
        format!("sum({}x)", r("x,", n.div_ceil(2))),
        format!("({}2)", r(" ", n)),
        format!("2{}", r("!", n.min(300))),
        format!("x{}", r("!", n.min(300))),
        format!("g({}x)", r("-", n.min(300))),
    ]
}

// ---------------------------------------------------------------- C03

pub fn run_c03(_sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    agree(data, std_pair(), stats)
}

pub fn enum_c03(rt: &mut Rt) {
    let m = &std_pair().m;
    let d = |sub, toks, max, slack, apart| Dfs { sub, toks, nums: &NUMS, max, ctx: m, apart, slack, split: 3 };
    let all = [Num, T("x"), T("X"), T("k"), T("g("), T("("), T(")"), T("!"), T("*"), T("/"), T("^"), T("-"), T("+"), T("%"), T(" "), T(".5")];
    d("all", &all, rt.pick(5, 6), 1, false).run(rt);
    let words = [Num, Var, T("("), T(")"), T("/"), T("^"), T("-"), T(" ")];
    d("words", &words, rt.pick(7, 8), 0, true).run(rt);
    let mults = [Num, T("y"), T("("), T(")"), T("/"), T("*"), T("%"), T("^"), T("!")];
    d("mults", &mults, rt.pick(6, 8), 0, true).run(rt);
    let calls = [Num, T("g("), T("h("), T(","), T(")"), T("z("), T("x"), T("/"), T("^"), T("-")];
    d("calls", &calls, rt.pick(6, 7), 0, true).run(rt);
    // every pair and triple of adjacent operands with every separator, inside every context
    let operands = ["2", "2.", ".5", "1e3", "2_0", "x", "X", "e", "pi", "k", "a'", "Zz", "x2", "(2)", "(x)", "((y))", "g(2)", "z()", "min(x,2)", "2!", "x!", "(2)!", "sin(x)", "E", "_x", "'"];
    let seps = ["", " ", "\t", "\n", "  \r\n", "\u{c}"];
    let around = [("", ""), ("1/", ""), ("", "^2"), ("-", ""), ("2^", ""), ("y%", "*3"), ("(", ")"), ("g(", ")"), ("1-", "!"), ("2/-", "")];
    for a in operands {
        for b in operands {
            for s in seps {
                for (l, r) in around {
                    rt.shared_case("pairs", &format!("{l}{a}{s}{b}{r}"));
                }
                for c in operands {
                    rt.shared_case("pairs", &format!("{a}{s}{b} {c}"));
                    rt.shared_case("pairs", &format!("1/{a} {b}{s}{c}^2"));
                }
            }
        }
    }
    // every letter can start the second operand, every printable character can't sneak in
    for c in 33..127u8 {
        let c = char::from(c);
        for (l, r) in [("2", ""), ("2 ", ""), ("x ", "2"), ("(x)", ""), ("g(x)", "y"), ("1/2", ""), ("2^2", ""), ("2!", ""), ("x", "")] {
            rt.shared_case("letters", &format!("{l}{c}{r}"));
        }
    }
    // operands of every size next to others
    for n in sizes(rt.quick()).chain(magic(5000)) {
        for a in sized_operands(n) {
            for b in ["3", "x", "(3)", "g(x)", "3x", "x3", "3 4", "!3", "2.5e1"] {
                for (l, r) in [("", ""), ("2*", ""), ("2 ", ""), ("1/", ""), ("x", "^2"), ("-", "/2"), ("g(", ")")] {
                    for s in ["", " "] {
                        rt.shared_case("sized", &format!("{l}{a}{s}{b}{r}"));
                    }
                }
                if !rt.quick() || n < 40 {
                    rt.shared_case("sized", &format!("1/{b} {a}{b}"));
                    rt.shared_case("sized", &format!("1/({b}){a}"));
                }
            }
        }
    }
    // long products: n implicit factors with an explicit operator at every place
    for n in 1..=rt.pick(40, 150usize) {
        for op in ["/", "*", "%", "^", "-", "+"] {
            for at in 0..n {
                if rt.quick() && n > 12 && at > 2 && at + 2 < n {
                    continue;
                }
                let t: Vec<String> = (0..=n).map(|k| if k == at { format!("{}{op}", VARS[k % 12]) } else { format!("{} ", VARS[k % 12]) }).collect();
                rt.shared_case("long", t.concat().trim_end_matches([' ', '/', '*', '%', '^', '-', '+']));
            }
        }
    }
}

// ---------------------------------------------------------------- C04

fn frac(n: u64) -> String {
    format!("{n}")
}

pub fn run_c04(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    if sub == "value" || sub == "literal" {
        // a literal alone: must be exactly the nearest double
        let want = model::number_value(data);
        let got = plain_pair().parser.parse(data).ok().and_then(|x| x.eval_no_vars().ok());
        stats.inc(if want.is_some() { "valid" } else { "malformed" });
        return match (want, got) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if a.to_bits() == b.to_bits() => Ok(()),
            (a, b) => Err(format!("literal is {b:?}, expected {a:?}")),
        };
    }
    if sub == "midpoint" {
        return midpoint(data, stats);
    }
    let r = agree(data, plain_pair(), stats);
    if r.is_err() {
        return r;
    }
    // malformed literals are reported as such
    if let Err(e) = model::parse(data, &plain_pair().m) {
        if matches!(e.kind, model::Kind::Malformed(_)) {
            let got = plain_pair().parser.parse(data).err().map(|e| e.to_string()).unwrap_or_default();
            if got != e.kind.message() {
                return Err(format!("reported `{got}`, expected `{}`", e.kind.message()));
            }
        }
    }
    Ok(())
}

/// Decimal texts exactly half way between two neighbouring doubles, and just above and below it at
/// every depth: the right answer is known by construction, whatever parses them.
fn midpoint(data: &str, stats: &mut Stats) -> Outcome {
    let v = f64::from_bits(u64::from_str_radix(data, 16).unwrap());
    let w = f64::from_bits(v.to_bits() + 1);
    let digits = |x: f64| -> Vec<u8> { format!("{x:01500.1080}").bytes().filter(u8::is_ascii_digit).map(|d| d - b'0').collect() };
    // the sum of the two, halved
    let (a, b) = (digits(v), digits(w));
    let mut sum = vec![0u8; a.len() + 1];
    let mut carry = 0;
    for i in (0..a.len()).rev() {
        let s = a[i] + b[i] + carry;
        sum[i + 1] = s % 10;
        carry = s / 10;
    }
    sum[0] = carry;
    let mut half = vec![];
    let mut rem = 0;
    for d in sum.iter().chain(&[0]) {
        half.push((rem * 10 + d) / 2);
        rem = (rem * 10 + d) % 2;
    }
    let text: String = half.iter().map(|d| char::from(d + b'0')).collect();
    let (int, frac) = text.split_at(text.len() - 1081);
    let int = int.trim_start_matches('0');
    let frac = frac.trim_end_matches('0');
    let even = if v.to_bits() % 2 == 0 { v } else { w };
    // digits, number of them before the point, what they denote
    let all = format!("{int}{frac}");
    let mut list: Vec<(String, f64)> = vec![(all.clone(), even)];
    for j in [0, 1, 2, 3, 5, 10, 20, 40, 80, 200, 400, 800, 1600, 5000] {
        list.push((format!("{all}{}1", "0".repeat(j)), w));
        list.push((format!("{all}{}", "0".repeat(j)), even));
        let k = all.trim_end_matches('0').len();
        let last = all.as_bytes()[k - 1] - b'0';
        let below = format!("{}{}{}", &all[..k - 1], last - 1, "9".repeat(all.len() - k + j + 1));
        list.push((below, v));
    }
    for (d, want) in list {
        let n = int.len();
        let mut forms = vec![];
        let whole = |d: &str| if d.len() > n { format!("{}.{}", &d[..n], &d[n..]) } else { d.to_owned() };
        forms.push(whole(&d));
        forms.push(format!("{d}e{}", n as i64 - d.len() as i64));
        forms.push(format!("0.{d}E{n}"));
        forms.push(format!("{}{}", "0".repeat(90), whole(&d)));
        forms.push(format!("{}.{}e{}", &d[..1], &d[1..], n as i64 - 1));
        forms.push(whole(&d).as_bytes().chunks(3).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join("_"));
        for f in forms {
            stats.inc("midpoints");
            let got = plain_pair().parser.parse(&f).map_err(|e| format!("{f}: {e}"))?.eval_no_vars().map_err(|e| e.to_string())?;
            if got.to_bits() != want.to_bits() {
                return Err(format!("literal of {} characters, {}… is {got:?}, expected {want:?} (between {v:?} and {w:?})", f.len(), &f[..f.len().min(40)]));
            }
        }
    }
    Ok(())
}

pub fn enum_c04(rt: &mut Rt) {
    let mut mids: Vec<f64> = vec![1.0, 0.1, 0.2, 0.3, 1.0 / 3.0, 2.0, 3.0, 7.0, 10.0, 100.0, 123_456.789, 4_503_599_627_370_496.0, 4_503_599_627_370_497.0, 9_007_199_254_740_991.0, 9_007_199_254_740_992.0, 9_007_199_254_740_994.0,
        1e15, 1e16, 1e17, 1e19, 1.8446744073709552e19, 1e22, 1e23, 3.402_823_5e38, 1e50, 1e100, 1e200, 1e300, 1.797_693_134_862_315_5e308, f64::MIN_POSITIVE, 2.225_073_858_507_201e-308, 1e-310, 5e-324, 1e-323, 1e-320, 1e-100, 1e-50, 1e-22, 1e-10, 1e-7, 1e-5, 0.001];
    for k in 0..rt.pick(60u64, 1500) {
        mids.push(f64::from_bits((k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 1 & 0x7FDF_FFFF_FFFF_FFFF));
    }
    for v in mids {
        rt.shared_case("midpoint", &format!("{:x}", v.to_bits()));
    }
    let al = ["0", "1", "9", ".", "_", "e", "E", "+", "-"];
    all_strings(rt, "literal-text", &al, rt.pick(6, 7), "", "");
    all_strings(rt, "literal-text", &["2", ".", "_", "e", "E", "+", "-", "x", "3", "("], rt.pick(5, 6), "", "");
    for (p, s) in [("2", "x"), ("7.", "e2"), ("1e", ""), ("1E-", "0"), ("x^", ""), ("-", "!"), ("3e", "(x)"), ("5", "e"), ("1e+", " x"), (" ", "\n"), ("x+", "*y")] {
        all_strings(rt, "literal-text", &["0", "4", ".", "_", "e", "E", "+", "-", "x", "*", " "], rt.pick(4, 5), p, s);
    }
    // what may follow a number or an incomplete exponent
    for num in ["2", "2.5", "2.", ".5", "2_", "20", "1e5", "2E-3"] {
        for e in ["e", "E", "e+", "E-", "e-", "ee", "e_", "e.", "e'", "e1", "e+1", "E-2", "e++1", "e+-1", "e 1", " e1", "e1e1", "e1.5", "e1_0", "e+x", "ex", "epi", "e(x)", "e!", "e^2", "e2x", "E2(3)", "e+1x", "exp(1)", "x", "X", "pi", "_x", "'x", ".x", "..", ".e1", "_e1", "e01", "e-01", "e00", "e400", "e-400", "e12345678901234567890"] {
            for tail in ["", "+1", " ", ")", "*x", "!"] {
                rt.shared_case("literal-text", &format!("{num}{e}{tail}"));
                rt.shared_case("literal-text", &format!("({num}{e}{tail})"));
                rt.shared_case("literal-text", &format!("1-{num}{e}{tail}"));
            }
        }
    }
    // values: integers, decimals, all exponents, long digit strings, ties
    for n in 0..rt.pick(20_000u64, 1_000_000) {
        rt.shared_case("value", &frac(n));
        if n < 10_000 {
            rt.shared_case("value", &format!("0.{n:04}"));
            rt.shared_case("value", &format!("{}.{:02}", n / 100, n % 100));
            rt.shared_case("value", &format!(".{n}"));
        }
    }
    for e in -400i32..=400 {
        for m in ["1", "9", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "1.5", "123456789.123456789", "0.000001", "10", "9007199254740993", "17976931348623158079"] {
            for sep in ["e", "E"] {
                rt.shared_case("value", &format!("{m}{sep}{e}"));
                if e >= 0 {
                    rt.shared_case("value", &format!("{m}{sep}+{e}"));
                    rt.shared_case("value", &format!("{m}{sep}{e:04}"));
                }
            }
        }
    }
    // powers of two and their neighbours, halfway points: 2^k + 2^(k-53) in full decimal
    for k in 0..rt.pick(127u32, 127) {
        let p = 1u128 << k;
        for d in [0i128, 1, -1] {
            rt.shared_case("value", &format!("{}", p as i128 + d));
        }
        if k >= 53 {
            let half = 1u128 << (k - 53);
            for v in [p + half, p + half + 1, p + half - 1, p + 3 * half, p + 3 * half + 1, p + 3 * half - 1] {
                rt.shared_case("value", &format!("{v}"));
                rt.shared_case("value", &format!("{v}.0"));
                rt.shared_case("value", &format!("{v}.000000000000000000000000001"));
                rt.shared_case("value", &format!("{v}e-20"));
            }
        }
    }
    // shortest and exact forms of many doubles
    let mut bits: Vec<u64> = vec![0, 1, 2, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff];
    for exp in 0..2047u64 {
        for man in [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555] {
            if rt.quick() && exp % 8 != 0 && exp > 40 && exp < 2000 {
                continue;
            }
            bits.push(exp << 52 | man);
        }
    }
    bits.extend(numbers_near().map(f64::to_bits));
    for b in bits {
        let x = f64::from_bits(b);
        for s in [format!("{x}"), format!("{x:e}"), format!("{x:.20e}"), format!("{x:.60e}")] {
            rt.shared_case("value", &s);
        }
        if b & 3 == 1 {
            rt.shared_case("value", &format!("{x:.1100}"));
        }
    }
    // many digits, underscores everywhere
    for n in (1..=60usize).chain([100, 255, 256, 257, 400, 800, 1100, 4000]).chain(magic(10_000)) {
        for s in ["1", "9", "0", "12345", "_1", "1_", "0_"] {
            let d = s.repeat(n);
            rt.shared_case("literal-text", &d);
            rt.shared_case("literal-text", &format!("0.{d}"));
            rt.shared_case("literal-text", &format!("1{d}"));
            rt.shared_case("literal-text", &format!("1{d}.{d}e-{n}"));
            rt.shared_case("literal-text", &format!("1.{d}e{n}"));
            for sign in ["", "+", "-"] {
                rt.shared_case("literal-text", &format!("1e{sign}{d}"));
                rt.shared_case("literal-text", &format!("2.5E{sign}{d}7"));
                rt.shared_case("literal-text", &format!("x+30e{sign}{d}*y"));
                rt.shared_case("literal-text", &format!("1.{d}e{sign}{d}"));
            }
            rt.shared_case("literal-text", &format!("1{}5", "_".repeat(n)));
            rt.shared_case("literal-text", &format!("1{}5", "0".repeat(n)));
        }
    }
}

// ---------------------------------------------------------------- C21

/// A context in which the name itself, or its neighbours, have a meaning.
pub fn run_c21(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let name = data;
    match sub {
        // a name in every role
        "roles" => roles(name, stats),
        // `name` and a neighbour used together
        "pair" => {
            let (a, b) = data.split_once('\u{1}').unwrap();
            pair_of_names(a, b, stats)
        }
        _ => agree(data, std_pair(), stats),
    }
}

fn roles(name: &str, stats: &mut Stats) -> Outcome {
    use xprs::{Context, Function, Parser};
    let plain = Parser::default();
    let check = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} (name of {} bytes)", name.len())) };
    let sname = intern(name);
    // variable (or built-in), alone
    match model::builtin(name) {
        None => {
            stats.inc("names");
            let x = plain.parse(name).map_err(|e| format!("as a variable: {e}"))?;
            check(x.vars.len() == 1 && x.vars.contains(name), "is not one variable of that name")?;
            check(x.eval(&HashMap::from([(name, 3.25)])).ok() == Some(3.25), "value given under its name isn't used")?;
            check(x.eval_no_vars().is_err(), "evaluates without a value")?;
            // never a prefix, a suffix, a case variant
            let mut others: Vec<String> = Vec::new();
            let cs: Vec<char> = name.chars().collect();
            if cs.len() <= 600 {
                for k in 1..cs.len() {
                    if cs.len() > 40 && k > 3 && k + 3 < cs.len() && !(k + 1).is_power_of_two() && !k.is_power_of_two() {
                        continue;
                    }
                    others.push(cs[..k].iter().collect());
                    others.push(cs[k..].iter().collect());
                }
            } else {
                for k in [1, 16, 255, 256, 257, 512, cs.len() - 1] {
                    others.push(cs[..k].iter().collect());
                }
            }
            for k in 0..cs.len() {
                if cs.len() > 40 && k > 3 && k + 3 < cs.len() && !(k + 1).is_power_of_two() && !k.is_power_of_two() {
                    continue;
                }
                let mut d = cs.clone();
                d[k] = if d[k].is_ascii_lowercase() { d[k].to_ascii_uppercase() } else if d[k].is_ascii_uppercase() { d[k].to_ascii_lowercase() } else if d[k] == '_' { '\'' } else { '_' };
                others.push(d.into_iter().collect());
            }
            others.push(format!("{name}_"));
            others.push(format!("{name}1"));
            others.push(format!("{name}'"));
            let env: HashMap<&str, f64> = others.iter().filter(|o| *o != name).map(|o| (o.as_str(), 7.0)).collect();
            match x.eval(&env) {
                Ok(v) => return Err(format!("{name} evaluates to {v} given only {:?}", env.keys().take(3).collect::<Vec<_>>())),
                Err(e) => check(e.to_string().contains(&format!("'{name}'")), "evaluation error doesn't name it")?,
            }
            let all: Vec<&str> = env.keys().copied().collect();
            check(x.clone().bind_n_runtime(&all).is_err(), "binds to other names")?;
            let f = x.clone().bind(name).map_err(|e| format!("bind: {e}"))?;
            check(f(1.5) == 1.5, "bound value")?;
            let mut y = x.clone();
            for o in &all {
                y.simplify_for_in_place((o, 9.0));
            }
            check(y.vars.contains(name) && y.eval(&HashMap::from([(name, 2.0)])).ok() == Some(2.0), "simplified for another name")?;
            check(x.clone().simplify_for((name, 4.5)).eval_no_vars().ok() == Some(4.5), "simplify for its name")?;
            // expected names
            let p = Parser::new_with_ctx(Context::default().with_expected_vars([name].into()));
            check(p.parse(name).is_ok(), "not accepted where expected")?;
            let p = Parser::new_with_ctx(Context::default().with_expected_vars(all.iter().copied().collect()));
            check(p.parse(name).is_err(), "accepted where only others are expected")?;
            // context symbols of neighbouring names don't capture it
            let mut c = Context::default();
            for o in &all {
                c.set_var(intern(o), 11.0);
            }
            let p = Parser::new_with_ctx(c);
            let x = p.parse(name).map_err(|e| format!("next to constants: {e}"))?;
            check(x.vars.contains(name) && x.eval(&HashMap::from([(name, 2.5)])).ok() == Some(2.5), "captured by a constant of another name")?;
        }
        Some(_) => stats.inc("builtin_names"),
    }
    // constant
    let p = Parser::new_with_ctx(Context::default().with_var(sname, 6.5));
    let x = p.parse(name).map_err(|e| format!("as a constant: {e}"))?;
    check(x.vars.is_empty() && x.eval_no_vars().ok() == Some(6.5), "constant not found under its name")?;
    for longer in [format!("{name}_"), format!("{name}0"), format!("{name}x"), format!("{name}'")] {
        if model::builtin(&longer).is_none() {
            let x = p.parse(&longer).map_err(|e| format!("{longer}: {e}"))?;
            check(x.vars.len() == 1 && x.vars.contains(longer.as_str()), "a longer name is split at a constant")?;
        }
    }
    // function
    let p = Parser::new_with_ctx(Context::default().with_fn(Function::new_static(sname, |a| a[0] * 2.0 + 1.0, Some(1))));
    for sp in ["", " ", "\n"] {
        let t = format!("{name}{sp}(3)");
        let x = p.parse(&t).map_err(|e| format!("as a function: {e}"))?;
        check(x.eval_no_vars().ok() == Some(7.0), "function not found under its name")?;
    }
    let t = format!("{name}_(3)");
    let x = p.parse(&t).map_err(|e| format!("{e}"))?;
    let ln = format!("{name}_");
    check(model::builtin(&ln).is_some() || x.eval(&HashMap::from([(ln.as_str(), 5.0)])).ok() == Some(15.0), "a longer name is not a variable times a parenthesis")?;
    // inside an expression
    if model::builtin(name).is_none() {
        let t = format!("2 {name}+({name})^2-{name} {name}");
        let plainx = plain.parse(&t).map_err(|e| format!("in an expression: {e}"))?;
        // 2e3x is a literal; otherwise 2v + v^2 - v*v
        if !t.starts_with("2e") && !t.starts_with("2E") {
            let want = 2.0 * 3.5 + 3.5f64.powf(2.0) - 3.5 * 3.5;
            check(plainx.vars.len() == 1 && plainx.eval(&HashMap::from([(name, 3.5)])).ok() == Some(want), "value in an expression")?;
        }
    }
    Ok(())
}

fn pair_of_names(a: &str, b: &str, stats: &mut Stats) -> Outcome {
    stats.inc("pairs");
    if a == b || model::builtin(a).is_some() || model::builtin(b).is_some() {
        return Ok(());
    }
    let t = format!("{a}-{b}");
    let p = &plain_pair().parser;
    let x = p.parse(&t).map_err(|e| format!("{e}"))?;
    let env = HashMap::from([(a, 5.0), (b, 3.0)]);
    if x.vars.len() != 2 || x.eval(&env).ok() != Some(2.0) {
        return Err(format!("{a} and {b} are confused: vars {:?}, value {:?}", x.vars, x.eval(&env)));
    }
    let s = x.clone().simplify_for((a, 5.0));
    if s.vars.len() != 1 || !s.vars.contains(b) || s.eval(&HashMap::from([(b, 1.0)])).ok() != Some(4.0) {
        return Err(format!("simplifying for {a} touched {b}: {s}"));
    }
    let f = x.bind2(intern(b), intern(a)).map_err(|e| format!("{e}"))?;
    if f(1.0, 9.0) != 8.0 {
        return Err("bound values are confused".to_owned());
    }
    // one a constant, the other a variable
    let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_var(intern(a), 10.0));
    let x = p.parse(&t).map_err(|e| format!("{e}"))?;
    if x.vars.len() != 1 || x.eval(&HashMap::from([(b, 3.0)])).ok() != Some(7.0) {
        return Err(format!("with {a} a constant: {x}"));
    }
    Ok(())
}

pub fn enum_c21(rt: &mut Rt) {
    // every name over an alphabet that can spell e, pi, exponents and case variants
    let letters = ["e", "E", "x", "p", "i", "_", "'", "0", "2"];
    fn names(rt: &mut Rt, al: &[&str], left: usize, t: &mut String) {
        if !t.is_empty() {
            rt.shared_case("roles", t);
        }
        if left == 0 || rt.stop() {
            return;
        }
        for a in al {
            if t.is_empty() && !a.as_bytes()[0].is_ascii_alphabetic() {
                continue;
            }
            let l = t.len();
            t.push_str(a);
            names(rt, al, left - 1, t);
            t.truncate(l);
        }
    }
    names(rt, &letters, rt.pick(4, 6), &mut String::new());
    // every letter, every legal character at every place of a short name
    for a in (b'a'..=b'z').chain(b'A'..=b'Z') {
        for b in 33..127u8 {
            if model::is_ident(b) {
                rt.shared_case("roles", &format!("{}{}", char::from(a), char::from(b)));
                rt.shared_case("roles", &format!("q{}{}", char::from(b), char::from(a)));
            } else {
                rt.shared_case("text", &format!("{}{}", char::from(a), char::from(b)));
                rt.shared_case("text", &format!("{}{}x", char::from(a), char::from(b)));
            }
        }
        for b in (0..33u8).chain([127]) {
            rt.shared_case("text", &format!("{}{}x", char::from(a), char::from(b)));
        }
        for c in ["é", "λ", "ª", "²", "_", "ß", "０", "Ａ"] {
            rt.shared_case("text", &format!("{}{c}", char::from(a)));
        }
    }
    // built-in names: prefixes, extensions, case variants
    let mut bn: Vec<&String> = model::builtins().keys().collect();
    bn.sort();
    for name in bn {
        rt.shared_case("roles", name);
        for k in 1..name.len() {
            rt.shared_case("roles", &name[..k]);
            if name.as_bytes()[k].is_ascii_alphabetic() {
                rt.shared_case("roles", &name[k..]);
            }
            let mut up = name.clone().into_bytes();
            up[k].make_ascii_uppercase();
            rt.shared_case("roles", &String::from_utf8(up).unwrap());
        }
        let mut up = name.clone().into_bytes();
        up[0].make_ascii_uppercase();
        rt.shared_case("roles", &String::from_utf8(up).unwrap());
        rt.shared_case("roles", &name.to_ascii_uppercase());
        for b in 33..127u8 {
            if model::is_ident(b) {
                rt.shared_case("roles", &format!("{name}{}", char::from(b)));
                if b.is_ascii_alphabetic() {
                    rt.shared_case("roles", &format!("{}{name}", char::from(b)));
                }
            }
            // followed by anything, with and without argument
            rt.shared_case("text", &format!("{name}{}", char::from(b)));
            rt.shared_case("text", &format!("{name}{}(2)", char::from(b)));
            rt.shared_case("text", &format!("2{name}{}x", char::from(b)));
        }
    }
    for w in dict_names() {
        for w in [w.to_owned(), w.to_ascii_lowercase(), w.to_ascii_uppercase()] {
            for t in [&w[..], &format!("{w}_"), &format!("a{w}"), &format!("{w}1")] {
                rt.shared_case("roles", t);
            }
            for t in [format!("2{w}"), format!("{w}(2)"), format!("{w} 2"), format!("-{w}!"), format!("{w}+1"), format!("({w})"), format!("{w}()")] {
                rt.shared_case("text", &t);
            }
        }
    }
    // names of every length, differing at one place only
    let own = magic(200_000);
    for n in (1..=130usize).chain([255, 256, 257, 511, 512, 513, 1000, 4096, 65_535, 65_536, 65_537]).chain(own.iter().copied()) {
        if rt.quick() && !own.contains(&n) && n > 70 && n < 120 && n % 9 != 0 {
            continue;
        }
        rt.shared_case("roles", &"a".repeat(n));
        rt.shared_case("roles", &format!("x{}", "_1'B".repeat(n.div_ceil(4))));
        let base = "q".repeat(n);
        for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            if at >= n {
                continue;
            }
            for c in [b'r', b'Q', b'_'] {
                if at == 0 && c == b'_' {
                    continue;
                }
                let mut o = base.clone().into_bytes();
                o[at] = c;
                rt.shared_case("pair", &format!("{base}\u{1}{}", String::from_utf8(o).unwrap()));
            }
        }
        rt.shared_case("pair", &format!("{base}\u{1}{base}q"));
        rt.shared_case("pair", &format!("{base}\u{1}{base}_"));
    }
    // all pairs of short names
    let al = ["a", "A", "b", "a_", "a'", "a1", "aa", "aA", "Aa", "ab", "ba", "a_1", "a1_", "a''", "a'_", "a11", "sine", "Pi", "ee", "E", "PI", "e_", "e1", "exp1", "ex"];
    for a in al {
        for b in al {
            rt.shared_case("pair", &format!("{a}\u{1}{b}"));
        }
    }
    // in running text, words against all that can touch them
    let toks = [T("e"), T("pi"), T("sin"), T("g"), T("k"), T("x"), T("_"), T("'"), T("1"), T("("), T(")"), T(" "), T("+")];
    Dfs { sub: "text", toks: &toks, nums: &NUMS, max: rt.pick(5, 6), ctx: &std_pair().m, apart: false, slack: 1, split: 2 }.run(rt);
}

// ---------------------------------------------------------------- C22

const WS: [&str; 5] = [" ", "\t", "\n", "\r", "\u{c}"];

/// Splits a text into its tokens, from the lexical rules.
pub fn tokens(text: &str) -> Vec<&str> {
    let t = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let s = i;
        if model::is_ws(t[i]) {
            i += 1;
            continue;
        }
        if t[i].is_ascii_digit() || t[i] == b'.' {
            i = model::number_end(t, i);
        } else if model::is_ident_start(t[i]) {
            while i < t.len() && model::is_ident(t[i]) {
                i += 1;
            }
        } else {
            i += text[i..].chars().next().unwrap().len_utf8();
        }
        out.push(&text[s..i]);
    }
    out
}

/// Observed meaning of a text.
fn meaning(text: &str, pair: &Pair) -> Result<(String, Vec<u64>), String> {
    match pair.parser.parse(text) {
        Ok(x) => {
            let mut names: Vec<&str> = x.vars.iter().copied().collect();
            names.sort_unstable();
            let mut v = vec![];
            for k in 0..2 {
                let env: HashMap<&str, f64> = names.iter().map(|&n| (n, var_value(k, n))).collect();
                let r = x.eval(&env).unwrap_or(-12345.0);
                v.push(if r.is_nan() { 1 } else { r.to_bits() });
            }
            Ok((format!("{x} {names:?}"), v))
        }
        Err(e) => Err(e.to_string()),
    }
}

pub fn run_c22(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let pair = std_pair();
    if sub == "other-space" {
        // not ASCII whitespace: never skipped
        return agree(data, pair, stats);
    }
    let toks = tokens(data);
    let gaps = toks.len() + 1;
    let build = |f: &dyn Fn(usize) -> String| {
        let mut s = f(0);
        for (i, t) in toks.iter().enumerate() {
            s.push_str(t);
            s.push_str(&f(i + 1));
        }
        s
    };
    // a gap may stay empty when the two tokens don't become other tokens
    let must: Vec<bool> = (0..gaps)
        .map(|i| {
            if i == 0 || i == toks.len() {
                return false;
            }
            // the pair, and the triple for exponents (2e then +)
            let two = format!("{}{}", toks[i - 1], toks[i]);
            let three = format!("{two}{}", toks.get(i + 1).unwrap_or(&""));
            let four = format!("{three}{}", toks.get(i + 2).unwrap_or(&""));
            tokens(&two) != [toks[i - 1], toks[i]] || tokens(&three).first() != Some(&toks[i - 1]) || tokens(&four).first() != Some(&toks[i - 1])
        })
        .collect();
    let base_text = build(&|i| if must[i] { " ".into() } else { String::new() });
    let base = meaning(&base_text, pair);
    stats.inc(if base.is_ok() { "accepted" } else { "rejected" });
    let mut variants: Vec<String> = vec![];
    for w in WS {
        variants.push(build(&|_| w.into()));
        for g in 0..gaps {
            variants.push(build(&|i| if i == g { w.into() } else if must[i] { " ".into() } else { String::new() }));
        }
    }
    let mix = " \t\n\r\u{c}";
    variants.push(build(&|_| mix.into()));
    variants.push(build(&|_| "\r\n".into()));
    if sub == "subsets" {
        for mask in 0u32..1 << gaps.min(12) {
            variants.push(build(&|i| if must[i] || mask >> i & 1 == 1 { " ".into() } else { String::new() }));
        }
    }
    if sub == "amount" {
        for n in (2..70usize).chain([127, 128, 129, 255, 256, 257, 1000, 65_536]).chain(magic(100_000)) {
            for g in 0..gaps {
                let w = WS[(n + g) % 5];
                variants.push(build(&|i| if i == g { w.repeat(n) } else if must[i] { " ".into() } else { String::new() }));
            }
        }
    }
    for v in &variants {
        stats.inc("variants");
        let got = meaning(v, pair);
        if got != base {
            let short = |r: &Result<(String, Vec<u64>), String>| match r {
                Ok((s, _)) => s.clone(),
                Err(e) => format!("error: {e}"),
            };
            return Err(format!("{v:?} gives {}, {base_text:?} gives {}", short(&got), short(&base)));
        }
    }
    Ok(())
}

pub fn enum_c22(rt: &mut Rt) {
    let m: &MCtx = &std_pair().m;
    let toks = [T("2"), T("x"), T("+"), T("-"), T("^"), T("!"), T("("), T(")"), T("g"), T("h"), T(","), T("*"), T("/"), T("e"), T("."), T("$")];
    Dfs { sub: "gaps", toks: &toks, nums: &NUMS, max: rt.pick(4, 5), ctx: m, apart: true, slack: 1, split: 2 }.run(rt);
    let toks = [T("2"), T("x"), T("-"), T("^"), T("!"), T("("), T(")"), T("z"), T("v"), T(",")];
    Dfs { sub: "subsets", toks: &toks, nums: &NUMS, max: rt.pick(4, 6), ctx: m, apart: true, slack: 1, split: 2 }.run(rt);
    for t in [
        "h(x,2)", "v(1,x,3)", "v()", "z()", "-x^2!", "2(x)3", "x y z", "(2)(3)", "sin(x)cos(y)", "1+2*3^4!", "g(g(g(x)))", "2e x", "2e5", "2e+5", "1.5e-3x", "x'y_", "min(1,2,3)-max()", "h(1)", "h(1,2,3)", "g(,)", "g(1,)",
        "(1", "1)", "2 3", "x 3", "2!3", "x$", "1..2", "g 1", "g", "1+", "-", "2e", "2e+", "2 e 5", "e e", "pi 2", "x!!", "- - x", "+ + 2", "3 .5", "x .5", "k(2)", "K x", "2 K", "gamma ( 3 )", "sin", "x,y", "()", "(-)", "x(y)z", "2^-x", "2^(-x)!", "x%2%3", "h(-1,+2)", "h(x y,2(3))",
        "((((x))))", "!", "x^", "x*/2", "v(x,,y)", "v(x y z)", "h((1,2),3)", "é", "x é", "2é3", "v(é)",
    ] {
        rt.shared_case("subsets", t);
        rt.shared_case("amount", t);
    }
    for w in ["\u{b}", "\u{a0}", "\u{85}", "\u{2003}", "\u{200b}", "\u{feff}", "\0", "\u{1c}", "\u{7f}", "\u{1}", "\u{8}", "\u{e}", "\u{1f}"] {
        for (a, b) in [("", "x"), ("x", ""), ("x", "+1"), ("2", "3"), ("g", "(2)"), ("g(", "2)"), ("-", "x"), ("x!", "y"), ("1+", "2"), ("h(1", ",2)"), ("h(1,", "2)"), ("(", "x)"), ("(x", ")")] {
            rt.shared_case("other-space", &format!("{a}{w}{b}"));
            rt.shared_case("other-space", &format!("{a} {w} {b}"));
        }
    }
    // long chains of tokens, each gap
    for n in [5usize, 10, 20, 40] {
        let t: Vec<&str> = (0..n).map(|k| ["x", "+", "2", "*", "g(y)", "-", "(k)", "/", "3!", "^"][k % 10]).collect();
        rt.shared_case("gaps", t.concat().trim_end_matches(['+', '*', '-', '/', '^']));
    }
}
