//! Pairs of names that resemble each other, in every role. Names are compared somewhere in each
//! part of the library (tables, sorted lists, matches); whatever is compared there must be the
//! whole name, at every length and for a difference at every position.
use crate::model::{self, same};
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;
use std::collections::HashMap;
use xprs::{Context, Function, Parser, Symbol};

/// All pairs, `a` and `b` joined by a comma.
pub fn pairs(thorough: bool) -> Vec<String> {
    let mut out = vec![];
    let mut lens: Vec<usize> = (1..=20).collect();
    lens.extend([23, 24, 25, 31, 32, 33, 47, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513]);
    lens.extend(magic(5000));
    lens.sort_unstable();
    lens.dedup();
    if thorough {
        lens.extend(21..=140);
        lens.extend([1000, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]);
        lens.sort_unstable();
        lens.dedup();
    }
    for l in lens {
        let base: Vec<u8> = (0..l).map(|i| b"qwrt"[if i == 0 { 0 } else { i % 4 }]).collect();
        let places: Vec<usize> = if l <= 33 { (0..l).collect() } else { vec![0, 1, 2, 3, 7, 8, 15, 16, 31, 32, l / 2, l - 9, l - 8, l - 3, l - 2, l - 1] };
        let mut places = places;
        places.sort_unstable();
        places.dedup();
        let name = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
        for p in places {
            for c in [b'z', b'A', base[p].to_ascii_uppercase(), b'5', b'\'', b'_'] {
                if p == 0 && !model::is_ident_start(c) || c == base[p] {
                    continue;
                }
                let mut d = base.clone();
                d[p] = c;
                out.push(format!("{},{}", name(&base), name(&d)));
            }
            // two letters exchanged
            if p + 1 < l && base[p] != base[p + 1] {
                let mut d = base.clone();
                d.swap(p, p + 1);
                out.push(format!("{},{}", name(&base), name(&d)));
            }
        }
        for t in ["q", "w", "'", "_", "0", "''"] {
            out.push(format!("{},{}{t}", name(&base), name(&base)));
        }
        out.push(format!("{0},{0}{0}", name(&base)));
        out.push(format!("{},{}", name(&base), name(&base).to_ascii_uppercase()));
        // the second part differs, the first part and the length are the same
        if l > 3 {
            let mut d = base.clone();
            for x in &mut d[l / 2..] {
                *x = b'Z';
            }
            out.push(format!("{},{}", name(&base), name(&d)));
            let mut d = base.clone();
            for x in &mut d[..l / 2] {
                *x = b'Z';
            }
            out.push(format!("{},{}", name(&base), name(&d)));
        }
    }
    out.extend(["x,X", "sinx,sin_", "Sin,SIN", "E,e_", "Pi,PI", "x1,x2", "x10,x1", "x01,x1", "a_b,ab", "a'b,ab", "a',a''", "aB,Ab", "gammax,gamm", "ln_,log_", "x_,x'"].map(str::to_owned));
    out
}

pub fn enumerate(rt: &mut Rt) {
    for p in pairs(!rt.quick()) {
        rt.shared_case("pair", &p);
    }
}

fn val(what: &str, got: Result<f64, String>, want: f64) -> Outcome {
    match got {
        Ok(v) if same(v, want) => Ok(()),
        Ok(v) => Err(format!("{what} gives {v:?}, expected {want:?}")),
        Err(e) => Err(format!("{what} fails: {e}, expected {want:?}")),
    }
}

fn s<E: ToString>(e: E) -> String {
    e.to_string()
}

pub fn run(check: &str, data: &str, stats: &mut Stats) -> Outcome {
    let (a, b) = data.split_once(',').unwrap();
    stats.inc("name_pairs");
    for (a, b) in [(a, b), (b, a)] {
        let r = match check {
            "C07" => c07(a, b),
            "C08" => c08(a, b),
            "C09" => c09(a, b),
            "C10" => c10(a, b),
            "C11" => c11(a, b),
            "C12" => c12(a, b),
            "C15" => c15(a, b),
            "C20" => c20(a, b),
            _ => Err(format!("no pairs for {check}")),
        };
        r.map_err(|e| format!("{e} (names {a} and {b})"))?;
    }
    Ok(())
}

fn plain() -> &'static Parser<'static> {
    &plain_pair().parser
}

fn c07(a: &str, b: &str) -> Outcome {
    let t = format!("{a}-{b}*3");
    let x = plain().parse(&t).map_err(s)?;
    let only = |n| HashMap::from([(n, 0.5)]);
    let whole = HashMap::from([(a, 7.0), (b, 0.25)]);
    let one = |what: &str, y: &xprs::Xprs| -> Outcome {
        val(what, y.eval(&only(b)).map_err(s), 7.0 - 1.5)?;
        if y.vars.len() != 1 || !y.vars.contains(b) {
            return Err(format!("{what}: variables {:?}", y.vars));
        }
        val(&format!("{what}, evaluated with both"), y.eval(&whole).map_err(s), 7.0 - 0.75)
    };
    one("simplify_for", &x.clone().simplify_for((a, 7.0)))?;
    let mut y = x.clone();
    y.simplify_for_in_place((a, 7.0));
    one("simplify_for_in_place", &y)?;
    one("simplify_for_multiple", &x.clone().simplify_for_multiple(&[(a, 7.0)]))?;
    let mut y = x.clone();
    y.simplify_for_multiple_in_place(&[(a, 7.0)]);
    one("simplify_for_multiple_in_place", &y)?;
    one("with absent names", &x.clone().simplify_for_multiple(&[("absent", 1.0), (a, 7.0), ("zzz", 9.0), (a, 8.0)]))?;
    for pairs in [[(a, 7.0), (b, 0.25)], [(b, 0.25), (a, 7.0)]] {
        let y = x.clone().simplify_for_multiple(&pairs);
        val("simplified for both", y.eval_no_vars().map_err(s), 7.0 - 0.75)?;
        let mut y = x.clone();
        y.simplify_for_multiple_in_place(&pairs);
        val("simplified for both in place", y.eval_no_vars().map_err(s), 7.0 - 0.75)?;
        let y = x.clone().simplify_for(pairs[0]).simplify_for(pairs[1]);
        val("simplified for one, then the other", y.eval_no_vars().map_err(s), 7.0 - 0.75)?;
    }
    // the other one doesn't occur
    let u = plain().parse(b).map_err(s)?;
    for y in [u.clone().simplify_for((a, 7.0)), u.clone().simplify_for_multiple(&[(a, 7.0)])] {
        val(&format!("{b} simplified for {a}"), y.eval(&only(b)).map_err(s), 0.5)?;
        if y.vars.len() != 1 {
            return Err(format!("{b} lost its variable"));
        }
    }
    Ok(())
}

fn c08(a: &str, b: &str) -> Outcome {
    let t = format!("{a}-{b}*3");
    let x = plain().parse(&t).map_err(s)?;
    let env = HashMap::from([(a, 7.0), (b, 0.25), ("absent", 100.0)]);
    let want = 7.0 - 0.75;
    val("eval", x.eval(&env).map_err(s), want)?;
    val("eval_unchecked", Ok(x.eval_unchecked(&env)), want)?;
    val("bind2", x.clone().bind2(a, b).map(|f| f(7.0, 0.25)).map_err(s), want)?;
    val("bind2, exchanged", x.clone().bind2(b, a).map(|f| f(0.25, 7.0)).map_err(s), want)?;
    val("bind_n", x.clone().bind_n([b, a]).map(|f| f([0.25, 7.0])).map_err(s), want)?;
    val("bind3", x.clone().bind3(b, "absent", a).map(|f| f(0.25, 9.0, 7.0)).map_err(s), want)?;
    let names = [a, "absent", b];
    val("bind_n_runtime", x.clone().bind_n_runtime(&names).map_err(s).and_then(|f| f(&[7.0, 9.0, 0.25]).map_err(s)), want)
}

fn c09(a: &str, b: &str) -> Outcome {
    let t = format!("{a}*{b}+{b}");
    let x = plain().parse(&t).map_err(s)?;
    let u = plain().parse(a).map_err(s)?;
    let lists = |what: &str, r: Result<(), String>, missing: &[&str]| -> Outcome {
        let Err(e) = r else { return Err(format!("{what} succeeds, {missing:?} missing")) };
        let mut l: Vec<&str> = e.find('\'').and_then(|i| e.rfind("' w").map(|j| (i, j))).map(|(i, j)| e[i + 1..j].split(", ").collect()).unwrap_or_default();
        l.sort_unstable();
        let mut m = missing.to_vec();
        m.sort_unstable();
        if l != m { Err(format!("{what} reports `{e}`, missing are {missing:?}")) } else { Ok(()) }
    };
    let e = HashMap::from([(a, 1.0)]);
    let f = HashMap::from([(b, 1.0)]);
    let unit = |r: Result<f64, xprs::EvalError>| r.map(|_| ()).map_err(s);
    lists("eval", unit(x.eval(&e)), &[b])?;
    lists("eval", unit(x.eval(&f)), &[a])?;
    lists("eval", unit(u.eval(&f)), &[a])?;
    lists("bind", x.clone().bind(a).map(|_| ()).map_err(s), &[b])?;
    lists("bind", u.clone().bind(b).map(|_| ()).map_err(s), &[a])?;
    lists("bind2", u.clone().bind2(b, "absent").map(|_| ()).map_err(s), &[a])?;
    lists("bind_n", x.clone().bind_n([a, a]).map(|_| ()).map_err(s), &[b])?;
    let names = [b, "absent"];
    lists("bind_n_runtime", x.clone().bind_n_runtime(&names).map(|_| ()).map_err(s), &[a])?;
    lists("bind", x.clone().bind("absent").map(|_| ()).map_err(s), &[a, b])?;
    // the values of a slice go to the names in order; the missing one is named
    let names = [a, b];
    let r = x.clone().bind_n_runtime(&names).map_err(s)?;
    lists("call with one value", r(&[1.0]).map(|_| ()).map_err(s), &[b])
}

fn c10(a: &str, b: &str) -> Outcome {
    use miette::Diagnostic;
    for (t, vars) in [(format!("{a}+2*{b}-{a}"), vec![a, b]), (format!("{b}^2"), vec![b]), (format!("max({a},{a},1)"), vec![a])] {
        let x = plain().parse(&t).map_err(s)?;
        if x.vars.len() != vars.len() || !vars.iter().all(|v| x.vars.contains(v)) {
            return Err(format!("{t} has variables {:?}", x.vars));
        }
        for list in [vec![], vec![a], vec![b], vec![a, b], vec!["absent"]] {
            let ok = vars.iter().all(|v| list.contains(v));
            let p = Parser::new_with_ctx(Context::default().with_expected_vars(list.iter().map(|l| intern(l)).collect()));
            match p.parse(&t) {
                Ok(_) if ok => {}
                Ok(_) => return Err(format!("{t} accepted with expected variables {list:?}")),
                Err(e) if ok => return Err(format!("{t} rejected with expected variables {list:?}: {e}")),
                Err(e) => {
                    let m = s(&e);
                    let name = m.split('`').nth(1).unwrap_or("");
                    if list.contains(&name) || !vars.contains(&name) {
                        return Err(format!("{t} with expected variables {list:?}: `{m}`"));
                    }
                    let help = e.help().map(|h| h.to_string()).unwrap_or_default();
                    let mut offered: Vec<&str> = help.split('`').skip(1).step_by(2).filter(|s| !s.is_empty()).collect();
                    offered.sort_unstable();
                    let mut want = list.clone();
                    want.sort_unstable();
                    if offered != want {
                        return Err(format!("{t}: `{help}` offers {offered:?}, allowed are {want:?}"));
                    }
                }
            }
        }
        let y = x.clone().simplify_for((a, 2.0));
        let left: Vec<&&str> = vars.iter().filter(|v| **v != a).collect();
        if y.vars.len() != left.len() || !left.iter().all(|v| y.vars.contains(**v)) {
            return Err(format!("{t} simplified for {a} has variables {:?}", y.vars));
        }
    }
    Ok(())
}

fn c11(a: &str, b: &str) -> Outcome {
    let (a, b) = (intern(a), intern(b));
    let f = |k: f64| move |x: &[f64]| x[0] * k;
    // two constants
    let mut c = Context::default().with_var(a, 2.0).with_var(b, 5.0);
    let look = |c: &Context, n: &str| match c.get(n) {
        Some(Symbol::Variable(v)) => Some(*v),
        _ => None,
    };
    let func = |c: &Context, n: &str| match c.get(n) {
        Some(Symbol::Function(g)) => Some(g.name),
        _ => None,
    };
    if look(&c, a) != Some(2.0) || look(&c, b) != Some(5.0) {
        return Err(format!("constants are {:?} and {:?}, expected 2 and 5", look(&c, a), look(&c, b)));
    }
    val("two constants", Parser::new_with_ctx(c.clone()).parse(&format!("{a}-{b}")).map_err(s).and_then(|x| x.eval_no_vars().map_err(s)), -3.0)?;
    // one overwritten
    c.set_var(a, 4.0);
    if look(&c, a) != Some(4.0) || look(&c, b) != Some(5.0) {
        return Err(format!("after setting one constants are {:?} and {:?}, expected 4 and 5", look(&c, a), look(&c, b)));
    }
    // one of them only
    let c = Context::default().with_var(a, 2.0);
    if c.get(b).is_some() {
        return Err("a constant answers to the other name".to_owned());
    }
    val("one a constant, one a variable", Parser::new_with_ctx(c).parse(&format!("{a}-{b}")).map_err(s).and_then(|x| x.eval(&HashMap::from([(b, 1.0)])).map_err(s)), 1.0)?;
    // two functions
    let c = Context::default().with_fn(Function::new_dyn(a, f(2.0), Some(1))).with_fn(Function::new_dyn(b, f(5.0), Some(1)));
    if func(&c, a) != Some(a) || func(&c, b) != Some(b) {
        return Err("functions are confused".to_owned());
    }
    val("two functions", Parser::new_with_ctx(c).parse(&format!("{a}(3)-{b}(1)")).map_err(s).and_then(|x| x.eval_no_vars().map_err(s)), 1.0)?;
    // a function and a constant
    let c = Context::default().with_fn(Function::new_dyn(a, f(2.0), Some(1))).with_var(b, 5.0);
    val("a function and a constant", Parser::new_with_ctx(c).parse(&format!("{a}(3)-{b}")).map_err(s).and_then(|x| x.eval_no_vars().map_err(s)), 1.0)?;
    // contexts that define one or the other differ
    let one = Context::default().with_var(a, 2.0);
    let other = Context::default().with_var(b, 2.0);
    if one == other || one != Context::default().with_var(a, 2.0) {
        return Err("equality of contexts doesn't go by names".to_owned());
    }
    // expected variables
    let one = Context::default().with_expected_vars([a].into());
    let other = Context::default().with_expected_vars([b].into());
    if one == other {
        return Err("equality of contexts doesn't go by expected names".to_owned());
    }
    Ok(())
}

fn c12(a: &str, b: &str) -> Outcome {
    let (a, b) = (intern(a), intern(b));
    let c = Context::default().with_fn(Function::new_dyn(a, |x: &[f64]| x[0] - x[1] * 2.0, Some(2))).with_fn(Function::new_dyn(b, |x: &[f64]| x.len() as f64 * 10.0, None));
    let p = Parser::new_with_ctx(c);
    let ev = |t: &str| p.parse(t).map_err(s).and_then(|x| x.eval(&HashMap::from([("arg0", 3.0)])).map_err(s));
    val("a call", ev(&format!("{a}(arg0,1)")), 1.0)?;
    val("a call", ev(&format!("{b}(arg0,1,arg0)")), 30.0)?;
    val("nested", ev(&format!("{a}({b}(arg0),{a}(1,{b}()))")), 10.0 - 2.0)?;
    for t in [format!("{a}(arg0)"), format!("{a}(arg0,arg0,arg0)"), format!("{a}()")] {
        if p.parse(&t).is_ok() {
            return Err(format!("{t} accepted"));
        }
    }
    Ok(())
}

fn c15(a: &str, b: &str) -> Outcome {
    let (a, b) = (intern(a), intern(b));
    let env = HashMap::from([(a, 7.0), (b, 0.25)]);
    let p = plain();
    for t in [format!("{a}-{b}"), format!("{a}({b})-{b}"), format!("2{a}^-{b}"), format!("min({a}*2,{b})")] {
        let x = p.parse(&t).map_err(s)?;
        let shown = x.to_string();
        let y = p.parse(&shown).map_err(|e| format!("{t} prints `{shown}`: {e}"))?;
        val(&format!("{t} printed and parsed"), y.eval(&env).map_err(s), x.eval(&env).map_err(s)?)?;
        let z = x.clone().simplify_for((a, -3.0));
        let shown = z.to_string();
        let y = p.parse(&shown).map_err(|e| format!("{t}, simplified, prints `{shown}`: {e}"))?;
        val(&format!("{t} simplified, printed and parsed"), y.eval(&env).map_err(s), z.eval(&env).map_err(s)?)?;
    }
    let c = Context::default().with_fn(Function::new_dyn(a, |x: &[f64]| x[0] * 2.0, Some(1))).with_fn(Function::new_dyn(b, |x: &[f64]| x[0] * 3.0, Some(1)));
    let p = Parser::new_with_ctx(c);
    let env = HashMap::from([("arg0", 5.0)]);
    let t = format!("{a}({b}(arg0))-{b}(arg0+1)");
    let x = p.parse(&t).map_err(s)?;
    let shown = x.to_string();
    let y = p.parse(&shown).map_err(|e| format!("prints `{shown}`: {e}"))?;
    val("calls printed and parsed", y.eval(&env).map_err(s), 30.0 - 18.0)
}

fn c20(a: &str, b: &str) -> Outcome {
    let (a, b) = (intern(a), intern(b));
    let p = plain();
    for (t, u) in [(format!("x-{a}"), format!("x-{b}")), (a.to_owned(), b.to_owned()), (format!("sin({a})"), format!("sin({b})")), (format!("{a}-{b}"), format!("{b}-{a}")), (format!("min({a},{b})"), format!("min({a},{a})"))] {
        let (x, y) = (p.parse(&t).map_err(s)?, p.parse(&u).map_err(s)?);
        if x == y || y == x || !(x != y) {
            return Err(format!("{t} and {u} compare equal"));
        }
        if x != x.clone() || p.parse(&t).map_err(s)? != x {
            return Err(format!("{t} isn't equal to itself"));
        }
    }
    let c = Context::default().with_fn(Function::new_dyn(a, |x: &[f64]| x[0] * 2.0, Some(1))).with_fn(Function::new_dyn(b, |x: &[f64]| x[0] * 3.0, Some(1)));
    let p = Parser::new_with_ctx(c);
    let (t, u) = (format!("{a}(arg0)"), format!("{b}(arg0)"));
    let (x, y) = (p.parse(&t).map_err(s)?, p.parse(&u).map_err(s)?);
    if x == y || y == x {
        return Err("calls of two functions compare equal".to_owned());
    }
    Ok(())
}
