//! C14: where and what of parse errors.
use crate::model::{self, Kind, MErr};
use crate::rt::{Outcome, Rt, Stats};
use crate::util::*;
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme};
use xprs::{ParseError, Parser};

/// The error carries its source and points inside it.
fn sound(e: &ParseError, text: &str) -> Result<(usize, usize), String> {
    let (off, len) = err_span(e).ok_or("not exactly one label")?;
    if off + len > text.len() || !text.is_char_boundary(off) || !text.is_char_boundary(off + len) {
        return Err(format!("location {off}+{len} is not inside the text on character boundaries"));
    }
    let src = e.source_code().ok_or("no source text")?;
    let c = src.read_span(&(0, text.len()).into(), 0, 0).map_err(|x| format!("source text: {x}"))?;
    if c.data() != text.as_bytes() {
        return Err(format!("carries the text {:?}", String::from_utf8_lossy(c.data())));
    }
    Ok((off, len))
}

fn compare(e: &ParseError, w: &MErr, text: &str) -> Outcome {
    let want = w.kind.message();
    if e.to_string() != want {
        return Err(format!("`{e}`, expected `{want}`"));
    }
    let (off, len) = sound(e, text)?;
    // a single character may be marked by its place or as a whole
    let wide = match w.kind {
        Kind::End | Kind::Unexpected(_) | Kind::Illegal(_) | Kind::Expected(_) => text[w.off..].chars().next().map_or(0, char::len_utf8),
        _ => w.len,
    };
    if off != w.off || !(len == w.len || len == wide) {
        return Err(format!("`{e}` is located at {off}+{len}, expected {}+{}", w.off, w.len));
    }
    Ok(())
}

fn render(e: ParseError, text: &str) -> Outcome {
    let msg = e.to_string();
    let (off, _) = sound(&e, text)?;
    let line = text[..off].rfind('\n').map_or(0, |p| p + 1);
    let line: &str = text[line..].split(['\n', '\r']).next().unwrap_or("");
    let mut out = String::new();
    GraphicalReportHandler::new_themed(GraphicalTheme::none())
        .with_width(100_000)
        .render_report(&mut out, &e)
        .map_err(|x| format!("rendering: {x}"))?;
    if !out.contains(&msg) {
        return Err(format!("the rendered diagnostic does not show `{msg}`:\n{out}"));
    }
    if line.bytes().all(|b| (0x20..0x7f).contains(&b)) && !out.contains(line.trim_end()) {
        return Err(format!("the rendered diagnostic does not show the line `{line}`:\n{out}"));
    }
    let dbg = format!("{:?}", miette::Report::new(e));
    if dbg.is_empty() {
        return Err("empty report".into());
    }
    Ok(())
}

fn one(text: &str, parser: &Parser, m: &model::MCtx, full: bool, stats: &mut Stats) -> Outcome {
    let want = model::parse_observed(text, m, Some(stats));
    let got = parser.parse(text);
    match (want, got) {
        (Ok(_), Ok(_)) => {
            stats.inc("accepted");
            Ok(())
        }
        (Err(w), Err(e)) => {
            stats.inc(w.kind.tag());
            compare(&e, &w, text)?;
            if full {
                stats.inc("rendered");
                render(e, text)?;
            }
            Ok(())
        }
        (Err(w), Ok(x)) => Err(format!("accepted as {x}, expected `{}`", w.kind.message())),
        (Ok(_), Err(e)) => Err(format!("rejected with `{e}`, the text is well formed")),
    }
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let p = std_pair();
    match sub {
        "rendered" => one(data, &p.parser, &p.m, true, stats),
        "family" => one(&super::c01::family_text(data), &p.parser, &p.m, false, stats),
        "rendered-family" => one(&super::c01::family_text(data), &p.parser, &p.m, true, stats),
        "declared" => {
            // names outside the allowed list: the error still carries text and a sound location
            let mut q = p.parser.clone();
            let allowed = ["x", "y", "\u{e9}"];
            q.ctx_mut().set_expected_vars(allowed.into());
            match (model::parse(data, &p.m), q.parse(data)) {
                (Err(w), Err(e)) => compare(&e, &w, data),
                (Err(w), Ok(x)) => Err(format!("accepted as {x}, expected `{}`", w.kind.message())),
                (Ok(a), r) => {
                    let free: Vec<String> = match &r {
                        Ok(_) => vec![],
                        Err(_) => a.var_set().into_iter().filter(|v| !allowed.contains(v)).map(str::to_owned).collect(),
                    };
                    let Err(e) = r else {
                        stats.inc("accepted");
                        return Ok(());
                    };
                    let msg = e.to_string();
                    if !free.iter().any(|f| msg == Kind::NotDeclared(vec![f.clone()]).message()) {
                        return Err(format!("`{msg}`, not allowed are {free:?}"));
                    }
                    stats.inc("err:notdeclared");
                    sound(&e, data)?;
                    render(e, data)
                }
            }
        }
        _ => one(data, &p.parser, &p.m, false, stats),
    }
}

pub fn enumerate(rt: &mut Rt) {
    use Tok::T;
    let m = &std_pair().m;
    let wide = [
        "0", ".", "_", "'", "e", "x", "+", "-", "*", "^", "!", "(", ")", ",", " ", "\n", "\r", "\t", "\u{b}", "é", "€", "😀", "\u{a0}", "\u{301}", "\0", "\u{7f}", "=", "g", "v",
    ];
    all_strings(rt, "rendered", &wide, 2, "", "");
    all_strings(rt, "text", &wide, rt.pick(4, 5), "", "");
    for (p, s) in [("g(", ")"), ("v(1,", ")"), ("z(", ")"), ("h(x,", ")"), ("(x", ")"), ("é", ""), ("v(g(", "),h(1"), ("2 ", " 3"), ("1+v(x,é", ")"), ("v(h(1", "))"), ("g(v(", ")")] {
        all_strings(rt, "text", &wide, rt.pick(2, 3), p, s);
        all_strings(rt, "rendered", &wide, 1, p, s);
    }
    // every character, at several places
    for c in (0u32..0x3000).chain((0x3000..0x11_0000).step_by(if rt.quick() { 331 } else { 17 })) {
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{c}"), format!("x{c}"), format!("v(1,{c})"), format!("v(1{c}2)"), format!("-\t{c}y"), format!("sin {c}")] {
                rt.shared_case("text", &t);
            }
            if (c as u32) < 0x300 {
                rt.shared_case("rendered", &format!("v(1,\n{c})"));
            }
        }
    }
    // token strings, one token beyond the first mistake
    let toks = [T("x"), T("2"), T("-"), T("^"), T("!"), T("("), T(")"), T(","), T("g("), T("v("), T("h("), T("z"), T("k"), T(" "), T("1.2.3"), T("é"), T("\n")];
    Dfs { sub: "text", toks: &toks, nums: &NUMS, max: rt.pick(5, 6), ctx: m, apart: false, slack: 1, split: 2 }.run(rt);
    Dfs { sub: "rendered", toks: &toks, nums: &NUMS, max: rt.pick(3, 4), ctx: m, apart: false, slack: 2, split: 2 }.run(rt);
    Dfs { sub: "declared", toks: &[T("x"), T("q"), T("X"), T("y_"), T("2"), T("-"), T("v("), T(","), T(")"), T("é"), T("k")], nums: &NUMS, max: rt.pick(4, 6), ctx: m, apart: true, slack: 0, split: 2 }.run(rt);
    // calls in calls, arity mistakes at every depth
    let toks = [T("g"), T("h("), T("v("), T("z( "), T("("), T(")"), T(","), T("x"), T("-"), T("€")];
    Dfs { sub: "text", toks: &toks, nums: &NUMS, max: rt.pick(6, 7), ctx: m, apart: false, slack: 1, split: 2 }.run(rt);
    // mistakes made in well-formed texts
    let slips = ["1", "x", "-", "*", "!", "(", ")", ",", " ", ".", "g(", "v(", "h", "é", "_", "^"];
    edits(rt, "rendered", &BASES, &slips, 1);
    edits(rt, "text", if rt.quick() { &BASES[..9] } else { &BASES }, if rt.quick() { &slips[..10] } else { &slips }, 2);
    // literals
    all_strings(rt, "text", &["1", ".", "e", "E", "+", "-", "_", "x", "é"], rt.pick(5, 6), "", "");
    all_strings(rt, "text", &["1", ".", "e", "+", "_", " "], rt.pick(4, 5), "v(2.5-", ",é)");
    // far away: the same mistakes behind a long text
    for n in [1usize, 7, 100, 254, 255, 256, 257, 1000].into_iter().chain(magic(10_000)) {
        for core in ["", "é", ")", "1.1.1", "g()", "g(1,2)", "v(1,)", "v(1,(2,3))", "v(g(1$))", "sin", "sin x", "(x", "v(x", "x€", "h(1)", "z(1)", ",", "2 2", "(2€"] {
            for pre in ["x+", " ", "x*(1)-", "\n", "2x "] {
                rt.shared_case("family", &format!("{pre}|{core}||{n}"));
            }
        }
    }
    // in front of a long text, of wide characters too, and between two
    for n in super::text::sizes(rt.quick()).chain(magic(20_000)).chain([3000, 4095, 4096, 4097, 8191, 8192, 65_535, 65_536]) {
        for core in ["é", "x€", "😀", ")", "1..1", "g()", "sin ", "v(1,)", "v(x é", "(x é", "h(1)", "2 2", "$"] {
            for suf in ["é", "€", "😀", "\u{301}", "x", " ", "(", "\n", ",", "aé"] {
                // nesting is another matter
                if suf == "(" && n > 300 {
                    continue;
                }
                rt.shared_case("family", &format!("|{core}|{suf}|{n}"));
                if n < 5000 {
                    rt.shared_case("family", &format!("2-x+|{core}|{suf}|1|{n}"));
                    rt.shared_case("family", &format!("x+|{core}|{suf}|{n}"));
                    rt.shared_case("family", &format!("v(|{core}|{suf}|{}|{n}", n.min(300)));
                }
            }
        }
    }
    // rendered too, up to where the underlying renderer cannot indent any further
    for n in [1usize, 2, 20, 79, 80, 81, 120, 500, 1000, 4095, 4096, 8000, 16_000] {
        for core in ["", "é", ")", "1.1.1", "g()", "v(1,)", "sin x", "(x", "v(x", "x€", "z(1)", "2 2", "😀"] {
            for pre in ["x+", " ", "\t", "\n", "-(1)"] {
                if pre.len() * n < 20_000 {
                    rt.shared_case("rendered-family", &format!("{pre}|{core}||{n}"));
                }
            }
        }
    }
    for n in [65_530usize, 65_536, 70_000] {
        for core in ["é", ")", "1.1.1", "g()", "v(1,)", "sin x", "(x", "v(x"] {
            rt.shared_case("family", &format!(" |{core}||{n}"));
        }
    }
    for f in super::c01::NEST {
        for n in [1usize, 2, 3, 17, 64, 128, 256] {
            for (a, b) in [(n, n - 1), (n, n + 1), (n, 0), (n, n)] {
                rt.shared_case("family", &format!("{f}|{a}|{b}"));
            }
        }
    }
}
