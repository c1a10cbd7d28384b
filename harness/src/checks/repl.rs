//! C18: sessions with the real interactive program.
use crate::model::{self, same, Env};
use crate::rt::{Fnv, Outcome, Rt, Stats};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

extern "C" {
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

const PATIENCE_MS: i32 = 60_000;
const PROMPT: &str = ">> ";

fn program() -> &'static str {
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| std::env::var("XPRS_REPL").expect("XPRS_REPL"))
}

fn start(stats: &mut Stats) -> Result<Child, String> {
    stats.inc("sessions");
    Command::new(program())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .env_clear()
        .env("TERM", "dumb")
        .spawn()
        .map_err(|e| format!("machinery: {e}"))
}

/// What the library makes of a line.
enum Expect {
    Exit,
    Value { shown: String, vars: BTreeSet<String> },
    Error(String),
}

fn expect(line: &str) -> Expect {
    if line.trim() == "exit" {
        return Expect::Exit;
    }
    let full = format!("{line}\n");
    match plain_pair().parser.parse(&full) {
        Ok(x) => Expect::Value { shown: x.to_string(), vars: x.vars.iter().map(|s| (*s).to_owned()).collect() },
        Err(e) => Expect::Error(e.to_string()),
    }
}

fn value(line: &str, given: &BTreeMap<String, f64>) -> Option<f64> {
    let env: Env = given.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    model::parse(line, &plain_pair().m).ok()?.eval(&with_all(line, &env))
}

/// Variables the program need not ask for (they don't matter for the value).
fn with_all<'a>(line: &str, env: &Env<'a>) -> Env<'a> {
    let mut e = env.clone();
    if let Ok(ast) = model::parse(line, &plain_pair().m) {
        for n in ast.var_set() {
            e.entry(intern(n)).or_insert(0.5);
        }
    }
    e
}

/// Letters, digits and the like: what is left of a message once it was wrapped and framed.
fn skeleton(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !('\u{2500}'..='\u{25ff}').contains(c)).collect()
}

/// The answer to one line: `said` is everything printed after the line was read.
fn judge(line: &str, want: &Expect, said: &str, given: &BTreeMap<String, f64>) -> Outcome {
    match want {
        Expect::Exit => Ok(()),
        Expect::Error(msg) => {
            if !skeleton(said).contains(&skeleton(msg)) {
                return Err(format!("line {line:?} isn't answered with its error ({msg}): {said:?}"));
            }
            if said.contains("Evaluated") || said.contains("Interpreted") {
                return Err(format!("the malformed line {line:?} is answered with {said:?}"));
            }
            Ok(())
        }
        Expect::Value { shown, .. } => {
            let first = said.lines().next().unwrap_or("");
            if first != format!("Interpreted as: {shown}") {
                return Err(format!("line {line:?}: interpreted as {first:?}, expected {shown:?}"));
            }
            let got = said.rsplit_once("Evaluated: ").map(|(_, v)| v.trim_end()).ok_or_else(|| format!("line {line:?} has no value: {said:?}"))?;
            let v: f64 = got.parse().map_err(|_| format!("line {line:?}: value {got:?}"))?;
            if let Some(w) = value(line, given) {
                if !same(v, w) && !(v == w) && (w.is_finite() || v.is_nan()) {
                    return Err(format!("line {line:?}: value {v:?}, expected {w:?} with {given:?}"));
                }
                // what is printed is the number itself
                if !v.is_nan() && format!("{v:#?}") != got {
                    return Err(format!("line {line:?}: value printed as {got:?}"));
                }
            }
            Ok(())
        }
    }
}

/// The bytes of an answer, whatever the order of the variables.
fn canonical(said: &str) -> u64 {
    let mut b: Vec<u8> = said.bytes().collect();
    b.sort_unstable();
    let mut h = Fnv::new();
    h.bytes(&b);
    h.0
}

fn fresh_answers() -> &'static Mutex<HashMap<String, u64>> {
    static F: OnceLock<Mutex<HashMap<String, u64>>> = OnceLock::new();
    F.get_or_init(Mutex::default)
}

const BATCH_VALUE: &str = "1.5";

/// Everything written at once; the output is cut at the prompts.
fn batch(lines: &[&str], cut: bool, stats: &mut Stats) -> Result<Vec<String>, String> {
    let mut input = String::new();
    for (i, l) in lines.iter().enumerate() {
        input.push_str(l);
        let last = i + 1 == lines.len();
        if !(last && cut) {
            input.push('\n');
        }
        if let Expect::Value { vars, .. } = expect(l) {
            for (k, _) in vars.iter().enumerate() {
                if k == 0 && last && cut {
                    input.push('\n');
                }
                input.push_str(BATCH_VALUE);
                if !(last && cut && k + 1 == vars.len()) {
                    input.push('\n');
                }
            }
        }
    }
    let mut c = start(stats)?;
    let mut stdin = c.stdin.take().unwrap();
    let writer = std::thread::spawn(move || {
        // the program may have ended before
        let _ = stdin.write_all(input.as_bytes());
    });
    let mut out = vec![];
    let r = c.stdout.take().unwrap().read_to_end(&mut out);
    let _ = writer.join();
    let st = c.wait().map_err(|e| format!("machinery: {e}"))?;
    r.map_err(|e| format!("machinery: {e}"))?;
    let out = String::from_utf8_lossy(&out).into_owned();
    if !st.success() {
        return Err(format!("the session ended with {st}; output: {:?}", tail(&out)));
    }
    Ok(out.split(PROMPT).map(str::to_owned).collect())
}

fn tail(s: &str) -> &str {
    let mut k = s.len().saturating_sub(400);
    while !s.is_char_boundary(k) {
        k += 1;
    }
    &s[k..]
}

fn run_batch(lines: &[&str], cut: bool, stats: &mut Stats) -> Outcome {
    // an empty line without its end is no line
    let lines = if cut && lines.last() == Some(&"") { &lines[..lines.len() - 1] } else { lines };
    let cut = cut && lines.last() != Some(&"");
    let seg = batch(lines, cut, stats)?;
    let upto = lines.iter().position(|l| matches!(expect(l), Expect::Exit));
    // one prompt a line, and one more where the input ends
    let prompts = upto.map_or(lines.len() + 1, |k| k + 1);
    if seg.len() != prompts + 1 {
        return Err(format!("{} prompts, expected {prompts}: {:?}", seg.len() - 1, tail(&seg.join(PROMPT))));
    }
    for (i, l) in lines.iter().enumerate().take(upto.unwrap_or(lines.len())) {
        stats.inc("lines_answered");
        let want = expect(l);
        let given: BTreeMap<String, f64> = match &want {
            Expect::Value { vars, .. } => vars.iter().map(|v| (v.clone(), 1.5)).collect(),
            _ => BTreeMap::new(),
        };
        judge(l, &want, &seg[i + 1], &given).map_err(|e| format!("line {}: {e}", i + 1))?;
        if let Expect::Value { vars, .. } = &want {
            let mut asked: BTreeMap<&str, usize> = BTreeMap::new();
            // a question starts a line or follows another one
            for mut line in seg[i + 1].lines() {
                while let Some((v, rest)) = vars.iter().find_map(|v| Some((v, line.strip_prefix(v.as_str())?.strip_prefix(": ")?))) {
                    *asked.entry(v).or_default() += 1;
                    line = rest;
                }
            }
            for v in vars {
                let n = asked.get(v.as_str()).copied().unwrap_or(0);
                // the labels of the answer look like questions for these
                let label = ["Variables", "Evaluated"].contains(&v.as_str());
                if n != 1 && !(label && n == 2) {
                    return Err(format!("line {}: asked {n} times for {v}: {:?}", i + 1, seg[i + 1]));
                }
            }
        }
        // the same answer as in a session of its own
        let short = cut && i + 1 == lines.len();
        let key = format!("{short}{l}");
        let known = fresh_answers().lock().unwrap().get(&key).copied();
        let fresh = match known {
            Some(f) => f,
            None => {
                let s = batch(&[l], short, stats)?;
                let f = canonical(s.get(1).map_or("", String::as_str));
                fresh_answers().lock().unwrap().insert(key, f);
                f
            }
        };
        if canonical(&seg[i + 1]) != fresh {
            return Err(format!("line {} ({l:?}) is answered {:?}, differently from a session of its own", i + 1, seg[i + 1]));
        }
    }
    Ok(())
}

struct Talk {
    child: Child,
    stdin: Option<ChildStdin>,
    stdout: ChildStdout,
}

enum Heard {
    /// Text before the prompt.
    Main(String),
    Ask(String, String),
    End(String),
}

impl Talk {
    fn new(stats: &mut Stats) -> Result<Self, String> {
        let mut child = start(stats)?;
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        Ok(Self { child, stdin, stdout })
    }
    fn say(&mut self, s: &str) -> Outcome {
        let r = self.stdin.as_mut().expect("open").write_all(format!("{s}\n").as_bytes());
        r.map_err(|e| format!("the program doesn't read {s:?} any more: {e}"))
    }
    /// Reads on to a prompt, or to the end.
    fn hear(&mut self, asked: &BTreeSet<String>) -> Result<Heard, String> {
        let mut buf: Vec<u8> = vec![];
        loop {
            let mut p = PollFd { fd: self.stdout.as_raw_fd(), events: 1, revents: 0 };
            if unsafe { poll(&mut p, 1, PATIENCE_MS) } <= 0 {
                return Err(format!("neither a prompt nor an end after {:?}", tail(&String::from_utf8_lossy(&buf))));
            }
            let mut b = [0u8; 65536];
            let n = self.stdout.read(&mut b).map_err(|e| format!("machinery: {e}"))?;
            buf.extend(&b[..n]);
            let s = String::from_utf8_lossy(&buf).into_owned();
            if n == 0 {
                return Ok(Heard::End(s));
            }
            let start = s.rfind('\n').map_or(0, |k| k + 1);
            let line = &s[start..];
            if line == PROMPT {
                return Ok(Heard::Main(s[..start].to_owned()));
            }
            if let Some(v) = line.strip_suffix(": ") {
                if asked.contains(v) {
                    return Ok(Heard::Ask(v.to_owned(), s[..start].to_owned()));
                }
            }
        }
    }
    fn end(mut self, want_closed: bool) -> Outcome {
        if want_closed {
            drop(self.stdin.take());
        }
        match self.hear(&BTreeSet::new())? {
            Heard::End(_) => {}
            Heard::Main(_) | Heard::Ask(..) => return Err("the program asks for more after its end".into()),
        }
        let st = self.child.wait().map_err(|e| format!("machinery: {e}"))?;
        if !st.success() {
            return Err(format!("the session ended with {st}"));
        }
        Ok(())
    }
}

impl Drop for Talk {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Line by line; `bad`: unusable answers given before each usable one; `leave`: the input ends at
/// this question (0: at none).
fn run_talk(lines: &[&str], bad: &[&str], leave: usize, stats: &mut Stats) -> Outcome {
    let mut t = Talk::new(stats)?;
    let none = BTreeSet::new();
    match t.hear(&none)? {
        Heard::Main(_) => {}
        _ => return Err("no prompt at the start".into()),
    }
    let mut questions = 0;
    for (i, l) in lines.iter().enumerate() {
        stats.inc("lines_answered");
        let fail = |e: String| format!("line {} ({l:?}): {e}", i + 1);
        let want = expect(l);
        t.say(l).map_err(fail)?;
        let vars = match &want {
            Expect::Exit => return t.end(false).map_err(fail),
            Expect::Value { vars, .. } => vars.clone(),
            Expect::Error(_) => BTreeSet::new(),
        };
        let mut left = vars.clone();
        let mut given = BTreeMap::new();
        let mut said = String::new();
        loop {
            match t.hear(&vars).map_err(fail)? {
                Heard::Main(s) => {
                    said.push_str(&s);
                    break;
                }
                Heard::End(_) => return Err(fail("the program ended".into())),
                Heard::Ask(v, s) => {
                    said.push_str(&s);
                    if !left.contains(&v) {
                        return Err(fail(format!("asked for {v} again")));
                    }
                    questions += 1;
                    if leave == questions {
                        return t.end(true).map_err(fail);
                    }
                    let mut now = v;
                    for b in bad.iter().filter(|b| !b.starts_with('@')) {
                        t.say(b).map_err(fail)?;
                        match t.hear(&vars).map_err(fail)? {
                            Heard::Ask(w, _) if left.contains(&w) => now = w,
                            _ => return Err(fail(format!("after the answer {b:?} no variable is asked for"))),
                        }
                    }
                    left.remove(&now);
                    let x = match bad.iter().find_map(|b| b.strip_prefix('@')) {
                        // this answer, to every question
                        Some(answer) => {
                            t.say(answer).map_err(fail)?;
                            answer.trim().parse().map_err(|_| "data")?
                        }
                        None => {
                            let x = var_value(i, &now);
                            t.say(&format!(" {x:?}\t")).map_err(fail)?;
                            x
                        }
                    };
                    given.insert(now, x);
                }
            }
        }
        if !left.is_empty() {
            return Err(fail(format!("not asked for {left:?}")));
        }
        judge(l, &want, &said, &given).map_err(fail)?;
    }
    t.end(true)
}

pub fn run(sub: &str, data: &str, stats: &mut Stats) -> Outcome {
    let (opts, rest) = data.split_once('\u{2}').ok_or("data")?;
    let lines: Vec<&str> = if rest.is_empty() { vec![] } else { rest.strip_suffix('\u{1}').ok_or("data")?.split('\u{1}').collect() };
    let expanded: Vec<String> = lines.iter().map(|l| if let Some(f) = l.strip_prefix('\u{3}') { super::c01::family_text(f) } else { (*l).to_owned() }).collect();
    let lines: Vec<&str> = expanded.iter().map(String::as_str).collect();
    match sub {
        "batch" => run_batch(&lines, false, stats),
        "cut" => run_batch(&lines, true, stats),
        "talk" => {
            let (leave, bad) = opts.split_once(' ').unwrap_or((opts, ""));
            let bad: Vec<&str> = if bad.is_empty() { vec![] } else { bad.split('|').map(|b| if b == "_" { "" } else { b }).collect() };
            run_talk(&lines, &bad, leave.parse().map_err(|_| "data")?, stats)
        }
        _ => Err("machinery: sub".into()),
    }
}

fn pack(opts: &str, lines: &[&str]) -> String {
    let mut s = format!("{opts}\u{2}");
    for l in lines {
        s.push_str(l);
        s.push('\u{1}');
    }
    s
}

fn all_sequences(alphabet: &[&'static str], n: usize, f: &mut dyn FnMut(&[&'static str])) {
    let mut idx = vec![0; n];
    loop {
        let v: Vec<&str> = idx.iter().map(|&k| alphabet[k]).collect();
        f(&v);
        let mut k = n;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < alphabet.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

pub fn enumerate(rt: &mut Rt) {
    const SMALL: [&str; 12] = ["1+2", "x*y-x", "0*q+3", "1+", "\u{e9}+1", "", "exit", " exit\t", "sin(x)", "exit_", "2..3", "hypot(1)"];
    const LINES: [&str; 40] = [
        "1+2", "  2 * 3  ", "pi", "x", "x*y-x", "0*q+3", "-(a-b)^c/d", "sin(x)", "e", "1/0", "0/0", "-1/0", "(-8)^(1/3)", "1e300*1e300", "0.1+0.2", "exit_", "exitt", "Exit", "EXIT", "exit+1", "2exit", "exit exit", "1+", "", "   ", "\t", ")", "\u{e9}+1", "x\u{1f600}", "2..3", "hypot(1)", "exit(", ";", "\u{a0}", "exit", "  exit", "exit\t ", "exit\r", "quit", "x'y_z1+X",
    ];
    for n in 0..=3 {
        if n == 0 {
            rt.shared_case("batch", &pack("", &[]));
            rt.shared_case("talk", &pack("0", &[]));
            continue;
        }
        all_sequences(&SMALL, n, &mut |l| {
            rt.shared_case("batch", &pack("", l));
            if n < 3 || !rt.quick() {
                rt.shared_case("cut", &pack("", l));
                rt.shared_case("talk", &pack("0", l));
            }
        });
    }
    for a in LINES {
        rt.shared_case("batch", &pack("", &[a]));
        rt.shared_case("cut", &pack("", &[a]));
        rt.shared_case("talk", &pack("0", &[a]));
        for b in LINES {
            rt.shared_case("batch", &pack("", &[a, b]));
            rt.shared_case("batch", &pack("", &[a, b, a]));
            if !rt.quick() {
                rt.shared_case("talk", &pack("0", &[a, b, a]));
                for c in LINES {
                    rt.shared_case("batch", &pack("", &[a, b, c]));
                }
            }
        }
    }
    if !rt.quick() {
        all_sequences(&SMALL, 4, &mut |l| rt.shared_case("batch", &pack("", l)));
    }
    // answers that aren't numbers, and the input ending at a question
    for l in ["x", "x*y-x", "-(a-b)^c/d", "exit+1", "sin(x)", "v_+w_+x_+y_+z_"] {
        for bad in ["", "one", "_", "_|_", "1,5|2 3", "x|=|0x10", "1_000", "\u{e9}", "--1|1e|.|+"] {
            for before in [&[] as &[&'static str], &["1+"], &["q"], &["1+2", "x+1"]] {
                let k: usize = before.iter().map(|b| if let Expect::Value { vars, .. } = expect(b) { vars.len() } else { 0 }).sum();
                let mut v = before.to_vec();
                v.push(l);
                rt.shared_case("talk", &pack(&format!("0 {bad}"), &v));
                for leave in 1..=k + 5 {
                    rt.shared_case("talk", &pack(&format!("{leave} {bad}"), &v));
                }
                v.push("x+2");
                v.push("exit");
                rt.shared_case("talk", &pack(&format!("0 {bad}"), &v));
            }
        }
    }
    for bad in ["exit", " exit ", "quit", "5;", "5,", "5 6", "(5)", "x", "y", "pi", "2+3", "5.0.0", "5x", "x5", "\"5\"", "5%", "-", "+", "+-5", "e", "1e", "1e+", ".", "0x1F", "5f64", "1__0", "_1", "=", "x=5", "5!", ":5", "5\u{e9}", "\u{663}", "-|exit|5;", "a value", "1+", ")", "exit exit"] {
        for l in ["x", "x*y-x", "1-abc"] {
            rt.shared_case("talk", &pack(&format!("0 {bad}"), &[l, "x+2", l, "exit"]));
            rt.shared_case("talk", &pack(&format!("2 {bad}"), &["1+2", l, l, l]));
        }
    }
    for good in ["5", "-5", "5.0", "5.", ".5", "-.5", "1e3", "1E-3", "1e+3", " 5", "5 ", "\t5\t ", "0", "-0", "-0.0", "00012", "0.1", "123456789012345678901234567890", "1e308", "5e-324", "9007199254740993", "0.30000000000000004", "3.141592653589793238462643383279502884197", "1e-400"] {
        for l in ["x", "x*y-x", "1/(x-y)+x", "abc!", "x^-y"] {
            rt.shared_case("talk", &pack(&format!("0 @{good}"), &[l, "1+", l]));
            rt.shared_case("talk", &pack(&format!("0 one|@{good}"), &[l]));
        }
    }
    // any character before or after a number, as the standard library reads it
    let mut unusable = vec![];
    for c in (0x20..0x7f_u8).map(char::from).filter(|c| !['|', '@', '_'].contains(c)) {
        for t in [format!("5{c}"), format!("{c}5"), format!("2.5{c}"), format!("1{c}5"), format!("in{c}"), format!("na{c}"), format!("1e5{c}"), format!("5 {c}"), format!("{c}{c}"), c.to_string()] {
            if t.trim().parse::<f64>().is_ok() {
                rt.shared_case("talk", &pack(&format!("0 @{t}"), &["x*y-x"]));
            } else {
                unusable.push(t);
            }
        }
    }
    for group in unusable.chunks(24) {
        rt.shared_case("talk", &pack(&format!("0 {}", group.join("|")), &["x-y", "1+2"]));
    }
    for good in ["inf", "-inf", "+inf", "INF", "Inf", "infinity", "-Infinity", "INFINITY", "nan", "NaN", "NAN", "-nan", "+5", "+.5", "1e0005", "1e-0005"] {
        rt.shared_case("talk", &pack(&format!("0 @{good}"), &["x", "1/x", "x*y-x"]));
    }
    // every beginning and every end of a line, and words other programs of this kind know
    let printable: Vec<String> = (0x20..0x7f_u8).map(|b| char::from(b).to_string()).collect();
    let mut lines: Vec<String> = vec![];
    for a in &printable {
        lines.extend([a.clone(), format!("{a}1"), format!(" {a} "), format!("1{a}"), format!("1 {a}"), format!("x{a}2"), format!("{a}exit"), format!("exit{a}"), format!("exit {a}"), format!("{a} exit")]);
        for b in &printable {
            lines.extend([format!("{a}{b}"), format!("{a}{b}1+2"), format!("{a}{b} text"), format!("2+3{a}{b}")]);
        }
    }
    for w in [
        "help", "?", "h", "q", ":q", "quit", "quit()", "exit()", "exit;", "exit.", "exit!", "bye", "end", "stop", "clear", "cls", "reset", "history", "!!", "vars", "ans", "_", "ans+1", "last", "let x = 2", "x=2", "x = 2", "def f(x)=x",
        "#", "# text", "//", "// text", "--", "-- text", ";", "; text", "%", "% text", "rem", "rem text", "/* text */", "\\q", "\\", ":help", ":exit", ".exit", ".help", "print 2", "1;2", "1:2", "1,2", "1|2", "1&2", "2**3", "2//3", "1==1", "x:=2", "$", "$1", "@", "~", "`", "'", "\"", "\"exit\"",
        "'exit'", "exit # text", "1+2 # text", "1+2 // text", "1+2;", "1+2 =", "=1+2", "e x i t", "exit\u{a0}", "\u{a0}exit", "\u{feff}1+2", "\u{feff}exit", "e\u{301}xit", "\u{1b}[A", "\u{1}", "\u{4}", "\u{8}x", "1\u{8}", "\u{7f}", "\u{0}", "\u{0}exit", "exit\u{0}", "\u{b}1+2", "\u{c}1+2", "1+2\u{c}", "\u{b}exit", "exit\u{b}", "exit\u{c}", "\u{c}exit", "\u{85}exit", "exit\u{2028}",
        "nan", "inf", "NaN", "true", "false", "null", "none", "None", "ok", "y", "n", "yes", "no", "undo", "load f", "save f", "pi=3", "mode", "degrees", "debug", "ast", "tree", "time 1+2",
    ] {
        lines.push(w.to_owned());
    }
    // labels of the answers excepted
    for w in dict_names().filter(|w| !["Evaluated", "Interpreted", "Variables"].contains(w)) {
        lines.extend([w.to_owned(), format!(" {w} "), format!(":{w}"), format!("/{w}"), format!("{w} 1+2"), w.to_ascii_uppercase()]);
    }
    // the report of an error shows the line, and must not look like a prompt
    lines.retain(|l| !l.contains(PROMPT.trim_end()));
    let mut session: Vec<&'static str> = vec![];
    let n = lines.len();
    for (k, l) in lines.into_iter().enumerate() {
        let l = intern(&l);
        let exit = matches!(expect(l), Expect::Exit);
        session.push(l);
        if exit || session.len() >= 32 || k + 1 == n {
            session.push("1+2");
            rt.shared_case("batch", &pack("", &session));
            session.clear();
        }
    }
    // very long lines
    for n in [500, 1000, 1020, 1022, 1023, 1024, 1025, 2048, 4090, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16_384, 32_768, 65_530, 65_534, 65_535, 65_536, 65_537, 100_000].into_iter().chain(magic(60_000)) {
        for f in [" |1+2|", "|a|b", "|0.|3", " |x-1|", "|1+2| ", " |1+|", "|1-(2| ", "\t|\u{e9}|", " |exit|", "|exit| "] {
            // an error beyond column 65535 is a recorded finding (known_findings.json)
            if n > 16_000 && matches!(expect(&super::c01::family_text(&format!("{f}|{n}"))), Expect::Error(_)) {
                continue;
            }
            let t: &'static str = intern(&format!("\u{3}{f}|{n}"));
            rt.shared_case("batch", &pack("", &["1+2", t, "3*4", t, "x"]));
            rt.shared_case("cut", &pack("", &["1+2", t]));
        }
    }
    // long lines between short ones, long sessions
    for n in [1, 2, 10, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300].into_iter().chain(magic(300)) {
        for f in ["x+|1|", "1+|1|", "-|2|", "(|3|)", "(|x|", "v|1|", "sin(|1|)", " |1|", "a|b|c", "1|2|", "1+|\u{e9}|"] {
            let t: &'static str = intern(&format!("\u{3}{f}|{n}"));
            rt.shared_case("batch", &pack("", &["1+2", t, "1+2", t, "x"]));
        }
    }
    let mut all: Vec<&str> = vec![];
    for a in LINES {
        for b in LINES {
            if !matches!(expect(a), Expect::Exit) && !matches!(expect(b), Expect::Exit) {
                all.push(a);
                all.push(b);
            }
        }
    }
    rt.shared_case("batch", &pack("", &all));
    rt.shared_case("talk", &pack("0", &all));
    all.push("exit");
    rt.shared_case("cut", &pack("", &all));
}
