#!/usr/bin/env python3
"""mutants.py <out.jsonl> [--lanes N] [--only REGEX] [--shard i/n] [--list]

Development aid: makes every small change of a catalogue to a copy of /repo, drops those that don't
compile or fail the tests, and runs the checks (copies of them, on the copy) on the rest until one
reports a violation. Scratch directories: /tmp/mut/lane*."""
import json, os, re, shutil, subprocess, sys, threading, queue, time

SRC = ["src/element/function_call.rs", "src/element/unop.rs", "src/element/mod.rs", "src/element/binop.rs",
       "src/element/simplify.rs", "src/xprs.rs", "src/token/identifier.rs", "src/token/function.rs",
       "src/token/operator.rs", "src/context.rs", "src/parser.rs", "src/utils/factorial.rs",
       "src/utils/precedence.rs", "src/utils/built_in_functions.rs", "src/utils/hidden_macros.rs", "src/bin/repl.rs"]
SWAPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
         (" < ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "),
         (" % ", " / "), (" += ", " -= "), (" -= ", " += "), (" *= ", " /= "), ("true", "false"), ("false", "true"), ("is_some", "is_none"), ("is_none", "is_some"),
         ("is_empty()", "is_empty() == false"), (".any(", ".all("), (".all(", ".any("), ("f64::INFINITY", "f64::NEG_INFINITY"), ("f64::INFINITY", "f64::NAN"),
         ("f64::NAN", "0.0"), ("f64::NAN", "f64::INFINITY"), ("is_ascii_digit", "is_ascii_alphanumeric"), ("is_ascii_alphanumeric", "is_ascii_alphabetic"), ("is_ascii_alphabetic", "is_ascii_lowercase"),
         ("is_ascii_whitespace", "is_ascii_control"), ("Some(", "None; Some("), ("if !", "if "), ("if ", "if !"), ("&mut ", "&"), ("lhs", "rhs"), ("rhs", "lhs"),
         ("Plus", "Minus"), ("Minus", "Plus"), ("Times", "Divide"), ("Divide", "Times"), ("Power", "Times"), ("Modulo", "Divide"), ("Factorial", "Minus"),
         ("saturating_sub(1)", "saturating_sub(0)"), (".cloned()", ".copied()"), ("f64::from(0", "f64::from(1"), ("extend", "clone_from"), (".rev()", ""), (".skip(1)", ""), (".trim()", ""), (".trim()", ".trim_end()"),
         ("..=", ".."), ("..", "..="), (" as u8", " as u8 & 127"), (".fract()", ".trunc()"), ("powf", "atan2"), ("mul(", "div("), ("unwrap_or", "unwrap_or_else(|| panic!()).min"), ("continue", "break"), ("break", "continue"),
         ("retain", "retain(|_| true); let _ = (|_: &dyn Fn(&&str) -> bool| ()); self.vars.retain"), ("== 1.0", "== 2.0"), ("== 0.0", "== 1.0"), (".remove(", ".contains("), (".insert(", ".contains(&"), ("||", "&&"), ("first()", "last()"), ("last()", "first()"),
         (".max(", ".min("), (".min(", ".max("), ("PRECEDENCE", "PRECEDENCE + 1"), ("?;", ";"), ("writeln!", "write!"), ("to_string()", "to_uppercase()"), ("trim_start", "trim_end"), ("usize::MAX", "0")]


def code_lines(path):
    """Indices of lines with code in them: no comments, attributes, tests."""
    lines = open(path).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "/*", "*", "mod ", "pub mod")):
            continue
        out.append(i)
    return lines, out


def mutants(repo):
    seen = set()
    for f in SRC:
        lines, idx = code_lines(os.path.join(repo, f))

        def emit(i, new, what):
            k = (f, i, new)
            if new != lines[i] and k not in seen:
                seen.add(k)
                return dict(file=f, line=i + 1, old=lines[i], new=new, what=what)

        for i in idx:
            l = lines[i]
            for a, b in SWAPS:
                p = l.find(a)
                while p >= 0:
                    m = emit(i, l[:p] + b + l[p + len(a):], "%s -> %s" % (a.strip(), b.strip()))
                    if m:
                        yield m
                    p = l.find(a, p + len(a))
            table = f.endswith("factorial.rs")
            nums = list(re.finditer(r"(?<![\w.'])(\d[\d_]*)(\.\d[\d_]*)?(e\d+)?", l))
            for m_ in nums[:6]:
                t = m_.group(0)
                if table and len(t) > 6:
                    k = len(t) // 2
                    while k < len(t) and not t[k].isdigit():
                        k += 1
                    if i % 12 == 0 and k < len(t):
                        m = emit(i, l[:m_.start()] + t[:k] + str((int(t[k]) + 1) % 10) + t[k + 1:] + l[m_.end():], "digit")
                        if m:
                            yield m
                    continue
                try:
                    v = float(t.replace("_", "")) if m_.group(2) or m_.group(3) else int(t.replace("_", ""))
                except ValueError:
                    continue
                for n in {v + 1, v - 1, v * 2 if v else v + 2}:
                    if n >= 0:
                        m = emit(i, l[:m_.start()] + str(n) + l[m_.end():], "%s -> %s" % (t, n))
                        if m:
                            yield m
            for m_ in re.finditer(r"b'(.)'", l):
                for c in ("z", " "):
                    m = emit(i, l[:m_.start()] + "b'%s'" % c + l[m_.end():], "byte")
                    if m:
                        yield m
            for m_ in re.finditer(r'"([^"]{1,30})"', l):
                m = emit(i, l[:m_.start()] + '"%sx"' % m_.group(1) + l[m_.end():], "string")
                if m:
                    yield m
            s = l.strip()
            if s.endswith(";") and not s.startswith(("let ", "}", ")", "]", "type ", "const ")) :
                m = emit(i, l[:len(l) - len(l.lstrip())] + "// deleted", "statement deleted")
                if m:
                    yield m
            if s.endswith(",") and "=>" in s:
                m = emit(i, l[:len(l) - len(l.lstrip())] + "// deleted", "arm deleted")
                if m and "simplify" not in f:
                    yield m
                if " if " in s:
                    a, b = l.split(" if ", 1)
                    c, d = b.split("=>", 1)
                    m = emit(i, a + " =>" + d, "guard deleted")
                    if m:
                        yield m
            m_ = re.match(r"(\s*(?:\} else )?if )(.+)( \{)$", l)
            if m_ and not m_.group(2).startswith("let "):
                for c in ("true", "false"):
                    m = emit(i, m_.group(1) + c + m_.group(3), "condition " + c)
                    if m:
                        yield m
            # values of floats in nearby functions of the standard library
            for a, b in [("sin", "cos"), ("cos", "sin"), ("tan", "sin"), ("asin", "sin"), ("sinh", "sin"), ("exp", "exp_m1"), ("ln", "log10"), ("log10", "log2"), ("floor", "trunc"), ("ceil", "floor"), ("round", "floor"), ("trunc", "floor"), ("abs", "sqrt"), ("sqrt", "cbrt"), ("signum", "abs"), ("recip", "abs")]:
                for m_ in re.finditer(r"(f64::|\.)%s\b" % a, l):
                    m = emit(i, l[:m_.start()] + m_.group(1) + b + l[m_.end():], a + " -> " + b)
                    if m:
                        yield m


CONFIGS = [("stable-x86_64-unknown-linux-gnu", "t", "pemdas compile-time-optimizations"),
           ("stable-x86_64-unknown-linux-gnu", "t", "pejmdas"),
           ("nightly-2026-08-21-x86_64-unknown-linux-gnu", "tn", "pemdas compile-time-optimizations")]
ORDER = "C02 C06 C08 C12 C15 C20 C09 C10 C14 C05 C03 C04 C13 C21 C22 C11 C19 C01 C07 C18 C16 C17".split()


FIRST = {"function_call": "C15 C20 C12", "unop": "C15 C20 C02", "binop": "C20 C15 C05 C06", "element/mod": "C15 C10 C20 C09", "simplify": "C06 C05 C07 C15 C10 C12", "precedence": "C02 C03 C15", "operator": "C15 C02 C03 C14",
         "parser": "C14 C02 C04 C21 C22 C10 C12 C03 C01", "built_in": "C13", "factorial": "C13 C06 C02", "identifier": "C13 C21 C10", "function.rs": "C12 C20 C11", "repl": "C18", "context": "C11 C10", "xprs.rs": "C08 C09 C10 C02 C12 C07 C15"}


def tests_pass(lane, env0):
    for tool, tgt, feats in CONFIGS:
        env = dict(env0, RUSTUP_TOOLCHAIN=tool, CARGO_TARGET_DIR=lane + "/" + tgt)
        cmd = ["cargo", "test", "-j2", "--offline", "--locked", "--no-default-features", "--features", feats, "--manifest-path", lane + "/repo/Cargo.toml"]
        try:
            b = subprocess.run(cmd + ["--no-run"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            if b.returncode:
                return "does not compile"
            t = subprocess.run(cmd + ([] if tgt == "t" and "opt" in feats else ["--lib"]), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if t.returncode:
                return "tests"
        except subprocess.TimeoutExpired:
            return "tests (time)"
    return None


def lane_main(k, q, out, lock, keep_all):
    lane = "/tmp/mut/lane%d" % k
    os.makedirs(lane, exist_ok=True)
    for d in ("repo", "verif"):
        shutil.rmtree(lane + "/" + d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", lane + "/repo"], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", lane + "/verif"], check=True)
    for p in ("check", "harness/Cargo.toml", "sched/Cargo.toml"):
        p = lane + "/verif/" + p
        s = open(p).read().replace('"/repo"', '"%s/repo"' % lane)
        open(p, "w").write(s)
    # quicker builds, fewer configurations
    p = lane + "/verif/harness/Cargo.toml"
    s = open(p).read().replace("opt-level = 2", "opt-level = 1").replace("incremental = false", "incremental = true").replace("codegen-units = 16", "codegen-units = 64")
    open(p, "w").write(s)
    plan0 = open(lane + "/verif/plan.py").read()
    for f in ("/repo/Cargo.lock",):
        if os.path.exists(f):
            shutil.copy(f, lane + "/repo/")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        path = os.path.join(lane, "repo", m["file"])
        orig = open(path).read()
        lines = orig.split("\n")
        assert lines[m["line"] - 1] == m["old"]
        lines[m["line"] - 1] = m["new"]
        open(path, "w").write("\n".join(lines))
        few = "NPo SPo SPn" if "simplify" in m["file"] else "SPn SPo SJn" if "preced" in m["file"] or "parser" in m["file"] else "SPn SPo"
        with open(lane + "/verif/plan.py", "w") as f:
            f.write(plan0 + "\nfor k, v in PLAN.items():\n    c = v['configs']['quick']\n    if c[0] != 'TPo':\n        v['configs']['quick'] = [x for x in %r.split() if x in c] or c[:1]\n" % few)
        t0 = time.time()
        try:
            r = tests_pass(lane, env)
            m["result"] = r or "survives tests"
            if not r:
                m["checks"] = {}
                first = [c for k, cs in FIRST.items() if k in m["file"] for c in cs.split()]
                for c in first or ORDER:
                    try:
                        p = subprocess.run(["./check", c], cwd=lane + "/verif", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=900)
                        code = p.returncode
                        first = [x for x in p.stdout.split("\n") if x and not x.startswith("KNOWN")][:2]
                    except subprocess.TimeoutExpired:
                        code, first = -1, ["time"]
                    if code:
                        m["checks"][c] = [code] + [x[:200] for x in first]
                    if code == 1 and not keep_all:
                        break
        finally:
            open(path, "w").write(orig)
        m["time"] = round(time.time() - t0, 1)
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    ms = list(mutants("/repo"))
    only = opt("--only", None)
    if only:
        ms = [m for m in ms if re.search(only, m["file"])]
    i, n = map(int, opt("--shard", "0/1").split("/"))
    ms = ms[i::n]
    if "--list" in a:
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms))
        return
    done = set()
    if os.path.exists(a[0]):
        for l in open(a[0]):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["new"]) not in done:
            q.put(m)
    out = open(a[0], "a")
    lock = threading.Lock()
    ts = [threading.Thread(target=lane_main, args=(k, q, out, lock, "--all" in a)) for k in range(int(opt("--lanes", "4")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
