#!/usr/bin/env python3
"""trybug.py <bugs.py> [--lanes N] [--only REGEX] [--notest]

Development aid. <bugs.py> defines bugs = [(name, "C02 C05", [(file, old, new), ...]), ...]; each is
made in a copy of /repo, and the tests and the named checks run on it. Scratch: /tmp/bug/lane*."""
import os, queue, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import tests_pass

a = sys.argv[1:]
opt = lambda n, d: a[a.index(n) + 1] if n in a else d
ns = {}
exec(open(a[0]).read(), ns)
q = queue.Queue()
for b in ns["bugs"]:
    if re.search(opt("--only", "."), b[0]):
        q.put(b)


def lane_main(k):
    lane = "/tmp/bug/lane%d" % k
    os.makedirs(lane, exist_ok=True)
    for d in ("repo", "verif"):
        keep = "%s/%s/target" % (lane, d)
        if os.path.exists(keep):
            os.rename(keep, "%s/keep-%s" % (lane, d))
        shutil.rmtree(lane + "/" + d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/" + d, lane + "/" + d], check=True)
        if os.path.exists("%s/keep-%s" % (lane, d)):
            os.rename("%s/keep-%s" % (lane, d), keep)
    # the working tree of /verif, committed or not
    for f in subprocess.run(["git", "-C", "/verif", "ls-files", "-m", "-o", "--exclude-standard"], capture_output=True, text=True).stdout.split():
        if os.path.exists("/verif/" + f) and not f.startswith("seeded"):
            shutil.copy("/verif/" + f, lane + "/verif/" + f)
    for p in ("check", "harness/Cargo.toml", "sched/Cargo.toml"):
        p = lane + "/verif/" + p
        s = open(p).read().replace('"/repo"', '"%s/repo"' % lane)
        open(p, "w").write(s)
    shutil.copy("/repo/Cargo.lock", lane + "/repo/")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
    while True:
        try:
            name, checks, edits = q.get_nowait()
        except queue.Empty:
            return
        saved = {}
        try:
            for f, old, new in edits:
                p = os.path.join(lane, "repo", f)
                s = open(p).read()
                saved.setdefault(p, s)
                if s.count(old) != 1:
                    print(name, "EDIT: %d occurrences of %s" % (s.count(old), old[:60]), flush=True)
                    raise KeyError
                open(p, "w").write(s.replace(old, new))
            r = None if "--notest" in a else tests_pass(lane, env)
            out = []
            if not (r or "").startswith("does not"):
                for c in checks.split():
                    t0 = time.time()
                    try:
                        x = subprocess.run(["./check", c], cwd=lane + "/verif", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=900)
                        code, text = x.returncode, [l for l in x.stdout.split("\n") if l and not l.startswith("KNOWN")]
                    except subprocess.TimeoutExpired:
                        code, text = -1, ["time"]
                    out.append("%s:%d (%ds) %s" % (c, code, time.time() - t0, text[0][:150] if text else ""))
            print(name, "|", r or "tests pass", "|", " | ".join(out), flush=True)
        except KeyError:
            pass
        finally:
            for p, s in saved.items():
                open(p, "w").write(s)


ts = [threading.Thread(target=lane_main, args=(k,)) for k in range(int(opt("--lanes", "2")))]
for t in ts:
    t.start()
for t in ts:
    t.join()
