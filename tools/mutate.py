#!/usr/bin/env python3
"""Development aid: applies each mutant of tools/mutants.py to a scratch copy and runs all checks on it.

usage: mutate.py [-j N] [-o PROP] [-t] [name ...]     -o: only this property ("own": the mutant's); -b / -n: only benign / other mutants; -t: also run the crate's unit tests on the mutant
Nothing here is a registered check.
"""
import os, re, shutil, subprocess, sys, json, threading, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutants

J, T, O, names, KIND = 4, False, "--all", [], None
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "-j":
        J = int(a.pop(0))
    elif x == "-o":
        O = a.pop(0)
    elif x in ("-b", "-n"):
        KIND = x == "-b"
    elif x == "-t":
        T = True
    else:
        names.append(x)
todo = [m for m in mutants.M if not names or any(re.match(n + "$", m["name"]) for n in names)]
todo = [m for m in todo if KIND is None or bool(m.get("benign")) == KIND]
q = queue.Queue()
for m in todo:
    q.put(m)
out = {}
lock = threading.Lock()


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


SRC = os.environ.get("MT_SRC", "/repo")
VV = "/tmp/mt/v"  # the rules as they are now, so that they can be edited meanwhile
sh("rm -rf %s && mkdir -p %s && cp -a %s/engine %s/rules %s/driver %s/tools %s/known_findings.json %s/" % (VV, VV, V, V, V, V, V, VV))


def worker(i):
    base = "/tmp/mt/s%d" % i
    repo = base + "/repo"
    cache = base + "/cache"
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(cache):
        os.makedirs(cache)
        sh("cp -a %s/.cache/target %s/.cache/target-mo %s/.cache/ordriver-* %s/" % (V, V, V, cache))
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        a = {"r": repo, "s": SRC, "x": "--exclude=%starget --exclude=%s.git --exclude=%stests/_log"}
        tar = "tar -C {s} %s -cf - . | tar -C {r} -xf -" % (a["x"].replace("%s", "./"))
        sh(("mkdir -p {r} && rsync -a --delete %s {s}/ {r}/ 2>/dev/null || (rm -rf {r} && mkdir -p {r} && %s)" % (a["x"].replace("%s", "/"), tar)).format(r=repo, s=SRC))
        bad = None
        for f, old, new, *nth in m["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1 and not (nth and n > nth[0]):
                bad = "edit matches %d times in %s" % (n, f)
                break
            if nth:
                parts = s.split(old)
                s = old.join(parts[: nth[0] + 1]) + new + old.join(parts[nth[0] + 1 :])
                open(p, "w").write(s)
                continue
            open(p, "w").write(s.replace(old, new))
        line = "%-28s %-4s " % (m["name"], m["prop"])
        if bad:
            with lock:
                print(line + "BAD " + bad, flush=True)
            continue
        env = dict(os.environ, OR_REPO=repo, OR_CACHE=cache, OR_EVIDENCE=base + "/ev", OR_STRICT="0")
        os.makedirs(base + "/ev", exist_ok=True)
        r = sh("python3 %s/engine/run.py %s" % (VV, m["prop"] if O == "own" else O), cwd=VV, env=env)
        vio = re.findall(r"VIOLATION property=(\w+)", r.stdout)
        und = len(re.findall(r"undecided", r.stdout))
        tst = ""
        if T:
            e2 = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-07-02", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=base + "/tt", PATH="/root/.cargo/bin:" + os.environ["PATH"])
            t = sh("cargo test --offline -p openraft --lib", cwd=repo, env=e2)
            tst = " tests:" + ("pass" if t.returncode == 0 else "FAIL " + " ".join(re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M))[:160])
            if t.returncode and "FAILED" not in t.stdout:
                tst = " tests: NOCOMPILE " + "\n".join(re.findall(r"^error.*(?:\n.*){3}", t.stdout, re.M)[:2])
        hit = "CAUGHT" if m["prop"] in vio else ("other " if vio else "MISSED")
        if m.get("benign"):
            hit = "quiet " if not vio else "ALARM "
        if r.returncode == 2 and not vio:
            hit = "ERROR "
        with lock:
            print(line + hit + " " + ",".join(vio) + (" undecided=%d" % und if und else "") + tst, flush=True)
            with open("/tmp/mt/out-%s.txt" % m["name"], "w") as f:
                f.write(r.stdout)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(J)]
[t.start() for t in ts]
[t.join() for t in ts]
