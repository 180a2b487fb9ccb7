#!/usr/bin/env python3
"""Usage: ub.py build|quick|thorough SEED. Runs the real code under Miri (undefined behaviour, data races) and
the address sanitizer. Writes evidence/C22.json. Exit 0, 1 (with a VIOLATION line), or 3 and more."""
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = f"{VERIF}/.build"
tier, seed = sys.argv[1], sys.argv[2]
PROCS = 7
SECS = {"build": 0, "quick": 70, "thorough": 420}[tier]
RANDOM = 12 if tier != "thorough" else 40
started = time.time()
replay = f"{VERIF}/evidence/replay"
os.makedirs(replay, exist_ok=True)
env = dict(os.environ)
env.pop("RUSTC_WRAPPER", None)


def fail(msg, code=4):
    print("ERROR:", msg)
    sys.exit(code)


def violation(name, text):
    path = f"{replay}/C22-{name}.txt"
    open(path, "w").write(text)
    print(f"VIOLATION property=C22 replay={path}")


# --- Miri
def miri_env(s):
    e = dict(env)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=f"{BUILD}/miri", YAMON_ZOO_DIR=f"{BUILD}/zoomiri", RUSTFLAGS="-Awarnings",
             MIRIFLAGS=f"-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed={s}")
    return e


os.makedirs(f"{BUILD}/zoomiri", exist_ok=True)
left_out = []
for attempt in range(4):
    subprocess.run([sys.executable, f"{VERIF}/tools/gen_zoo.py", f"{BUILD}/zoomiri", seed, str(RANDOM), "1", *left_out], check=True)
    cmd = ["cargo", "miri", "run", "--offline", "--"]
    b = subprocess.run(cmd + [seed, "0", "1", "0", "0"], cwd=f"{VERIF}/harness_miri", env=miri_env(1), capture_output=True, text=True)
    if b.returncode == 0 and "OBSERVED" in b.stdout:
        break
    open(f"{BUILD}/log.miri", "w").write(b.stdout + b.stderr)
    more = subprocess.run([sys.executable, f"{VERIF}/tools/broken.py", f"{BUILD}/zoomiri", f"{BUILD}/log.miri"], capture_output=True, text=True).stdout.split()
    if not set(more) - set(left_out):
        fail("the Miri workload does not build: " + (b.stdout + b.stderr)[-2000:])
    left_out += more
else:
    fail("the Miri workload does not build")

# --- address sanitizer
asan = dict(env)
asan.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=f"{BUILD}/asan", RUSTFLAGS="--cfg yaserde_verif -Awarnings -Zsanitizer=address")
b = subprocess.run(["cargo", "build", "--offline", "--target", "x86_64-unknown-linux-gnu"], cwd=f"{VERIF}/harness", env=asan, capture_output=True, text=True)
if b.returncode != 0:
    fail("the sanitized monitors do not build: " + b.stderr[-2000:])
if tier == "build":
    sys.exit(0)

runs = []
for i in range(PROCS):
    out = open(f"{BUILD}/miri.{i}", "w")
    runs.append((i, out, subprocess.Popen(cmd + [seed, str(i), str(PROCS), "1000", str(SECS)], cwd=f"{VERIF}/harness_miri", env=miri_env(int(seed) * 100 + i), stdout=out, stderr=subprocess.STDOUT)))
e = dict(asan)
e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:detect_stack_use_after_return=0"
binary = f"{BUILD}/asan/x86_64-unknown-linux-gnu/debug/yamon"
a = subprocess.run([binary, "C22", "--tier", tier, "--seed", seed, "--verif", VERIF, "--budget", str(90 if tier == "quick" else 400)], env=e, capture_output=True, text=True)
bad = False
inconclusive = None
log = a.stdout + a.stderr
# the checks of the standard library's own unsafe functions abort
UNSAFE = "unsafe precondition(s) violated"
if ("AddressSanitizer" in log or UNSAFE in log) and a.returncode != 0:
    violation("asan", log[-20000:])
    bad = True
elif a.returncode == 1 and "VIOLATION property=C22" in log:
    print(log)
    bad = True
elif a.returncode != 0:
    inconclusive = log[-2000:]
seen = {}
silent = 0
for i, out, p in runs:
    try:
        code = p.wait(timeout=SECS * 2 + 120)
    except subprocess.TimeoutExpired:
        # a type that takes the interpreter too long is no verdict
        p.kill()
        code = None
    out.close()
    log = open(f"{BUILD}/miri.{i}").read()
    m = re.search(r"^OBSERVED (.*)$", log, re.M)
    if m:
        for kv in m.group(1).split():
            k, v = kv.split("=")
            seen[k] = max(seen.get(k, 0), int(v)) if k == "groups" else seen.get(k, 0) + int(v)
    elif UNSAFE in log or "Undefined Behavior" in log or "UNDEFINED:" in log or re.search(r"[Dd]ata race", log):
        violation(f"miri-{i}", f"cd /verif/harness_miri; MIRIFLAGS='{miri_env(int(seed) * 100 + i)['MIRIFLAGS']}' cargo +nightly miri run -- {seed} {i} {PROCS} 1000 {SECS}\n\n" + log[-20000:])
        bad = True
    else:
        # panics and other ends are for other properties
        silent += 1
        last = log[-1500:]
if silent > PROCS // 2 and not bad:
    inconclusive = f"{silent} of {PROCS} interpreters ended without a result: {last}"
path = f"{VERIF}/evidence/C22.json"
if os.path.exists(path) and not inconclusive:
    ev = json.load(open(path))
    ev["wall_s"] = round(time.time() - started, 2)
    ev["violations"] = int(bad)
    ev["coverage"]["evaluations"] += seen.get("reads", 0) + seen.get("writes", 0)
    ev["coverage"]["observed"].update({f"under Miri: {k}": v for k, v in seen.items()})
    ev["coverage"]["observed"]["interpreter processes with their own schedule"] = PROCS - silent
    json.dump(ev, open(path, "w"), indent=1)
    print(f"C22: {ev['coverage']['evaluations']} cases, under Miri {seen}, {ev['wall_s']} s")
if bad:
    sys.exit(1)
if inconclusive:
    fail("inconclusive: " + inconclusive, 3)
