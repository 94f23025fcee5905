#!/usr/bin/env python3
"""Decides one property of /repo: builds the monitors against the current tree, runs them, writes evidence.

check.py ID [--tier quick|thorough] [--seed N] [--secs N]     run the check (VERIF_SEED, VERIF_TIER are the defaults)
check.py ID --replay out/ID.json                               re-run the recorded witness
"""
import json, os, re, resource, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from registry import REG
TARGET = os.environ.get("HMON_TARGET", os.path.join(VERIF, "target"))
OUT = os.path.join(VERIF, "out")
TRIPLE = "x86_64-unknown-linux-gnu"
AS_USER = ["m_128_128", "misc_u", "lay_b", "w_8_16", "w_16_8", "w_32_16", "w_64_64", "w_128_8", "w_size_32"]
CORE = ["m_64_32", "m_8_8", "m_128_128", "m_16_16"]
CORE_T = CORE + ["m_32_64"]
NCPU = min(8, os.cpu_count() or 8)
MEM = 3 << 30

def log(s): print(s, flush=True)

class Broken(Exception): pass

def cargo(args, env=None, toolchain=None, target=None, timeout=700, crate="harness", fail=None):
    e = dict(os.environ); e.update(env or {}); e["CARGO_TARGET_DIR"] = target or TARGET; e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTUP_TOOLCHAIN", None)
    if "RUSTFLAGS" not in (env or {}): e["RUSTFLAGS"] = "-Awarnings"
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    try: p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise Broken("build timed out: " + " ".join(cmd))
    if p.returncode != 0:
        if fail and fail(p.stdout): return False
        log(p.stdout[-4000:]); raise Broken("build failed: " + " ".join(cmd))
    return True

def build(bins, opt=False):
    """The thorough tier runs optimised programs: slower to build, several times faster. Some programs are built as
    users build theirs, without the library's debug assertions and without overflow checks; the others have both."""
    jobs = []; where = {}
    for as_user in (False, True):
        bs = [b for b in bins if (b in AS_USER) == as_user]
        if not bs: continue
        td = TARGET + ("-opt" if opt else "") + ("-user" if as_user else "")
        env = {"CARGO_PROFILE_DEV_OPT_LEVEL": "1"} if opt else {}
        if as_user: env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        args = ["build", "--offline"] + (["--config", "profile.dev.package.hash-trie.debug-assertions=false"] if as_user else []) + sum((["--bin", b] for b in bs), [])
        jobs.append(lambda args=args, env=env, td=td: cargo(args, env, target=td))
        for b in bs: where[b] = os.path.join(td, "debug", b)
    side_by_side(jobs)
    return [where[b] for b in bins]
def side_by_side(jobs):
    """Runs the jobs at the same time; the first exception, if any, is raised here. Answers their results."""
    with ThreadPoolExecutor(len(jobs)) as p: return [f.result() for f in [p.submit(j) for j in jobs]]
def build_san(kind, bins):
    td = TARGET + "-" + kind
    env = {"RUSTFLAGS": "-Awarnings -Zsanitizer=%s" % {"asan": "address", "tsan": "thread"}[kind]}
    cargo(["build", "--offline", "--features", "san", "--target", TRIPLE] + (["-Zbuild-std"] if kind == "tsan" else []) + sum((["--bin", b] for b in bins), []), env, "+nightly", td)
    return [os.path.join(td, TRIPLE, "debug", b) for b in bins]

def limits(mem, cpu):
    def f():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
    return f

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass

class Merge:
    def __init__(self): self.evals = 0; self.inconcl = 0; self.inconcl_msg = ""; self.counters = {}; self.samples = []; self.sigs = set(); self.viols = []; self.bins = {}; self.phases = {}
    def add(self, o, b):
        self.evals += o["evals"]; self.inconcl += o["inconclusive"]
        if o["inconcl_msg"] and not self.inconcl_msg: self.inconcl_msg = "%s %s" % (b, o["inconcl_msg"])
        for k, v in o["counters"].items(): self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v
        for s in o["samples"]:
            if len(self.samples) < 6 and s not in self.samples: self.samples.append(s)
        self.bins[b] = self.bins.get(b, 0) + o["evals"]

def describe(rc):
    if rc < 0: 
        try: return "died of " + signal.Signals(-rc).name
        except ValueError: return "died of signal %d" % -rc
    return "allocated without bound" if rc == 71 else "ended with code %d" % rc

def run_workers(prop, info, exes, secs, seed, tier, m, mem=MEM, env=None, label="", procs=None, crash_any=False, cpu_case=90, to=10**9, base=0):
    """Runs the programs over disjoint cases until the time is up; handles crashes and hangs case by case."""
    os.makedirs(OUT, exist_ok=True)
    n = procs or NCPU
    ws = [{"i": i, "exe": exes[i % len(exes)], "from": base + i, "secs": secs, "restarts": 0} for i in range(n)]
    t0 = time.time()
    e = dict(os.environ); e.update(env or {})
    def start(w):
        b = os.path.join(OUT, "%s%s-%d" % (prop, label, w["i"]))
        w["j"], w["s"], w["o"], w["e"] = b + ".journal", b + ".sigs", b + ".out", b + ".err"
        for f in (w["j"], w["s"]):
            if os.path.exists(f): os.remove(f)
        w["cmd"] = [w["exe"], "--prop", prop, "--seed", str(seed), "--from", str(w["from"]), "--step", str(n), "--to", str(to), "--secs", str(max(1, int(secs - (time.time() - t0)))), "--journal", w["j"], "--sigs", w["s"], "--tier", tier]
        w["p"] = subprocess.Popen(w["cmd"], stdout=open(w["o"], "w"), stderr=open(w["e"], "w"), env=e, preexec_fn=limits(mem, None))
        w["t"] = time.time()
    for w in ws: start(w)
    live = list(ws)
    while live:
        time.sleep(0.05)
        for w in list(live):
            p = w["p"]; rc = p.poll()
            hung = False
            if rc is None:
                if time.time() - t0 > secs + 45: kill(p); p.wait(); hung = True; rc = p.returncode
                else: continue
            live.remove(w)
            name = os.path.basename(w["exe"]) + label
            if os.path.exists(w["s"]):
                d = open(w["s"], "rb").read(); m.sigs.update(struct.unpack("<%dQ" % (len(d) // 8), d))
            out = open(w["o"]).read().strip()
            if rc in (0, 1) and out:
                o = json.loads(out.splitlines()[-1]); m.add(o, name)
                if "viol" in o:
                    m.viols.append({"exe": w["exe"], "label": label, "case": o["viol"]["case"], "msg": o["viol"]["msg"], "trace": o["viol"]["trace"]})
                    for x in live: kill(x["p"]); x["p"].wait()
                    live = []; break
                continue
            # crashed, hung or reported by a sanitizer: which case, and was it inside a monitored call?
            err = open(w["e"]).read()
            j = open(w["j"], "rb").read() if os.path.exists(w["j"]) else b""
            if len(j) < 9: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "%s %s before its first case: %s" % (name, describe(rc), err[-300:]); continue
            case, phase = struct.unpack("<Q", j[:8])[0], chr(j[8])
            rep = sanitizer_report(err)
            if rep: m.viols.append({"exe": w["exe"], "label": label, "case": case, "msg": rep, "trace": err.splitlines()[:60]}); 
            elif phase == "T" or crash_any:
                c = single(w["exe"], prop, seed, case, tier, mem, env, cpu_case, n)
                if c and (c[0] != "hang" or info.get("completes", True)): m.viols.append({"exe": w["exe"], "label": label, "case": case, "msg": c[1], "trace": []})
                else: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "%s case %d %s, not confirmed" % (name, case, "hung" if hung else describe(rc))
            else: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "%s case %d %s outside the monitored calls" % (name, case, "hung" if hung else describe(rc))
            if m.viols:
                for x in live: kill(x["p"]); x["p"].wait()
                live = []; break
            if not hung and w["restarts"] < 20 and time.time() - t0 < secs - 1: w["restarts"] += 1; w["from"] = case + n; start(w); live.append(w)

def sanitizer_report(err):
    m = re.search(r"(WARNING: ThreadSanitizer: [^\n(]*|ERROR: (?:Address|Leak|Memory)Sanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|error: (?:memory leaked|deadlock|the evaluated program (?:leaked|deadlocked))[^\n]*|error: Data race[^\n]*)", err)
    if not m or "LeakSanitizer has encountered a fatal error" in err: return None
    s = m.group(1)
    fr = re.findall(r"(?:#\d+ (?:0x[0-9a-f]+ in )?|inside `)?([^\s`]*hash_trie::[^\s`]*)", err)
    return re.sub(r"0x[0-9a-f]+", "0x..", s) + ((" in " + fr[0]) if fr else "")

def single(exe, prop, seed, case, tier, mem, env, cpu, step):
    """Re-runs one case alone: ('crash'|'hang'|'viol', text) or None."""
    e = dict(os.environ); e.update(env or {})
    j = os.path.join(OUT, "%s-single.journal" % prop)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(case), "--to", str(case + 1), "--tier", tier, "--journal", j]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, preexec_fn=limits(mem, cpu))
    try: o, err = p.communicate(timeout=cpu * 4)
    except subprocess.TimeoutExpired: kill(p); p.communicate(); return ("hang", "a call blocked without making progress")
    rc = p.returncode
    if sanitizer_report(err): return ("crash", sanitizer_report(err))
    if rc == 0: return None
    if rc == 1 and o.strip():
        x = json.loads(o.splitlines()[-1]); return ("viol", x["viol"]["msg"]) if "viol" in x else None
    if rc in (-signal.SIGXCPU, -signal.SIGKILL): return ("hang", "a call did not complete within %d CPU seconds" % cpu) if rc == -signal.SIGXCPU else None
    if rc == 71: return ("hang", "a call allocated without bound")
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE): return ("crash", "the program %s in a call into the library: %s" % (describe(rc), err.strip()[-300:]))
    return None

# ---------------------------------------------------------------- special phases
def asan_phase(prop, info, secs, seed, tier, m):
    exes = build_san("asan", info.get("san_bins", ["m_64_32", "m_8_8"]))
    env = {"ASAN_OPTIONS": "detect_leaks=%d:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:malloc_context_size=12" % lsan_works(exes[0]), "RUST_BACKTRACE": "0"}
    e0 = m.evals
    run_workers(prop, info, exes, secs, seed ^ 0x5a, tier, m, mem=None, env=env, label="-asan", crash_any=True, base=10**6)
    m.phases["address sanitizer" + (" and leak sanitizer" if "detect_leaks=1" in env["ASAN_OPTIONS"] else "")] = m.evals - e0
def lsan_works(exe):
    p = subprocess.run([exe, "--prop", "C12", "--to", "1"], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return 0 if "LeakSanitizer has encountered a fatal error" in p.stderr else 1
def tsan_phase(prop, info, secs, seed, tier, m):
    exes = build_san("tsan", ["m_64_32", "m_8_8"])
    env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"}
    e0 = m.evals
    run_workers(prop, info, exes, secs, seed ^ 0x75, tier, m, mem=None, env=env, label="-tsan", procs=4, crash_any=True, base=10**6)
    m.phases["thread sanitizer"] = m.evals - e0
def miri_phase(prop, info, secs, seed, tier, m, cases, flags, feature="one"):
    """Small cases under the undefined-behaviour interpreter, several processes."""
    td = TARGET + "-miri"
    feats = "san"; bins = info.get("san_bins", ["m_64_32", "m_8_8"])
    # the first run also builds the interpreter's standard library
    run = lambda a, b, sd, t: subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--features", feats, "--bin", bins[sd % len(bins)], "--", "--prop", prop, "--seed", str(seed ^ 0x31 ^ (sd << 8)), "--from", str(a), "--to", str(b), "--secs", str(t), "--tier", tier],
        cwd=os.path.join(VERIF, "harness"), env=dict(os.environ, CARGO_TARGET_DIR=td, RUSTFLAGS="-Awarnings", MIRIFLAGS="-Zmiri-disable-isolation %s -Zmiri-seed=%d" % (flags, sd)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(None, None))
    def finish(p, sd, t):
        try: o, err = p.communicate(timeout=t + 240)
        except subprocess.TimeoutExpired: kill(p); p.communicate(); m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "miri run %d timed out" % sd; return
        rep = sanitizer_report(err)
        lines = [l for l in o.splitlines() if l.startswith("{")]
        if rep: m.viols.append({"exe": "miri", "label": "-miri", "case": 0, "msg": "interpreter: " + rep, "trace": err.splitlines()[:60], "miri_seed": sd}); return
        if lines:
            x = json.loads(lines[-1]); m.add(x, "miri")
            if "viol" in x: m.viols.append({"exe": "miri", "label": "-miri", "case": x["viol"]["case"], "msg": x["viol"]["msg"], "trace": x["viol"]["trace"], "miri_seed": sd})
        elif "could not compile" in err or p.returncode != 0: raise Broken("miri run failed: " + err[-2000:])
    e0 = m.evals
    finish(run(0, 1, 0, secs), 0, 300); finish(run(0, 1, 1, secs), 1, 300)
    ps = [(run(1 + i * cases, 1 + (i + 1) * cases, i + 2, secs), i + 2) for i in range(NCPU)] if not m.viols else []
    for p, sd in ps: finish(p, sd, secs)
    m.phases["miri"] = m.evals - e0

BULK_OPS = ["map.transform", "map.transmute", "map.transform_with_transformed", "map.transform_with_transmuted", "map.transform_with_transfuted", "map.transmute_with_transformed", "map.transfute_with_transformed", "map.transmute_with_transmuted", "set.transform", "set.transmute", "set.transform_with_transformed", "set.transform_with_transmuted", "set.transmute_with_transformed", "set.transmute_with_transmuted"]
def stack_phase(prop, info, m):
    """Every operation on a list of identical hashes, each in a process of its own on a thread of limited stack: moderate lists
    must work; the long lists are those of the recorded finding (recursion per entry of a list)."""
    exe = build(["m_64_32"])[0]
    q = [(op, 300, 2048) for op in ["find", "visit", "insert", "replace", "remove", "drop"] + BULK_OPS] + [(op, 8000, 512) for op in ["replace", "remove", "drop", "map.transform", "map.transmute", "map.transform_with_transformed"]]
    run = []; n = len(q)
    while q or run:
        while q and len(run) < NCPU:
            op, l, k = q.pop()
            run.append((op, l, k, subprocess.Popen([exe, "--stack", op, str(l), str(k)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits(0, 60)), time.time()))
        for r in list(run):
            op, l, k, p, t = r
            if p.poll() is None:
                if time.time() - t > 120: kill(p)
                time.sleep(0.01); continue
            run.remove(r); err = p.stderr.read(); p.stderr.close()
            over = "overflowed its stack" in err and p.returncode == -signal.SIGABRT
            what = "%s with a list of %d entries of identical hash on a stack of %d KiB" % (op, l, k)
            if over or p.returncode in (-signal.SIGSEGV, -signal.SIGBUS): m.viols.append({"exe": exe, "label": "-stack", "case": 0, "msg": "stack overflow: " + what, "trace": [], "args": [op, str(l), str(k)]})
            elif p.returncode != 0: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "%s: the process %s: %s" % (what, describe(p.returncode), err[-200:])
            m.evals += 1
    m.phases["operations on long lists, limited stack"] = n

def scale_phase(prop, info, seed, m):
    """CPU time of each operation against the size of the collection and the age of the process (scale.rs)."""
    exe = build(["m_64_32"])[0]
    q = ["single", "age", "linear"] + BULK_OPS; q.reverse()
    run = []; n = 0
    while q or run:
        while q and len(run) < NCPU:
            part = q.pop(); run.append((part, subprocess.Popen([exe, "--scale", part, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(0, 150)), time.time()))
        for r in list(run):
            part, p, t = r
            if p.poll() is None:
                if time.time() - t > 300: kill(p)
                time.sleep(0.01); continue
            run.remove(r); out, err = p.communicate(); lines = out.splitlines()
            beyond = [x[7:] for x in lines if x.startswith("BEYOND ")]
            over_time = p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and time.time() - t > 100
            if beyond or over_time: m.viols.append({"exe": exe, "label": "-scale", "case": 0, "msg": "work grows beyond its bound: " + (beyond[0] if beyond else part + " does not end"), "trace": beyond, "args": [part, str(seed)]})
            elif p.returncode != 0: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "measuring %s: the process %s: %s" % (part, describe(p.returncode), err[-200:])
            n += len(lines); m.evals += len(lines)
    m.phases["measured growths of CPU time"] = n

WIDTHS = ["8", "16", "32", "64", "128", "size"]
PAIRS = [(h, f) for h in WIDTHS for f in WIDTHS if not (h == "8" and f not in ("8", "16"))]
def wide_phase(prop, info, secs, seed, tier, m):
    """The same scripts in every width configuration; outcomes must agree with the majority, step by step."""
    exes = build(["w_%s_%s" % p for p in PAIRS])
    os.makedirs(OUT, exist_ok=True)
    n = 60 if tier == "quick" else 200
    t0 = time.time(); block = 0
    while time.time() - t0 < secs and not m.viols:
        a, b = block * n, (block + 1) * n; block += 1
        res = {}
        q = list(exes); run = []
        while q or run:
            while q and len(run) < NCPU:
                x = q.pop(0); o = open(os.path.join(OUT, "wide-" + os.path.basename(x)), "w+")
                run.append((x, o, subprocess.Popen([x, "--seed", str(seed), "--from", str(a), "--to", str(b)], stdout=o, stderr=subprocess.DEVNULL, preexec_fn=limits(MEM, 300))))
            for r in list(run):
                if r[2].poll() is not None: run.remove(r); res[os.path.basename(r[0])] = (r[2].returncode, open(os.path.join(OUT, "wide-" + os.path.basename(r[0]))).read())
            time.sleep(0.01)
        per = {x: {} for x in res}
        for x, (rc, o) in res.items():
            for l in o.splitlines():
                t = l.split(" ", 2)
                if t[0] == "C": per[x][int(t[1])] = t[2]
                elif t[0] == "P": per[x][int(t[1])] = "panic: " + t[2]
                elif t[0] == "G": m.sigs.add(int(t[2], 16))
            if rc != 0:
                c = max(per[x], default=a - 1) + 1
                per[x][c] = "the program " + describe(rc)
        for c in range(a, b):
            d = {x: per[x].get(c) for x in res}
            vals = [v for v in d.values() if v is not None]
            if not vals: continue
            m.evals += len(vals)
            best = max(sorted(set(vals)), key=vals.count)
            odd = [x for x in sorted(d) if d[x] is not None and d[x] != best]
            if odd and not m.viols:
                good = [x for x in sorted(d) if d[x] == best]
                m.viols.append({"exe": os.path.join(TARGET, "debug", odd[0]), "label": "-wide", "case": c, "other": good[0], "msg": "script %d: configuration %s gives %s, %d other configurations (%s ...) give %s" % (c, odd[0], d[odd[0]], len(good), good[0], best), "trace": ["deviating: " + " ".join(odd)]})
            elif best.startswith("panic") and not m.viols: m.viols.append({"exe": os.path.join(TARGET, "debug", sorted(d)[0]), "label": "-wide", "case": c, "other": sorted(d)[1], "msg": "script %d panics in every configuration: %s" % (c, best), "trace": []})
            elif best.startswith("the program"): m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "script %d fails alike in every configuration: %s" % (c, best)
        for x in res: m.bins[x] = m.bins.get(x, 0) + len(per[x])
        m.counters["scripts"] = m.counters.get("scripts", 0) + (b - a)
        if not m.samples:
            p = subprocess.run([exes[0], "--seed", str(seed), "--from", "0", "--to", "3", "-v"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            m.samples = [l[:400] for l in p.stdout.splitlines()[:12]]

# ---------------------------------------------------------------- platforms
NOSTD_CASES, NOSTD_ROUNDS = 60, 200
def nostd_64(m=None):
    td = TARGET + "-nostd"
    dep = lambda o: m is not None and re.search(r"first defined in crate .std. \(which .hash_trie. depends on\)", o)
    if not cargo(["build", "--offline", "--bin", "nostd"], None, None, td, crate="nostd", fail=dep):
        m.evals += 1; m.viols.append({"exe": "nostd", "label": "-plat", "case": 0, "msg": "the library does not build into a program without std: it depends on the crate std", "trace": [], "platform": "build"})
    return os.path.join(td, "debug", "nostd")
def nostd_rel():
    """As users build theirs: optimised, without debug assertions and overflow checks; three configurations only."""
    td = TARGET + "-nostdrel"
    cargo(["build", "--offline", "--release", "--features", "few", "--bin", "nostd"], None, None, td, crate="nostd")
    return os.path.join(td, "release", "nostd")
def nostd_32(m=None):
    td = TARGET + "-nostd32"
    lld = os.path.join(subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip(), "lib/rustlib", TRIPLE, "bin/rust-lld")
    flags = "-Awarnings -Clinker=%s -Clinker-flavor=ld.lld -Crelocation-model=static -Clink-arg=-static" % lld
    own = lambda o: m is not None and "could not compile `hash-trie`" in o
    if not cargo(["build", "--offline", "--bin", "nostd", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "--target", "i686-unknown-linux-gnu"], {"RUSTFLAGS": flags}, "+nightly", td, crate="nostd", fail=own):
        m.evals += 1; m.viols.append({"exe": "nostd", "label": "-plat", "case": 0, "msg": "the library builds for 64 bits but not for 32", "trace": [], "platform": "build"})
    return os.path.join(td, "i686-unknown-linux-gnu", "debug", "nostd")
def interp(target, args): return subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target, "--bin", "plat", "--"] + [str(x) for x in args], cwd=os.path.join(VERIF, "nostd"),
        env=dict(os.environ, CARGO_TARGET_DIR=TARGET + "-plat", RUSTFLAGS="-Awarnings", MIRIFLAGS="-Zmiri-disable-isolation"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(None, None))
def nostd_run(exe, args, wait=True):
    p = subprocess.Popen([exe] + [str(x) for x in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits(0, 100))
    return nostd_end(p) if wait else p
def nostd_end(p, timeout=400):
    """(report, None), (None, violation (case, text)) or (None, None) if nothing can be said"""
    try: o, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired: kill(p); p.communicate(); return None, None
    rep = sanitizer_report(err)
    if rep: return None, (0, "interpreter: " + rep)
    lines = o.splitlines()
    if p.returncode == 0 and lines and lines[-1].startswith("{"): return json.loads(lines[-1]), None
    t = [re.match(r"case (\d+): (.*)", l) for l in lines]; t = [x for x in t if x]
    if t: return None, (int(t[-1].group(1)), t[-1].group(2))
    if p.returncode in (-signal.SIGXCPU, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE): return None, (0, "a history " + ("does not end" if p.returncode == -signal.SIGXCPU else "kills the program: it " + describe(p.returncode)))
    return None, None

def platform_phase(prop, info, secs, seed, tier, m):
    """The same histories without std on 64 and on 32 bits, and with the other byte order under the interpreter; digests of all that was observed are compared."""
    e64 = nostd_64(m)
    if m.viols: return
    e32, rel = side_by_side([lambda: nostd_32(m), nostd_rel])
    if m.viols: return
    def note(r, where, who):
        m.evals += r["cases"]
        for k in ("steps", "bulk", "entries", "words", "blocks"): m.counters[where + ": " + k] = m.counters.get(where + ": " + k, 0) + r[k]
        m.sigs.update(s | who << 16 for s in r["shapes"])
        m.bins[where] = m.bins.get(where, 0) + r["cases"]
        if len(m.samples) < 4: m.samples.append("%s: %s" % (where, {k: r[k] for k in r if k != "shapes"}))
    def viol(where, v, a, b, rounds): m.viols.append({"exe": "nostd", "label": "-plat", "case": v[0], "msg": "%s: %s" % (where, v[1]), "trace": [], "platform": where, "from": a, "to": b, "rounds": rounds})
    def differ(one, other, where, a, b, rounds):
        while b - a > 1:
            c = (a + b) // 2
            x, y = one(a, c), other(a, c)
            if x[0] and y[0] and x[0]["digest"] == y[0]["digest"]: a = c
            else: b = c
        viol(where, (a, "what is observed is not what the same history gives on 64 bits (digests differ)"), a, b, rounds)
    W64, W32, WR = "x86_64 without std", "i686 without std", "x86_64 optimised without std"
    try: can32 = nostd_run(e32, [0, 0, 0, 1])[0] is not None
    except OSError: can32 = False
    if not can32: log("this machine does not run 32-bit programs; the interpreter does"); m.counters["32-bit programs do not run here"] = 1
    t0 = time.time(); block = 0
    while time.time() - t0 < secs and not m.viols:
        jobs = []
        for i in range(4):
            full = can32 and i != 3
            a, b = block, block + (NOSTD_CASES if full else 4 * NOSTD_CASES); block = b
            other, where, mode = (e32, W32, [NOSTD_ROUNDS]) if full else (rel, WR, [NOSTD_ROUNDS, 2])
            jobs.append((a, b, nostd_run(e64, [seed, a, b] + mode, False), nostd_run(other, [seed, a, b] + mode, False), other, where, mode))
        for a, b, p, q, other, where, mode in jobs:
            x, v = nostd_end(p)
            y, w = nostd_end(q)
            if m.viols: continue
            if x: note(x, W64, 0)
            if y: note(y, where, 1 if where == W32 else 9)
            if v: viol(W64, v, a, b, mode)
            elif w: viol(where, w, a, b, mode)
            elif x and y and x["digest"] != y["digest"]: differ(lambda a, b: nostd_run(e64, [seed, a, b] + mode), lambda a, b: nostd_run(other, [seed, a, b] + mode), where, a, b, mode)
            elif not x or not y: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "histories %d to %d gave no report" % (a, b)
    if m.viols: return
    quick = tier == "quick"
    for k, target in enumerate(["s390x-unknown-linux-gnu"] + ([] if can32 and quick else ["i686-unknown-linux-gnu"]) + ([] if quick else ["powerpc-unknown-linux-gnu"])):
        r, v = nostd_end(interp(target, [0, 0, 0, 1]), 600)
        if not r: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "the interpreter does not run for " + target; continue
        n = 1 if quick else 8
        base = 10**6 + 10**4 * k
        jobs = [(base + i * n, base + (i + 1) * n, interp(target, [seed, base + i * n, base + (i + 1) * n, 2])) for i in range(NCPU)]
        for a, b, p in jobs:
            y, w = nostd_end(p, 300 if quick else 1500)
            if m.viols: continue
            x, v = nostd_run(e64, [seed, a, b, 2])
            where = target.split("-")[0] + " interpreted"
            if y: note(y, where, 2 + k)
            if v: viol(W64, v, a, b, [2])
            elif w: viol(where, w, a, b, [2])
            elif x and y and x["digest"] != y["digest"]: viol(where, (a, "what is observed is not what the same history gives on 64 bits (digests differ)"), a, b, [2])
            elif not y: m.inconcl += 1; m.inconcl_msg = m.inconcl_msg or "%s: no report for case %d" % (where, a)
        if m.viols: return

# ---------------------------------------------------------------- main
def findings(prop):
    known = []
    f = os.path.join(VERIF, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        t = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l)
        if t and t.group(1) == prop: known.append((t.group(2), t.group(3)))
    return known

def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]: build(["misc"]); log("ready"); return 0
    prop = a[0]; info = REG[prop]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    if "--replay" in a: return replay(prop, opt("--replay", ""))
    t0 = time.time()
    m = Merge()
    quick = tier == "quick"
    secs = float(opt("--secs", info["quick"] if quick else info["thorough"]))
    exes = []
    if info["bins"] == "core": exes = build(CORE if quick else CORE_T, not quick)
    elif info["bins"] == "misc": exes = build(["misc", "misc_u"])
    elif info["bins"] == "layouts": exes = build(["lay_a", "lay_b", "lay_c"])
    elif info["bins"] == "core+misc": exes = build((CORE if quick else CORE_T) + ["misc"], not quick)
    tb = time.time() - t0
    if exes: run_workers(prop, info, exes, secs, seed, tier, m, crash_any=(prop == "C12"), cpu_case=info.get("cpu_case", 90))
    if info["bins"] == "wide": wide_phase(prop, info, secs, seed, tier, m)
    for ph in info.get("phases", []) + (info.get("deep_phases", []) if not quick else []):
        if m.viols: break
        if ph == "platform": platform_phase(prop, info, secs, seed, tier, m)
        if ph == "stack": stack_phase(prop, info, m)
        if ph == "scale": scale_phase(prop, info, seed, m)
        if ph == "asan": asan_phase(prop, info, 15 if quick else secs / 3, seed, tier, m)
        if ph == "tsan": tsan_phase(prop, info, 20 if quick else secs / 2, seed, tier, m)
        if ph == "miri": miri_phase(prop, info, 25 if quick else 300, seed, tier, m, 4 if quick else 60, "")
    # verdict
    shown = []; rest = []
    known = findings(prop)
    for v in m.viols:
        k = [t for p, t in known if re.search(p, v["msg"])]
        (shown if k else rest).append((v, k))
    for v, k in shown: log("  recorded: " + v["msg"])
    for k in dict.fromkeys(k[0] for v, k in shown): log("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"],
          "coverage": {"evaluations": m.evals, "distinct_nontrivial": len(m.sigs), "rule": info["rule"], "samples": m.samples or ["(none)"],
                       "per_program": m.bins, "observed": m.counters, "phases": m.phases, "inconclusive_cases": m.inconcl, "first_inconclusive": m.inconcl_msg},
          "assumptions": info.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(rest)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in os.listdir(OUT) if os.path.isdir(OUT) else []:
        if f.endswith((".journal", ".sigs", ".out", ".err")) or f.startswith("wide-"): os.remove(os.path.join(OUT, f))
    log("%s: %d evaluations, %d distinct, %d inconclusive%s; build %.0f s, total %.0f s" % (prop, m.evals, len(m.sigs), m.inconcl, (" (" + m.inconcl_msg[:200] + ")") if m.inconcl else "", tb, time.time() - t0))
    if rest:
        v = rest[0][0]
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, prop + ".json")
        json.dump({"property": prop, "seed": seed, "tier": tier, **v}, open(path, "w"), indent=1)
        log("  %s (case %d, %s%s)" % (v["msg"][:1500], v["case"], os.path.basename(v["exe"]), v["label"]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if m.evals == 0 or len(m.sigs) == 0 and info["bins"] != "wide": log("nothing was observed"); return 2
    if m.inconcl > max(20, m.evals // 20): log("too many cases could not be decided"); return 2
    return 0

def replay(prop, path):
    v = json.load(open(path))
    info = REG[prop]
    if v["label"] == "-stack": return 1 if subprocess.run([build(["m_64_32"])[0], "--stack"] + v["args"]).returncode else 0
    if v["label"] == "-scale": return 1 if subprocess.run([build(["m_64_32"])[0], "--scale"] + v["args"]).returncode else 0
    if v["label"] == "-wide":
        exes = build([os.path.basename(v["exe"]), v["other"]])
        for x in exes: subprocess.run([x, "--seed", str(v["seed"]), "--from", str(v["case"]), "--to", str(v["case"] + 1), "-v"])
        return 1
    if v["label"] == "-plat":
        w = v["platform"]
        if w == "build": m = Merge(); nostd_64(m); m.viols or nostd_32(m); print("\n".join(x["msg"] for x in m.viols)); return 1 if m.viols else 0
        args = [v["seed"], v["from"], v["to"]] + v["rounds"]
        x = nostd_run(nostd_64(), args)
        y = nostd_run(nostd_rel(), args) if "optimised" in w else x if w.startswith("x86") else nostd_run(nostd_32(), args) if w.endswith("std") else nostd_end(interp(w.split()[0] + "-unknown-linux-gnu", args), 1500)
        for z in (x, y): print(z[1] or {k: z[0][k] for k in z[0] if k != "shapes"} if z[0] else z[1])
        return 1 if x[1] or y[1] or (x[0] or {}).get("digest") != (y[0] or {}).get("digest") else 0
    if v["label"] == "-miri": print("\n".join(v["trace"])); return 1
    name = os.path.basename(v["exe"])
    exe = build([name])[0] if not v["label"] else build_san(v["label"][1:], [name])[0]
    seed = v["seed"] ^ {"": 0, "-asan": 0x5a, "-tsan": 0x75}[v["label"]]
    return subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--from", str(v["case"]), "--to", str(v["case"] + 1), "--tier", v["tier"], "-v"]).returncode

if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as b: log("ERROR: " + str(b)); sys.exit(2)
