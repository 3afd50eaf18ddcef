#!/usr/bin/env python3
"""Deterministic-simulation check of one property of libulz.

  check.py C05                    quick or thorough search (VERIF_TIER, VERIF_SEED)
  check.py C05 --replay FILE      re-execute a replay file, printing its trace
  check.py all                    every claimed property, one after another
  options: --secs S  --runs N  --seed N  --tier T  --build-only  --no-min

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: the check itself could not give an answer.
"""
import sys, os, json, glob, hashlib, subprocess, time, struct, shutil, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ULZ_REPO", "/repo")
NW = int(os.environ.get("ULZ_WORKERS", "8"))
sys.path.insert(0, os.path.join(V, "tools"))
from scenarios import SCEN

CFLAGS = "-std=c99 -O1 -g -fno-pie -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern".split()
SHIMFLAGS = [("-std=gnu99" if f == "-std=c99" else f) for f in CFLAGS]
CXXFLAGS = "-std=c++17 -O1 -g -fno-pie -fno-omit-frame-pointer -fpermissive -w -Drestrict=__restrict -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0".split()

class BuildError(Exception): pass
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout
def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths: h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def harness_object(src):
    """core/sys do not depend on the repository: cached by content."""
    deps = [src] + sorted(glob.glob(V + "/sim/*.hpp"))
    o = "%s/build/cache/%s-%s.o" % (V, os.path.basename(src), digest(deps, " ".join(CXXFLAGS)))
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + ".%d.tmp" % os.getpid()
        sh(["g++"] + CXXFLAGS + ["-I" + V + "/sim", "-c", src, "-o", t]); os.rename(t, o)
    return o

def build(prop):
    cfg = SCEN[prop]; B = "%s/build/%s" % (V, prop)
    shutil.rmtree(B, ignore_errors=True); os.makedirs(B + "/o")
    inc = "-I" + REPO + "/include"
    with ThreadPoolExecutor(NW) as ex:
        jobs = []
        core = ex.submit(harness_object, V + "/sim/core.cpp"); sysj = ex.submit(harness_object, V + "/sim/sys.cpp")
        scen = [B + "/" + s.replace(".cpp", ".o") for s in cfg["scen"]]
        for s, o in zip(cfg["scen"], scen):
            jobs.append(ex.submit(sh, ["g++"] + CXXFLAGS + cfg.get("cxxflags", []) + ['-DBUILD_DIR="%s"' % B, "-I" + V + "/sim", "-I" + V + "/shim", inc, "-c", V + "/scen/" + s, "-o", o]))
        for j in jobs: j.result()
        jobs = []
        names = [l.split()[2] for l in sh(["nm", sysj.result()]).splitlines() if len(l.split()) == 3 and l.split()[1] in "TBD" and l.split()[2].startswith("sim_")]
        redef = B + "/redef"
        with open(redef, "w") as f:
            for n in names:
                if n != "sim_switch": f.write("%s %s\n" % (n[4:], n))
            for n in ("memcpy", "memmove", "memset"): f.write("__asan_%s ulz_%s\n" % (n, n)) # what clang makes of copies of whole structures
        def cc(src, o, flags):
            if cfg.get("loads") and shutil.which("clang") and not subprocess.call(["clang", "-w"] + ["-Wno-error=" + w for w in "implicit-function-declaration implicit-int int-conversion incompatible-function-pointer-types return-type".split()] + [{"-O1": "-O0", "-fsanitize-coverage=trace-pc": "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"}.get(f, f) for f in flags] + ["-mllvm", "-asan-globals=0", inc, "-I" + V + "/shim", "-c", src, "-o", o], stderr=subprocess.DEVNULL): pass # what gcc takes and clang does not is built with gcc: without the memory seam, but not without an answer
            else: sh(["gcc"] + flags + [inc, "-I" + V + "/shim", "-c", src, "-o", o])
            sh(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=ulz_data", "--rename-section", ".bss=ulz_bss,alloc,load,data,contents", o])
        def fastcc(src, o): # calls the simulated system too
            sh(["gcc", "-std=c99", "-O3", "-fPIC", "-w", inc, "-c", src, "-o", o]); sh(["objcopy", "--redefine-syms=" + redef, o])
        for o in scen: jobs.append(ex.submit(sh, ["objcopy", "--redefine-syms=" + redef, o])) # scenarios are clients of the simulated system too
        libo = []; shimo = []
        for src in sorted(glob.glob(REPO + "/src/*/*.c")):
            o = "%s/o/%s_%s.o" % (B, os.path.basename(os.path.dirname(src)), os.path.basename(src)[:-2]); libo.append(o)
            jobs.append(ex.submit(cc, src, o, CFLAGS))
        for spec in cfg.get("shim", []):
            src, *defs = spec.split(); o = "%s/o/shim_%s.o" % (B, hashlib.sha1(spec.encode()).hexdigest()[:8]); shimo.append(o)
            jobs.append(ex.submit(cc, V + "/shim/" + src, o, SHIMFLAGS + defs))
        if cfg.get("fast"): # the same sources without instrumentation, loaded at run time for streams of gigabytes
            fl = []
            for src in sorted(glob.glob(REPO + "/src/*/*.c")):
                o = "%s/o/fast_%s_%s.o" % (B, os.path.basename(os.path.dirname(src)), os.path.basename(src)[:-2]); fl.append(o)
                jobs.append(ex.submit(fastcc, src, o))
            for j in jobs: j.result()
            sh(["ar", "rcs", B + "/fast.a"] + fl)
            sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", B + "/fast.so"] + ["-Wl,-u," + n for n in cfg["fast"]] + [B + "/fast.a"])
        for j in jobs: j.result()
        ar = B + "/libulz.a"; sh(["ar", "rcs", ar] + libo)
        exe = B + "/sim"
        sh(["g++", "-no-pie", "-fsanitize=address"] + (["-rdynamic"] if cfg.get("fast") else []) + ["-o", exe, core.result(), sysj.result()] + scen + shimo + [ar, "-ldl"])
    return exe

def spawn(exe, mode, log=None, **kw):
    cmd = [exe, mode]
    for k, v in kw.items(): cmd += ["--" + k, str(v)]
    env = {k: v for k, v in os.environ.items() if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD")}
    env["TZ"] = "UTC"; env["LC_ALL"] = "C"
    return subprocess.Popen(cmd, stdout=log or subprocess.DEVNULL, stderr=subprocess.STDOUT, env=env, start_new_session=True)

def replay_once(exe, prop, B, f, trace=0, timeout=150, tier="quick"):
    out = B + "/replay.out"
    with open(out, "w") as log:
        p = spawn(exe, "replay", log, prop=prop, shared=B + "/replay.shared", file=f, trace=trace, tier=tier)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); return "hang", ""
    txt = open(out, errors="replace").read()
    if rc == 0: return "ok", txt
    if rc == 1:
        last = [l for l in txt.splitlines() if l.startswith("FAIL")]
        return (last[-1].split("class=")[1].split(" ")[0] if last else "?"), txt
    sh_ = open(B + "/replay.shared", "rb").read(32)
    h = struct.unpack("<QQIIQ", sh_)[4]
    return ("memory-error" if rc == 86 else "crash"), txt + "\nFAIL hash=%016x" % h

def hash_of(txt):
    for l in reversed(txt.splitlines()):
        if "hash=" in l: return l.split("hash=")[1].split()[0]
    return None

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    prop = a[0]; o = {}
    i = 1
    while i < len(a):
        k = a[i][2:]
        if k in ("build-only", "no-min", "no-evidence"): o[k] = True; i += 1
        else: o[k] = a[i + 1]; i += 2
    if prop == "all":
        bad = 0
        for p in SCEN:
            r = subprocess.call([sys.executable, __file__, p] + a[1:]); print(p, "exit", r, flush=True); bad |= r
        return bad
    cfg = SCEN[prop]; B = "%s/build/%s" % (V, prop)
    tier = o.get("tier") or os.environ.get("VERIF_TIER", "quick"); 
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(o.get("seed") or os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    try: exe = build(prop)
    except BuildError as e:
        print("BUILD FAILED for %s:\n%s" % (prop, e)); return 2
    t_build = time.time() - t_start
    if "build-only" in o: print(exe); return 0
    if "replay" in o:
        f = os.path.abspath(o["replay"]); cls, txt = replay_once(exe, prop, B, f, trace=1, tier=tier)
        print(txt[-20000:]); want = [l[7:] for l in open(f).read().splitlines() if l.startswith("class: ")]; wh = [l[6:] for l in open(f).read().splitlines() if l.startswith("hash: ")]
        same = want and cls == want[0] and wh and wh[0] == hash_of(txt)
        print("replay: class %s, recorded %s, hash %s" % (cls, want, "identical" if same else "DIFFERENT"))
        if cls == "ok": return 0
        print("VIOLATION property=%s replay=%s" % (prop, f)); return 1
    secs = float(o.get("secs") or cfg.get("secs_" + tier) or (18 if tier == "quick" else 420))
    runs = int(o.get("runs") or cfg.get("runs_" + tier) or (2000000 if tier == "quick" else 200000000))
    # ---- search
    ps = []; t_search = time.time(); rcs = [None] * NW; found = []; nonrepro = []; start_from = list(range(NW))
    def launch(w, frm):
        log = open("%s/w%d.log" % (B, w), "w")
        return spawn(exe, "run", log, prop=prop, shared="%s/w%d.shared" % (B, w), seed=seed, **{"from": frm}, step=NW, to=runs, secs=max(1.0, secs - (time.time() - t_search)), out="%s/w%d.json" % (B, w), tier=tier, hashlog="%s/w%d.hash" % (B, w))
    ps = [launch(w, w) for w in range(NW)]
    deadline = time.time() + secs + 120
    running = set(range(NW)); stop = False; hang = False
    while running:
        time.sleep(0.02)
        for w in sorted(running):
            rc = ps[w].poll()
            if rc is None: continue
            running.discard(w); rcs[w] = rc
            if rc != 0: found.append((w, rc)); stop = True
        if stop: break
        if time.time() > deadline: hang = True; break
    if stop: time.sleep(0.05)
    for w in sorted(running):
        if ps[w].poll() is None:
            try: os.killpg(ps[w].pid, 9)
            except ProcessLookupError: pass
            ps[w].wait()
        elif ps[w].returncode not in (0, -9): found.append((w, ps[w].returncode))
    t_search = time.time() - t_search
    if hang and not found: print("a worker did not finish in time"); return 2
    # ---- a failure: reproduce, minimise, reproduce
    if found:
        cands = []
        for w, rc in found:
            raw = "%s/fail%d.replay" % (B, w)
            cls = None if rc == 1 else ("memory-error" if rc == 86 else "crash")
            kw = dict(prop=prop, shared="%s/w%d.shared" % (B, w), out=raw)
            if cls: kw["class"] = cls
            spawn(exe, "dump", **kw).wait()
            n = os.path.getsize(raw); cands.append((n, raw))
        cands.sort()
        for n, raw in cands:
            want = [l[7:] for l in open(raw).read().splitlines() if l.startswith("class: ")][0]
            if want.startswith("harness-"): print("harness limit hit: %s" % want); continue
            c1, t1 = replay_once(exe, prop, B, raw, tier=tier); c2, t2 = replay_once(exe, prop, B, raw, tier=tier)
            if c1 != want or c2 != want or hash_of(t1) != hash_of(t2):
                print("not reproducible: wanted %s, got %s %s / %s %s" % (want, c1, hash_of(t1), c2, hash_of(t2))); continue
            final = raw
            if "no-min" not in o:
                m = raw + ".min"
                p = spawn(exe, "minimize", open(B + "/min.log", "w"), prop=prop, shared=B + "/min.shared", file=raw, out=m, secs=cfg.get("min_secs", 15), tier=tier)
                try: p.wait(120)
                except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait()
                if p.returncode == 0:
                    c1, t1 = replay_once(exe, prop, B, m, tier=tier); c2, t2 = replay_once(exe, prop, B, m, tier=tier)
                    if c1 == want and c2 == want and hash_of(t1) == hash_of(t2): final = m
                    else: print("minimised form does not reproduce; reporting the full trace")
            os.makedirs(V + "/replays", exist_ok=True)
            c, txt = replay_once(exe, prop, B, final, trace=1, tier=tier)
            dst = "%s/replays/%s-seed%d-%s.replay" % (V, prop, seed, hashlib.sha1(open(final, "rb").read()).hexdigest()[:10])
            body = open(final).read().splitlines(); hh = hash_of(t1)
            body = [("hash: " + hh if l.startswith("hash: ") else l) for l in body]
            with open(dst, "w") as f:
                f.write("property: %s\ntier: %s\n" % (prop, tier) + "\n".join(body) + "\n")
                f.write("# trace of the minimised execution (choices taken, events, verdict)\n")
                for l in txt.splitlines()[-400:]: f.write("# " + l + "\n")
            for l in txt.splitlines()[-40:]: print("  " + l)
            msg = [l for l in body if l.startswith("message: ")]
            print("%s: class %s %s" % (prop, want, msg[0] if msg else ""))
            print("re-run it with: python3 %s/check.py %s --replay %s" % (V, prop, dst))
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
            write_evidence(prop, cfg, tier, seed, B, exe, t_start, t_build, t_search, 1, None)
            return 1
        print("a run failed but did not reproduce"); return 2
    # ---- determinism sample: other process, other partition
    js = [json.load(open("%s/w%d.json" % (B, w))) for w in range(NW)]
    base = {}
    for w in range(NW):
        for l in open("%s/w%d.hash" % (B, w)):
            k, h, n = l.split(); base[int(k)] = (h, n)
            if len(base) > 60 * NW + 60 * w: break
    k = cfg.get("det_sample", 48)
    d = spawn(exe, "run", open(B + "/det.log", "w"), prop=prop, shared=B + "/det.shared", seed=seed, **{"from": 0}, step=1, to=k, secs=60, out=B + "/det.json", tier=tier, hashlog=B + "/det.hash")
    try: d.wait(120)
    except subprocess.TimeoutExpired: os.killpg(d.pid, 9); print("determinism sample timed out"); return 2
    det = 0
    for l in open(B + "/det.hash"):
        k, h, n = l.split()
        if int(k) in base:
            if base[int(k)] != (h, n): print("NOT DETERMINISTIC: run %s differs between processes" % k); return 2
            det += 1
    write_evidence(prop, cfg, tier, seed, B, exe, t_start, t_build, t_search, 0, det)
    tot = sum(j["runs"] for j in js)
    for l in known_findings(prop): print(l)
    print("%s: held in %d simulated runs (%.0f/s), seed %d, %s, %.1fs" % (prop, tot, tot / max(t_search, .001), seed, tier, time.time() - t_start))
    if tot < NW: print("too few runs"); return 2
    return 0

def known_findings(prop):
    out = []
    try:
        for l in open(V + "/known-findings.txt"):
            if l.startswith("KNOWN-FINDING: property=%s " % prop): out.append(l.rstrip())
    except OSError: pass
    return out

def write_evidence(prop, cfg, tier, seed, B, exe, t_start, t_build, t_search, violations, det):
    js = []
    for w in range(NW):
        try: js.append(json.load(open("%s/w%d.json" % (B, w))))
        except (OSError, ValueError): pass
    H = set(); C = set()
    for w in range(NW):
        try: b = open("%s/w%d.json.hashes" % (B, w), "rb").read(); H.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError: pass
        try: b = open("%s/w%d.json.cov" % (B, w), "rb").read(); C.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError: pass
    def tot(k): return sum(j[k] for j in js)
    def summap(k):
        m = {}
        for j in js:
            for x, v in j[k].items(): m[x] = m.get(x, 0) + v
        return m
    fn = {}
    if C:
        syms = sorted((int(l.split()[0], 16), l.split()[2]) for l in subprocess.run(["nm", "-n", exe], capture_output=True, text=True).stdout.splitlines() if len(l.split()) == 3 and l.split()[1] in "Tt")
        import bisect
        addrs = [s[0] for s in syms]
        for c in C:
            i = bisect.bisect_right(addrs, c) - 1
            if i >= 0: fn[syms[i][1]] = fn.get(syms[i][1], 0) + 1
    samples = []
    for idx in (0, 1):
        p = B + "/sample%d" % idx
        with open(p, "w") as f:
            q = spawn(exe, "seed", f, prop=prop, shared=B + "/sample.shared", seed=seed, index=idx, trace=1, tier=tier)
            try: q.wait(30)
            except subprocess.TimeoutExpired: os.killpg(q.pid, 9)
        t = open(p, errors="replace").read().splitlines()
        samples.append({"run": idx, "trace_head": t[:60], "trace_lines": len(t), "verdict": t[-1] if t else ""})
    runs = tot("runs") if js else 0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t_start, 2), violations=violations,
      coverage=dict(
        evaluations=runs, distinct_nontrivial=len(H),
        rule="one evaluation = one complete simulated execution (workload, schedule and faults all drawn from the run's seed); it is counted as distinct and non-trivial when its event-log hash was not seen before in this search and at least one fault fired or at least one context switch happened in it. " + cfg.get("rule", ""),
        samples=samples,
        runs_per_hour=int(runs / max(t_search, .001) * 3600), search_seconds=round(t_search, 2), build_seconds=round(t_build, 2),
        workers=NW, simulated_seconds=round(tot("sim_ns") / 1e9, 6) if js else 0,
        library_basic_blocks_executed=tot("steps") if js else 0, distinct_library_basic_blocks=len(C), library_functions_reached=len(fn), functions=dict(sorted(fn.items())),
        context_switches=tot("switches") if js else 0, distinct_interleaving_and_fault_signatures_summed_over_workers=tot("signatures") if js else 0,
        faults_fired=summap("faults") if js else {}, simulated_system_calls=summap("calls") if js else {}, rare_conditions_hit=summap("probes") if js else {},
        largest_share_of_step_budget_used=max(j["budget"] for j in js) if js else 0,
        choices_drawn=tot("choices") if js else 0, runs_repeated_in_another_process_with_identical_hash=det,
        real_code=cfg["real"], stubs=cfg.get("stubs", "allocator, system calls, clocks, randomness and process creation are simulated; libc string functions, qsort and fgets/glob logic are real libc code")),
      assumptions=cfg.get("assumptions", []))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)

if __name__ == "__main__":
    try: sys.exit(main())
    except KeyboardInterrupt: sys.exit(3)
