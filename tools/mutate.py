#!/usr/bin/env python3
"""Development aid (no check uses it): measures the checks with mechanical mutants.

  mutate.py OUT.json [file-or-property ...]

Copies /repo and /verif to /tmp/mut, mutates one token at a time in the files the claimed properties are
anchored in, and searches with the matching simulations for a few seconds.  Survivors are listed in OUT.json.
"""
import sys, os, re, json, shutil, subprocess, glob, time, hashlib, importlib.util
from multiprocessing import Process, Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SECS = float(os.environ.get("MUT_SECS", "5")); NW = int(os.environ.get("MUT_WORKERS", "8")); ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")

EXTRA = {"include/tglist.h": ["C06", "C07"], "include/tgilist.h": ["C06", "C07"], "include/bmap.h": ["C07"], "include/hbmap.h": ["C07"], "include/ssalloc.c": ["C21"], "include/guard_alloc.c": ["C22"], "include/bitarray.h": ["C21"],
  "src/stringptr/stringptr_new.c": ["C10", "C01"], "src/stringptr/stringptr_eq.c": ["C05"]}

def file_props():
    m = {}
    claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l); a = d["anchors"]
        if d["id"] not in claimed or d["id"] == "C20": continue
        for f in a["files"]:
            if "*" in f: continue
            if f.endswith(".c") or f in EXTRA: m.setdefault(f, set()).add(d["id"])
    for f, p in EXTRA.items(): m.setdefault(f, set()).update(p)
    return {f: sorted(p) for f, p in m.items()}

def mutants(path, text):
    lines = text.split("\n"); out = []; incom = False; skip = 0
    for ln, l in enumerate(lines):
        s = l.strip()
        if incom:
            if "*/" in l: incom = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incom = True
            continue
        if s.startswith("//") or re.match(r"[\s0-9a-fxA-FUL,]+$", s): continue
        if re.match(r"#\s*if.*(TEST|\b0\b|FreeBSD)", s): skip += 1; continue
        if skip:
            if re.match(r"#\s*if", s): skip += 1
            elif re.match(r"#\s*endif", s): skip -= 1
            continue
        if s.startswith("#") and not re.match(r"#\s*define \w+\(", s) and not re.match(r"#\s*define [OP]FLAGS", s): continue
        code = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group()), l)
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', lambda m: "\x01" * len(m.group()), code)
        def add(a, b, new, kind):
            nl = l[:a] + new + l[b:]
            if nl != l: out.append((ln, nl, kind))
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||<<|>>|->|\+\+|--|\+=|-=|[<>+\-*/%&|]", code):
            t = m.group(); a, b = m.span()
            rep = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-="], "-=": ["+="], "<<": [">>"], ">>": ["<<"], "++": ["--"], "--": ["++"]}.get(t)
            if t in "<>": rep = [t + "="] if not re.match(r"#\s*include", s) else None
            if t in "+-" and code[max(0, a-1):a].strip() == "" and re.search(r"[\w\])]\s*$", code[:a]): rep = ["-" if t == "+" else "+"]
            elif t in "+-" and re.search(r"[\w\])]$", code[:a]): rep = ["-" if t == "+" else "+"]
            if t in "%/" and re.search(r"[\w\])]\s*$", code[:a]): rep = ["*"] if t == "/" else ["/"]
            if t in "|&" and re.search(r"[\w\])]\s*$", code[:a]) and re.match(r"\s*[\w(~]", code[b:]): rep = ["&" if t == "|" else "|"]
            for r in rep or []: add(a, b, r, t + "->" + r)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)", code):
            t = m.group(); v = int(t, 0) if not (len(t) > 1 and t[0] == "0" and t[1].isdigit()) else int(t, 8)
            add(*m.span(), str(v + 1), "const+1")
            if v > 0: add(*m.span(), str(v - 1), "const-1")
        m = re.match(r"(\s*)([^{}]*;)\s*$", code)
        if m and not re.match(r"\s*(return|static|const|size_t|ssize_t|int|char|unsigned|struct|stringptr|va_list|fileparser|uint|extern|break|case|default|\w+\s+\*?\w+(\s*,|;|\[))", code) and "for" not in code[:8] and "if(" not in code and "while" not in code and "}" not in code:
            add(len(m.group(1)), len(code.rstrip()), ";", "delete")
        m = re.match(r"(\s*(?:\}\s*else\s+)?if\s?\()(.*)(\)\s*[^()]*(\(.*)?)$", code)
        for m in re.finditer(r"\bif\s?\(", code): add(m.end(), m.end(), "0 && ", "if0"); add(m.end(), m.end(), "1 || ", "if1")
        for m in re.finditer(r"\breturn ([^;]+);", code):
            for r in ("0", "1", "-1"):
                if m.group(1).strip() != r: add(m.start(1), m.end(1), r, "return " + r)
        for m in re.finditer(r"\bgoto \w+;", code): add(*m.span(), ";", "no goto")
        for m in re.finditer(r"\bbreak;", code): add(*m.span(), ";", "no break")
        for m in re.finditer(r"\|\s*(O_\w+|S_\w+|GLOB_\w+|NTS_\w+|FLF_\w+)", code): add(*m.span(), "", "no flag")
        for m in re.finditer(r"!(?=[\w(])", code): add(*m.span(), "", "no !")
    seen = set()
    for ln, nl, kind in out:
        if (ln, nl) in seen: continue
        seen.add((ln, nl)); yield ln, nl, kind

def worker(i, q, res):
    W = "%s/w%d" % (ROOT, i); shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    os.makedirs(W + "/verif")
    for d in ("sim", "scen", "shim", "tools", "check.py", "MANIFEST.json", "known-findings.txt"): subprocess.check_call(["cp", "-a", V + "/" + d, W + "/verif/"])
    os.environ["ULZ_REPO"] = W + "/repo"; os.environ["ULZ_WORKERS"] = "2"
    spec = importlib.util.spec_from_file_location("chk", W + "/verif/check.py"); chk = importlib.util.module_from_spec(spec); spec.loader.exec_module(chk)
    built = {}
    while True:
        job = q.get()
        if job is None: break
        f, ln, nl, kind, props = job
        path = W + "/repo/" + f; orig = open(path).read()
        for p in props:
            if p not in built: chk.build(p); built[p] = 1
        L = orig.split("\n"); old = L[ln]; L[ln] = nl
        try:
            open(path, "w").write("\n".join(L)); verdict = None; why = ""
            for p in props:
                B = "%s/verif/build/%s" % (W, p); inc = "-I" + W + "/repo/include"; redef = B + "/redef"
                def cc(src, o, flags):
                    chk.sh(["gcc"] + flags + [inc, "-I" + W + "/verif/shim", "-c", src, "-o", o])
                    chk.sh(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=ulz_data", "--rename-section", ".bss=ulz_bss,alloc,load,data,contents", o])
                try:
                    shimo = []
                    for spec_ in chk.SCEN[p].get("shim", []):
                        src, *defs = spec_.split(); o = "%s/o/shim_%s.o" % (B, hashlib.sha1(spec_.encode()).hexdigest()[:8])
                        if f.startswith("include/"): cc(W + "/verif/shim/" + src, o, chk.SHIMFLAGS + defs)
                        shimo.append(o)
                    if f.startswith("src/"):
                        srcs = [path] + ([W + "/repo/src/crc32/crc32c.c"] if "crc32_impl" in f else [])
                        for sf in srcs:
                            o = "%s/o/%s_%s.o" % (B, os.path.basename(os.path.dirname(sf)), os.path.basename(sf)[:-2]); cc(sf, o, chk.CFLAGS)
                            subprocess.check_call(["ar", "r", B + "/libulz.a", o], stderr=subprocess.DEVNULL)
                    core, sysj = chk.harness_object(W + "/verif/sim/core.cpp"), chk.harness_object(W + "/verif/sim/sys.cpp")
                    scen = [B + "/" + s.replace(".cpp", ".o") for s in chk.SCEN[p]["scen"]]
                    exe = B + "/sim.mut"
                    chk.sh(["g++", "-no-pie", "-fsanitize=address", "-o", exe, core, sysj] + scen + shimo + [B + "/libulz.a", "-ldl"])
                except chk.BuildError: verdict = "nocompile"; break
                log = open(B + "/mut.log", "w")
                pr = chk.spawn(exe, "run", log, prop=p, shared=B + "/mut.shared", seed=7, **{"from": 0}, step=1, to=1000000, secs=SECS, out=B + "/mut.json", tier="quick", hashlog=B + "/mut.hash")
                try: rc = pr.wait(SECS + 40)
                except subprocess.TimeoutExpired: os.killpg(pr.pid, 9); pr.wait(); rc = "hang"
                if rc != 0:
                    t = open(B + "/mut.log", errors="replace").read(); m = re.findall(r"class=(\S+)", t)
                    verdict = "killed"; why = "%s %s %s" % (p, rc, m[-1] if m else ""); break
            res.put(dict(file=f, line=ln + 1, old=old.strip(), new=nl.strip(), kind=kind, props=props, verdict=verdict or "survived", why=why))
        except Exception as e: res.put(dict(file=f, line=ln + 1, old=old.strip(), new=nl.strip(), kind=kind, props=props, verdict="error", why=repr(e)[:300]))
        finally:
            open(path, "w").write(orig)
            # put the unmutated objects back
            for p in props:
                B = "%s/verif/build/%s" % (W, p); inc = "-I" + W + "/repo/include"
                def cc(src, o, flags):
                    chk.sh(["gcc"] + flags + [inc, "-I" + W + "/verif/shim", "-c", src, "-o", o])
                    chk.sh(["objcopy", "--redefine-syms=" + B + "/redef", "--rename-section", ".data=ulz_data", "--rename-section", ".bss=ulz_bss,alloc,load,data,contents", o])
                if f.startswith("src/"):
                    for sf in [path] + ([W + "/repo/src/crc32/crc32c.c"] if "crc32_impl" in f else []):
                        o = "%s/o/%s_%s.o" % (B, os.path.basename(os.path.dirname(sf)), os.path.basename(sf)[:-2]); cc(sf, o, chk.CFLAGS)
                        subprocess.check_call(["ar", "r", B + "/libulz.a", o], stderr=subprocess.DEVNULL)
    res.put(None)

def main():
    out = sys.argv[1]; want = sys.argv[2:]; jobs = []
    for f, props in sorted(file_props().items()):
        ps = props
        if want:
            if f in want or os.path.basename(f) in want: pass
            else: ps = [p for p in props if p in want]
        if not ps or not os.path.exists("/repo/" + f): continue
        for ln, nl, kind in mutants(f, open("/repo/" + f).read()): jobs.append((f, ln, nl, kind, ps))
    print(len(jobs), "mutants", flush=True)
    if os.environ.get("MUT_LIST"): return
    import random
    q, res = Queue(), Queue()
    for j in jobs: q.put(j)
    for _ in range(NW): q.put(None)
    ws = [Process(target=worker, args=(i, q, res)) for i in range(NW)]
    for w in ws: w.start()
    done = []; live = NW; t = time.time()
    while live:
        r = res.get()
        if r is None: live -= 1; continue
        done.append(r)
        if len(done) % 50 == 0:
            json.dump(done, open(out, "w"), indent=0); print(len(done), {v: sum(1 for d in done if d["verdict"] == v) for v in ("killed", "survived", "nocompile", "error")}, int(time.time() - t), flush=True)
    json.dump(done, open(out, "w"), indent=0)
    print({v: sum(1 for d in done if d["verdict"] == v) for v in ("killed", "survived", "nocompile", "error")})
main()
