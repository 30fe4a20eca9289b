#!/usr/bin/env python3
"""Build the library from the repository's working tree with sanitizers and
coverage, link it with one check group and run the property's generated-input
search.   run.py <Pxx> [--tier quick|thorough] [--replay FILE] [--sub NAME]
Exit 0: held on everything explored (known findings are printed).
Exit 1: a line VIOLATION property=<id> replay=<path>."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
GROUPS = {
    "bits": ["P01", "P02", "P03", "P04", "P05", "P06", "P11"],
    "signal": ["P07", "P08", "P09", "P10", "P43", "P48", "P49"],
    "time": ["P12", "P13", "P14", "P15", "P16", "P17", "P18"],
    "decode": ["P19", "P20", "P21", "P22", "P23", "P24", "P25"],
    "eph": ["P26", "P27", "P28", "P29", "P30", "P31", "P32", "P33", "P34"],
    "coord": ["P35", "P36", "P42"],
    "linalg": ["P37", "P38", "P39"],
    "atmo": ["P40", "P41"],
    "pvt": ["P44", "P45", "P46", "P47"],
    "misc": ["P50", "P51"],
    "conc": ["P52", "P53"],
    "chain": ["P54"],
}
# the library of this group reports every load, store and block copy
LIB_FLAGS = {"conc": ["-fsanitize-coverage=trace-loads,trace-stores", "-Dmemcpy=vp_memcpy", "-Dmemmove=vp_memmove"]}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base,signed-integer-overflow,function,nonnull-attribute",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
COMMON = ["-O1", "-g1", "-UNDEBUG", "-fexceptions", "-w"]
# seconds of search, per property overrides; floors of cases scale with the tier
QUICK_S = {}
THOROUGH_S = {}
DEF_QUICK, DEF_THOROUGH = 10.0, 240.0

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def all_files(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return sorted(out)

def compile_one(job):
    cmd, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout
    os.rename(tmp, obj)
    return None

def build(group):
    text = re.sub(r"#.*", "", open(os.path.join(REPO, "CMakeLists.txt")).read())
    srcs = re.search(r"set\(SRCS([^)]*)\)", text).group(1).split()
    maxch = re.search(r'set\(MAX_CHANNELS "([0-9]+)"', text).group(1)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    gen = os.path.join(BUILD, "gen-" + maxch)
    os.makedirs(gen, exist_ok=True)
    mc = open(os.path.join(REPO, "src/max_channels.h.in")).read()
    mc = mc.replace("${MAX_CHANNELS}", maxch).replace("@MAX_CHANNELS@", maxch)
    mch = os.path.join(gen, "max_channels.h")
    if not os.path.exists(mch) or open(mch).read() != mc:
        open(mch, "w").write(mc)
    hdrs = all_files(os.path.join(REPO, "include"), (".h",)) + all_files(os.path.join(REPO, "src"), (".h", ".inc")) + [mch]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen]
    jobs, objs = [], []
    def add(src, cmd, deps):
        key = digest([src] + deps, " ".join(cmd))
        obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
        jobs.append((cmd + ["-c", src], obj)); objs.append(obj)
    gsrc = os.path.join(HERE, "checks", group + ".cc")
    local = all_files(os.path.join(HERE, "checks"), (".h",)) + [os.path.join(HERE, "engine/pbt.h")]
    cxx = ["clang++", "-std=gnu++17", "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "checks")] + COMMON + SAN + inc
    add(gsrc, cxx, hdrs + local)
    shim = os.path.join(HERE, "checks", group + "_shim.c")  # C-only macros
    if os.path.exists(shim):
        add(shim, ["clang", "-std=gnu99"] + COMMON + ["-fsanitize=address"] + inc, hdrs)
    add(os.path.join(HERE, "engine/pbt.cc"), ["clang++", "-std=gnu++17", "-I" + os.path.join(HERE, "engine"), "-O2", "-g1", "-w"], local)
    add(os.path.join(HERE, "engine/logs.cc"), ["clang++", "-std=gnu++17", "-I" + os.path.join(HERE, "engine"), "-O1", "-g1", "-w"] + inc, hdrs + local)
    lib0 = len(objs)
    order = sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
    for s in order:
        add(os.path.join(REPO, s), ["clang", "-std=gnu99", "-DLIBSWIFTNAV_ENABLE_STDERR_LOGGING"] + COMMON + SAN + LIB_FLAGS.get(group, []) + inc, hdrs)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs)); sys.exit(2)
    if group in LIB_FLAGS:  # markers around the library's own data
        marks = []
        for m in ("begin", "end"):
            src = os.path.join(gen, "lib_%s.c" % m)
            text = "char lib_data_%s[16] = {1};\nchar lib_bss_%s[16];\n" % (m, m)
            if not os.path.exists(src) or open(src).read() != text:
                open(src, "w").write(text)
            obj = os.path.join(BUILD, "obj", "lib_%s.o" % m)
            e = compile_one((["clang", "-O1", "-fno-common", "-c", src], obj))
            if e:
                sys.stderr.write(e); sys.exit(2)
            marks.append(obj)
        objs[lib0:] = [marks[0]] + objs[lib0:] + [marks[1]]
    exe = os.path.join(BUILD, group + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["clang++", "-fsanitize=address,undefined"] + objs + ["-lm", "-o", tmp])
        if r.returncode:
            sys.stderr.write(r.stdout); sys.exit(2)
        os.rename(tmp, exe)
    return exe

def known(prop):
    """open findings: {key: text}"""
    out = {}
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--sub"); ap.add_argument("--budget", type=float)
    ap.add_argument("--floor", type=float)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a.build_only:
        for g in GROUPS:
            if a.prop in ("all", g) and os.path.exists(os.path.join(HERE, "checks", g + ".cc")):
                build(g)
        return 0
    t0 = time.time()
    group = [g for g, ps in GROUPS.items() if a.prop in ps][0]
    exe = build(group)
    tb = time.time() - t0
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (a.prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    thorough = a.tier == "thorough"
    budget = a.budget or (THOROUGH_S.get(a.prop, DEF_THOROUGH) if thorough else QUICK_S.get(a.prop, DEF_QUICK))
    floor = a.floor or (10 if thorough else 1)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TZ"] = "UTC"; env["LC_ALL"] = "C"
    cmd = [exe, "--prop", a.prop, "--seed", str(seed), "--budget", str(budget), "--floor", str(floor),
           "--workers", str(max(2, min(8, os.cpu_count() or 2))), "--out", work]
    if a.sub: cmd += ["--sub", a.sub]
    if a.replay:
        r = subprocess.run(cmd + ["--replay", os.path.abspath(a.replay)], env=env)
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode
    for f in (sys.stdout, sys.stderr): f.reconfigure(encoding="ascii", errors="backslashreplace")
    with open(os.path.join(work, "stderr.log"), "wb+") as ef:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=ef, text=True, errors="backslashreplace")
        end = ef.seek(0, 2); ef.seek(max(0, end - 200000))
        sys.stderr.write(ef.read().decode("ascii", "backslashreplace"))
    kf = known(a.prop)
    rc = p.returncode
    viol = None
    findings = []
    for l in p.stdout.splitlines():
        if l.startswith("PROBE "):
            _, key, state, what = (l.split(" ", 3) + [""])[:4]
            if state == "fails":
                if key in kf:
                    print("KNOWN-FINDING: property=%s %s" % (a.prop, kf[key]))
                    findings.append(kf[key])
                else:
                    rd = os.path.join(evdir, "replays"); os.makedirs(rd, exist_ok=True)
                    f = os.path.join(rd, "%s-probe-%s.txt" % (a.prop, key))
                    open(f, "w").write("# probe %s: %s\n" % (key, what))
                    print("FAILURE probe %s %s" % (key, what))
                    viol = "VIOLATION property=%s replay=%s" % (a.prop, f)
        elif l.startswith("VIOLATION "):
            rd = os.path.join(evdir, "replays"); os.makedirs(rd, exist_ok=True)
            src = l.split("replay=", 1)[1]
            dst = os.path.join(rd, os.path.basename(src))
            shutil.copy(src, dst)
            viol = "VIOLATION property=%s replay=%s" % (a.prop, dst)
        else:
            print(l)
    if rc not in (0, 1):
        sys.stderr.write("engine exit %d\n" % rc); return 2
    s = json.load(open(os.path.join(work, "summary.json")))
    rules = ["%s: %s" % (k, v["rule"]) for k, v in s["subtests"].items()]
    ev = {"property": a.prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"],
                       "rule": "Cases are choice sequences drawn by the generators below (30% mutated from a coverage-guided corpus); "
                               "a case counts once, by hash of its choices, when its generator marks it non-trivial. " + " | ".join(rules),
                       "samples": s["samples"] or ["(run ended before sampling)"],
                       "subtests": s["subtests"], "instrumented_edges": s["instrumented_edges"],
                       "unreproducible_failures": s["unreproducible"], "known_findings": findings,
                       "exhaustive": all(v["exhaustive"] for v in s["subtests"].values())},
          "assumptions": ["library compiled by clang -O1 with address and undefined-behaviour sanitizers from the working tree",
                          "oracles in checks/%s.cc" % group],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    sys.stderr.write("%s: build %.1fs, %d cases, %d distinct non-trivial, %.1fs\n" % (a.prop, tb, s["evaluations"], s["distinct_nontrivial"], time.time() - t0))
    if viol:
        print(viol); return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
