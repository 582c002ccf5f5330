#!/usr/bin/env python3
"""Builds a property check from /repo's working tree and runs it.

    python3 check.py C01                 the check (VERIF_SEED, VERIF_TIER), writes evidence/C01.json
    python3 check.py C01 --replay FILE   runs a saved case again
    python3 check.py --build             builds everything (setup)
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VGRAM_REPO", "/repo")
MAIN = os.path.join(REPO, "core/src/main/cpp")
BINDING = os.path.join(REPO, "binding/src/main/cpp")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.environ.get("VGRAM_BUILD", os.path.join(HERE, "build"))
JOBS = 8

COMMON = ["-include", "cstdint", "-include", "iostream", "-include", "limits", "-include", "algorithm",
          "-w", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-I" + MAIN + "/interfaces", "-I" + MAIN + "/algorithm", "-I" + HARNESS]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
GCC = ["g++", "-std=gnu++14", "-O1"] + SAN
TSAN = ["g++", "-std=gnu++14", "-O1", "-fsanitize=thread"]
CLANG = ["clang++", "-std=gnu++14", "-O1"] + SAN

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=2600:malloc_fill_byte=190:"
                        "max_malloc_fill_size=4096:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="halt_on_error=1:exitcode=99:history_size=4", MALLOC_PERTURB_="0", LC_ALL="C")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:24]


def sources(interfaces):
    out = []
    roots = ["algorithm"] + (["interfaces"] if interfaces else [])
    for root in roots:
        for base, dirs, files in os.walk(os.path.join(MAIN, root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".cpp")):
                    out.append(os.path.join(base, f))
    return out


def header_state(binding=False):
    """hash of every header a source could include"""
    h = hashlib.sha256()
    for root in (os.path.join(MAIN, "algorithm"), os.path.join(MAIN, "interfaces"), HARNESS) + ((BINDING,) if binding else ()):
        for base, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl")) or root == BINDING and f.endswith(".cc"):
                    p = os.path.join(base, f)
                    h.update(p.encode() + open(p, "rb").read())
    return h.hexdigest()


def compile_one(args):
    compiler, src, extra, headers = args
    key = digest(compiler, COMMON, extra, open(src, "rb").read(), headers, src)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(compiler + COMMON + extra + ["-c", src, "-o", tmp])
        if r.returncode:
            return src, None, r.stdout
        os.replace(tmp, obj)
    return src, obj, ""


def thread_sanitizer_works():
    """it depends on the memory layout the kernel gives to processes"""
    exe = os.path.join(BUILD, "try-tsan")
    src = "#include <thread>\n#include <unistd.h>\n#include <sys/wait.h>\nint main() { pid_t p = fork(); if (!p) { int x = 0; std::thread t([&] { x = 1; }); t.join(); _exit(x - 1); } int s = 1; waitpid(p, &s, 0); return s != 0; }\n"
    if not os.path.exists(exe):
        r = sh(TSAN + ["-x", "c++", "-", "-o", exe + ".%d" % os.getpid(), "-pthread"], input=src)
        if r.returncode:
            return False
        os.replace(exe + ".%d" % os.getpid(), exe)
    return all(sh([exe], env=ENV).returncode == 0 for _ in range(3))


def build(tus, interfaces, fuzz=False, sanitizer="address"):
    """links engine + tus + the library; returns the path of the program"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    headers = header_state()
    plain = TSAN if sanitizer == "thread" and thread_sanitizer_works() else GCC
    compiler = CLANG + ["-fsanitize=fuzzer-no-link"] if fuzz else plain
    jobs = [(compiler, s, [], headers) for s in sources(interfaces)]
    python = ["-I" + os.path.join(REPO, "binding"), "-I" + os.path.join(REPO, "core"), "-I" + os.path.join(HARNESS, "stub")]
    jobs += [(compiler, os.path.join(HARNESS, t)) + ((python, header_state(True)) if t == "p_binding.cc" else ([], headers)) for t in tus]
    jobs += [((CLANG if fuzz else plain), os.path.join(HARNESS, "engine.cc"), ["-DPBT_FUZZ"] if fuzz else [], headers)]
    # the slowest files first
    jobs.sort(key=lambda j: (0 if j[1].startswith(HARNESS) else 1 if "vgram_builders" in j[1] else 2))
    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(compile_one, jobs))
    for src, obj, err in done:
        if obj is None:
            # an unused template source of the library may be left out, like in the library's own target lists
            print("cannot compile %s\n%s" % (src, err[-6000:]))
            sys.exit(2)
    objs = [o for _, o, _ in done]
    exe = os.path.join(BUILD, "run-" + digest(objs, fuzz))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh((CLANG + ["-fsanitize=fuzzer"] if fuzz else plain) + objs + ["-pthread"] + ["-o", tmp])
        if r.returncode:
            print("cannot link\n" + r.stdout[-6000:])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def load_plan():
    sys.path.insert(0, HERE)
    import plan
    return plan.PLAN


def known_findings(prop):
    """the open (not repaired) findings listed for a property: [(check, text)]"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                out.append(line[len("open: property=%s " % prop):])
    return out


def fuzz_campaign(prop, p, seed, seconds, outdir):
    """coverage-guided search (thorough tier): every check of the property, one libFuzzer process per check at a time"""
    exe = build(p["tus"], p["interfaces"], fuzz=True)
    plain = build(p["tus"], p["interfaces"], False, p["sanitizer"])
    subs = p.get("fuzz", [])
    res = {"executions": 0, "campaigns": []}
    violation = None
    for i, sub in enumerate(subs):
        tmp = tempfile.mkdtemp(prefix="vgram-fuzz-")
        try:
            procs = []
            for w in range(JOBS):
                corpus = os.path.join(tmp, "c%d" % w)
                os.makedirs(corpus)
                env = dict(ENV, PBT_PROP=prop, PBT_SUB=sub, PBT_TMP=tmp)
                log = open(os.path.join(tmp, "log%d" % w), "w")
                procs.append(subprocess.Popen(
                    [exe, corpus, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % (seconds // max(1, len(subs))),
                     "-max_len=%d" % (2048 if w % 2 else 512), "-len_control=20", "-timeout=60", "-rss_limit_mb=2600",
                     "-print_final_stats=1", "-use_value_profile=%d" % (w % 2),
                     "-artifact_prefix=" + os.path.join(tmp, "art%d-" % w)],
                    stdout=subprocess.DEVNULL, stderr=log, env=env, cwd=tmp))
            for w, pr in enumerate(procs):
                pr.wait()
            runs, cov = 0, 0
            for w in range(JOBS):
                text = open(os.path.join(tmp, "log%d" % w), errors="replace").read()
                for line in text.splitlines():
                    if "stat::number_of_executed_units" in line:
                        runs += int(line.split()[-1])
                    if " cov: " in line:
                        cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
            res["executions"] += runs
            res["campaigns"].append({"check": sub, "executions": runs, "edges": cov})
            for f in sorted(os.listdir(tmp)):
                if f.startswith("art"):
                    r = sh([plain, "--prop", prop, "--sub", sub, "--bytes", os.path.join(tmp, f), "--replays", outdir], env=ENV)
                    if r.returncode == 1 and "FOUND " in r.stdout:
                        lines = r.stdout.splitlines()
                        at = [k for k, l in enumerate(lines) if l.startswith("FOUND ")][0]
                        violation = (lines[at][6:], "\n".join(lines[at + 1:]))
                        break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if violation:
            break
    return res, violation


def main():
    plan = load_plan()
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        for prop in sorted(plan):
            try:
                build(plan[prop]["tus"], plan[prop]["interfaces"], False, plan[prop]["sanitizer"])
            except SystemExit:
                print("not built: " + prop)      # its check says so; the others run
        print("built")
        return 0
    prop = sys.argv[1]
    p = plan[prop]
    exe = build(p["tus"], p["interfaces"], False, p["sanitizer"])
    if "--replay" in sys.argv:
        r = subprocess.run([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1]], env=ENV)
        return r.returncode
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    here = os.environ.get("VGRAM_OUT", HERE)
    replays = os.path.join(here, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    fd, out = tempfile.mkstemp(prefix="vgram-check-", suffix=".json")
    os.close(fd)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--replays", replays,
           "--shards", str(JOBS), "--wall", "600" if tier == "quick" else "5400"]
    if "--shrink" in sys.argv:
        cmd += ["--shrink", sys.argv[sys.argv.index("--shrink") + 1]]
    if "--only" in sys.argv:        # one of the checks of the property
        cmd += ["--sub", sys.argv[sys.argv.index("--only") + 1]]
    if "--scale" in sys.argv:
        cmd += ["--scale", sys.argv[sys.argv.index("--scale") + 1]]
    r = subprocess.run(cmd, env=ENV)
    if r.returncode not in (0, 1):
        print("the runner of %s ended with %d" % (prop, r.returncode))
        return 2
    res = json.load(open(out))
    os.unlink(out)
    violation, message = res.pop("violation"), res.pop("message")
    fuzz = None
    if tier == "thorough" and not violation and p.get("fuzz"):
        fuzz, v = fuzz_campaign(prop, p, seed, int(os.environ.get("VERIF_FUZZ_SECONDS", "600")), replays)
        res["evaluations"] += fuzz["executions"]
        res["coverage_guided"] = fuzz
        if v:
            violation, message = v
    res["rule"] = p["rule"]
    for finding in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, finding))
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": res,
                "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - start, 2),
                "violations": 1 if violation else 0}
    path = os.path.join(here, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, res["evaluations"], res["distinct_nontrivial"],
                                                            time.time() - start))
    if violation:
        print(message)
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
