#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  run.py ID [--seed N] [--tier quick|thorough] [--sub NAME] [--replay FILE] [--scale X]

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=ID replay=PATH": it is broken.  Anything else is an error.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EOPSI_REPO", "/repo")
LIB = os.path.join(REPO, "src", "libeopsi")
TOOLS = os.path.join(REPO, "src", "test")
# /repo is built by g++ in its default dialect; clang has the better coverage
# feedback, g++ stands in should clang not accept a source.
TOOLCHAINS = [
    {"cxx": "clang++", "san": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,enum,vptr,function", "-fno-sanitize-recover=all"],
     "cov": ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"], "accesses": ["-fsanitize-coverage=trace-loads,trace-stores"]},
    {"cxx": "g++", "san": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,enum,vptr", "-fno-sanitize-recover=all"], "cov": [], "accesses": []},
]
COMMON = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w", "-pthread"]
LIBS = ["-lntl", "-lgmpxx", "-lgmp", "-lcryptopp", "-lpthread"]
ASAN = ("detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:"
        "max_malloc_fill_size=4096:malloc_fill_byte=190:handle_abort=1:handle_sigfpe=1:symbolize=1")
# C21 schedules threads at the loads and stores of the code under test
SCHED = {"C21"}
# C25 tells by return addresses who asks for memory
WHOLE = {"C25": ["-fno-inline"]}
LINK = {"C25": ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"]}
WORKERS = 8
CAP = {"quick": 240, "thorough": 3000}


def props():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        return {d["id"]: d for d in map(json.loads, f)}


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()[:16]


def compile_all(jobs):
    """jobs: list of (command, output). Compiles those whose output is missing."""
    def one(job):
        cmd, out = job
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
        os.replace(tmp, out)
        return None
    with ThreadPoolExecutor(WORKERS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))


class BuildError(Exception):
    pass


def with_toolchains(f, *args):
    errs = []
    for tc in TOOLCHAINS:
        try:
            return f(tc, *args)
        except BuildError as e:
            errs.append(str(e))
    print("BUILD ERROR\n" + "\n".join(errs), file=sys.stderr)
    sys.exit(3)


def build(pid):
    return with_toolchains(build_check, pid)


def build_tool(name):
    return with_toolchains(build_program, name)


def build_check(tc, pid):
    """The property's binary, from /repo's current sources."""
    headers = [p for e in ("h", "hpp") for p in glob.glob(os.path.join(LIB, "*." + e)) + glob.glob(os.path.join(REPO, "src", "*." + e))
               if os.path.basename(p) != "config.h"]
    mine = glob.glob(os.path.join(HERE, "engine", "*.hpp")) + glob.glob(os.path.join(HERE, "props", "*.hpp"))
    hrepo = digest(headers)
    hmine = digest(mine + headers)
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    jobs, objs = [], []

    def obj(src, flags, key):
        o = os.path.join(bdir, "%s-%s.o" % (os.path.basename(src).replace(".", "_"), digest([src], key + tc["cxx"] + " ".join(flags))))
        jobs.append(([tc["cxx"]] + flags + ["-c", src], o))
        objs.append(o)

    # the heaviest first
    own = COMMON + WHOLE.get(pid, []) + tc["san"] + ["-I" + os.path.join(HERE, "engine"), "-I" + LIB]
    accesses = tc["accesses"] if pid in SCHED else []
    obj(os.path.join(HERE, "props", pid + ".cpp"), own + accesses, hmine)
    if pid in SCHED:
        obj(os.path.join(HERE, "engine", "sched.cpp"), own, hmine)
    obj(os.path.join(HERE, "engine", "pbt.cpp"), own, hmine)
    obj(os.path.join(HERE, "engine", "ref.cpp"), own, hmine)
    obj(os.path.join(HERE, "engine", "gen.cpp"), own, hmine)
    for src in sorted(glob.glob(os.path.join(LIB, "*.cpp"))):
        obj(src, COMMON + WHOLE.get(pid, []) + tc["san"] + tc["cov"] + accesses, hrepo)
    compile_all(jobs)
    exe = os.path.join(bdir, "%s-%s" % (pid, digest(objs)))
    compile_all([([tc["cxx"]] + tc["san"] + ["-pthread"] + objs + LIBS + LINK.get(pid, []), exe)])
    return exe


def build_program(tc, name):
    """One of the programs of src/test, as a stand-alone executable."""
    bdir = os.path.join(HERE, "build")
    headers = [p for d in (LIB, TOOLS, os.path.join(REPO, "src")) for e in ("h", "hpp", "h.in") for p in glob.glob(os.path.join(d, "*." + e))
               if os.path.basename(p) != "config.h"]
    srcs = sorted(glob.glob(os.path.join(LIB, "*.cpp"))) + [os.path.join(TOOLS, name + ".cpp")]
    key = digest(headers + srcs + [os.path.join(HERE, "engine", "toolseed.cpp")], tc["cxx"] + " ".join(COMMON))
    inc = os.path.join(bdir, "tool-" + key)
    exe = os.path.join(inc, name)
    if os.path.exists(exe):
        return exe
    # config.h as cmake would make it, kept out of /repo
    os.makedirs(os.path.join(inc, "src"), exist_ok=True)
    with open(os.path.join(REPO, "src", "config.h.in")) as f:
        text = f.read()
    text = re.sub(r"^#cmakedefine01\s+(\w+).*$", r"#define \1 0", text, flags=re.M)
    text = re.sub(r"^#cmakedefine\s+(\w+)(.*)$", r"#define \1\2", text, flags=re.M)
    text = re.sub(r"@\w*VERSION\w*@", "0", text)
    text = re.sub(r"@\w+@", "", text)
    # the sources are copied beside the generated config.h, wherever they include it from
    for d in ("libeopsi", "test"):
        dst = os.path.join(inc, "src", d)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "src", d), dst)
    for h in glob.glob(os.path.join(REPO, "src", "*.h")):
        shutil.copy(h, os.path.join(inc, "src"))
    with open(os.path.join(inc, "src", "config.h"), "w") as f:
        f.write(text)
    flags = COMMON + tc["san"] + ["-I" + os.path.join(inc, "src"), "-I" + os.path.join(inc, "src", "libeopsi")]
    jobs, objs = [], []
    for src in [os.path.join(inc, "src", "test", name + ".cpp")] + sorted(glob.glob(os.path.join(inc, "src", "libeopsi", "*.cpp"))):
        o = os.path.join(inc, os.path.basename(src) + ".o")
        jobs.append(([tc["cxx"]] + flags + ["-c", src], o))
        objs.append(o)
    o = os.path.join(inc, "toolseed.o")
    jobs.append(([tc["cxx"]] + flags + ["-c", os.path.join(HERE, "engine", "toolseed.cpp")], o))
    objs.append(o)
    compile_all(jobs)
    compile_all([([tc["cxx"]] + tc["san"] + ["-pthread"] + objs + LIBS, exe)])
    return exe


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m[1] == pid:
                out.append((m[2], m[3].strip()))
    return out


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


ASSUME = ["the reference implementations in /verif/engine/ref.cpp and the models in /verif/props are right",
          "NTL, GMP and the compiler's sanitizers are right",
          "absence of failures is shown for the generated cases only"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build every check and nothing else")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.setup:
        for p in sorted(props()):
            if os.path.exists(os.path.join(HERE, "props", p + ".cpp")):
                build(p)
        for t in ("cherpars", "zzrndgen", "hbtest", "eopsisimul", "bptest", "polyfact"):
            build_tool(t)
        return 0
    if not a.pid:
        ap.error("which property?")
    pid, tier = a.pid, a.tier if a.tier in CAP else "quick"
    t0 = time.time()
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", LC_ALL="C")
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="eopsi-check-")
    try:
        if os.path.exists(os.path.join(HERE, "props", pid + ".py")):
            sys.path.insert(0, os.path.join(HERE, "props"))
            mod = __import__(pid)
            return mod.main(sys.modules[__name__], pid, tier, a.seed, scratch, rdir, env, a.replay, a.scale)
        exe = build(pid)
        tb = time.time() - t0
        if a.replay:
            return subprocess.run([exe, "--replay", a.replay, "--scratch", scratch], env=env).returncode
        out = os.path.join(scratch, "out.json")
        cmd = [exe, "--out", out, "--scratch", scratch, "--replay-dir", rdir, "--seed", str(a.seed), "--workers", str(WORKERS),
               "--cap", str(CAP[tier]), "--scale", str(a.scale)]
        if tier == "thorough":
            cmd += ["--thorough", "--shrink", "90"]
        if a.sub:
            cmd += ["--sub", a.sub]
        # regression tier: the saved minimal cases of earlier failures, first
        nreg, bad = 0, None
        for r in sorted(glob.glob(os.path.join(HERE, "regress", pid + "-*.json"))):
            nreg += 1
            p = subprocess.run([exe, "--replay", r, "--scratch", scratch], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
            if p.returncode == 1 and all(subprocess.run([exe, "--replay", r, "--scratch", scratch], env=env,
                                                        stdout=subprocess.DEVNULL).returncode == 1 for _ in range(2)):
                bad = (r, p.stdout)
                break
            if p.returncode not in (0, 1):
                print("cannot replay", r, file=sys.stderr)
        if bad:
            print(bad[1][-3000:].replace("\0", "\\0"), file=sys.stderr)
            write_evidence(pid, tier, a.seed, {"evaluations": nreg, "distinct_nontrivial": nreg, "rule": "saved regression cases",
                                               "samples": [bad[1][:2000]]}, time.time() - t0, 1, ASSUME)
            print("VIOLATION property=%s replay=%s" % (pid, bad[0]))
            return 1
        p = subprocess.run(cmd, env=env, stdout=sys.stderr)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("the driver of %s ended with status %d" % (pid, p.returncode), file=sys.stderr)
            return 4
        d = json.load(open(out))
        cov = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": d["rule"], "samples": d["samples"],
               "planned": d["planned"], "discarded": d["discarded"], "nontrivial": d["nontrivial"],
               "cases_mutated_from_coverage_corpus": d["mutated"], "corpus_entries": d["corpus"], "edges_of_the_library_seen": d["edges"],
               "regression_cases_replayed": nreg, "label_counts": d["labels"], "build_s": round(tb, 1)}
        if d["inconclusive"]:
            cov["inconclusive"] = d["inconclusive"]
        if d["failure"]:
            cov["failure"] = d["failure"]
        write_evidence(pid, tier, a.seed, cov, time.time() - t0, d["verdict"], ASSUME)
        for line in d["inconclusive"]:
            print("inconclusive: " + line)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d edges, %.1f s (build %.1f s)" % (
            pid, tier, a.seed, d["evaluations"], d["distinct_nontrivial"], d["edges"], time.time() - t0, tb))
        if d["verdict"]:
            print(d["failure"][:1500].replace("\0", "\\0"))
            print("VIOLATION property=%s replay=%s" % (pid, d["replay"]))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
