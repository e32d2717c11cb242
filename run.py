#!/usr/bin/env python3
"""Build and run the property checks.

  run.py C01            build what C01 needs from /repo's working tree, run it
  run.py --replay FILE  rebuild, then run the saved input only
  run.py --setup        build every harness (fills the compiler cache)
  run.py --list         list the properties

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Exit 0: held; 1 with a VIOLATION line: violated; anything else: check error.
"""
import concurrent.futures, fcntl, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, ".build", "replays")

from groups import GROUPS, PROPS  # noqa: E402

# Cheap undefined-behaviour checks that name the defect; arithmetic overflow of
# query operands is outside the properties, so it is not trapped here.
UBSAN_LIB = "-fsanitize=bounds,null,return,unreachable,vla-bound,integer-divide-by-zero,bool -fno-sanitize-recover=all"
SAN = {
    "asan": "-fsanitize=address " + UBSAN_LIB,
    "full": "-fsanitize=address,undefined -fno-sanitize-recover=all",
    "tsan": "-fsanitize=thread",
}
CXX = os.environ.get("VERIF_CXX", "clang++")
BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-DSIMFIL_WITH_MODEL_JSON", "-include", f"{VERIF}/shim/prelude.h",
        f"-I{REPO}/include", f"-I{VERIF}/shim", f"-I{VERIF}/engine", f"-I{VERIF}/harness",
        "-Wno-everything"]


def compile_one(job):
    src, obj, flags = job
    cmd = [CXX, *BASE, *flags, "-c", src, "-o", obj]
    env = dict(os.environ)
    if shutil.which("ccache"):
        cmd = ["ccache"] + cmd
        env["CCACHE_DIR"] = os.path.join(VERIF, ".cache", "ccache")
        env["CCACHE_MAXSIZE"] = "2G"
        env["CCACHE_COMPRESS"] = "1"
    p = subprocess.run(cmd, capture_output=True, text=True, env=env)
    return src, p.returncode, p.stderr


def repo_sources(only=None):
    src = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    if only:
        src = [s for s in src if os.path.relpath(s, REPO) in only]
    return src


def build(group):
    g = GROUPS[group]
    out = os.path.join(BUILD, group)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, group + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        flags = SAN[g["san"]].split() + g.get("flags", [])
        errors = []
        for only in ([g["only"], None] if g.get("only") else [None]):
            # The engine learns the constants that the code under test compares with.
            trace = [] if g["san"] == "tsan" else ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
            trace += trace and [f"-fsanitize-coverage-allowlist={VERIF}/engine/traced-functions.txt"]
            srcs = [(s, trace) for s in repo_sources(only)]
            srcs += [(f"{VERIF}/harness/{h}", trace) for h in g["harness"]]
            srcs += [(f"{VERIF}/engine/pbt.cpp", [])]
            jobs = []
            for s, extra in srcs:
                obj = os.path.join(out, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/")) + ".o")
                jobs.append((s, obj, flags + extra))
            # Biggest first.
            jobs.sort(key=lambda j: -os.path.getsize(j[0]))
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(compile_one, jobs))
            errors = [f"{s}:\n{e[-3000:]}" for s, rc, e in res if rc]
            if errors:
                continue
            exe = os.path.join(out, "check")
            p = subprocess.run([CXX, *SAN[g["san"]].split(), *[j[1] for j in jobs], "-o", exe, "-lfmt", "-lpthread"],
                               capture_output=True, text=True)
            if p.returncode == 0:
                return exe
            errors = ["link:\n" + p.stderr[-3000:]]
        print("build failed:\n" + "\n".join(errors), file=sys.stderr)
        sys.exit(2)


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                found.append(line[len("finding: "):])
    return found


def main():
    sys.stdout.reconfigure(line_buffering=True)
    args = sys.argv[1:]
    if not args or args[0] == "--list":
        for p, g in sorted(PROPS.items()):
            print(p, g)
        return 0
    if args[0] == "--setup":
        for g in GROUPS:
            t = time.time()
            build(g)
            print(f"built {g} in {time.time() - t:.1f} s")
        return 0
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if args[0] == "--replay":
        replay = os.path.abspath(args[1])
        info = json.load(open(replay))
        prop, tier = info["property"], info.get("tier", tier)
        extra = ["--replay", replay]
    else:
        prop, extra = args[0], args[1:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    t0 = time.time()
    exe = build(PROPS[prop])
    print(f"{prop}: built {PROPS[prop]} from {REPO} in {time.time() - t0:.1f} s")
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(int(seed)), "--replays", REPLAYS, *extra]
    if not replay:
        if os.path.exists(evidence):
            os.unlink(evidence)
        cmd += ["--evidence", evidence]
    rc = subprocess.run(cmd).returncode
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line)
    if not replay and os.path.exists(evidence):
        ev = json.load(open(evidence))
        ev["assumptions"] = GROUPS[PROPS[prop]].get("assumptions", [])
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(evidence, "w"), indent=1)
    return rc


sys.exit(main())
