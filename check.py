#!/usr/bin/env python3
"""Deterministic-simulation check of one property of tezc/sc.

usage: check.py PROPERTY        run the check (VERIF_SEED, VERIF_TIER; --thorough)
       check.py --replay FILE   replay a violation with its execution trace
       check.py --setup         build everything once
"""
import array
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
CC = "clang"
CXX = "clang++"
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

C_FLAGS = ("-std=gnu99 -O1 -g -fsanitize=thread -femulated-tls -fno-builtin "
           "-fstack-protector-strong -U_FORTIFY_SOURCE -fno-pic -fno-common "
           "-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -w "
           # what gcc, the compiler of the build, takes with a warning
           "-Wno-error=int-conversion -Wno-error=implicit-function-declaration -Wno-error=implicit-int "
           "-Wno-error=incompatible-function-pointer-types -Wno-error=return-type -DHAVE_BACKTRACE").split()
# The second build: what the preprocessor selects under a newer standard, and sizes that a scenario can limit.
VARIANTS = {"": None, "limits": "-std=gnu17"}
CXX_FLAGS = "-std=c++17 -O1 -g -Wall -Wextra -fno-pic".split()


def die(msg, code=2):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p) or d.startswith((".", "_")):
            continue
        for f in sorted(glob.glob(os.path.join(p, "*.c"))):
            b = os.path.basename(f)
            if "test" in b or "example" in b or "benchmark" in b:
                continue
            out.append(f)
    return out


def repo_dirs():
    return [os.path.join(REPO, d) for d in sorted(os.listdir(REPO))
            if os.path.isdir(os.path.join(REPO, d)) and not d.startswith((".", "_"))]


def repo_headers_hash():
    h = []
    for d in repo_dirs():
        for f in sorted(glob.glob(os.path.join(d, "*.h"))):
            h.append(f)
            h.append(read(f))
    return sha(*h)


def compile_c(src, hdr, odir, variant):
    inc = ["-I" + os.path.dirname(src)] + ["-I" + d for d in repo_dirs()] + \
          ["-I" + os.path.join(HERE, "scen")]
    extra = b"".join(read(f) for f in sorted(glob.glob(os.path.join(HERE, "scen", "*.h"))))
    flags = list(C_FLAGS)
    key = sha(src, read(src), hdr, " ".join(flags), variant, extra)
    obj = os.path.join(odir, os.path.basename(src)[:-2] + "." + key + ".raw.o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = None
        if variant:
            v = [VARIANTS[variant] if f.startswith("-std=") else f for f in flags] + \
                ["-include", os.path.join(HERE, "scen", "max_sizes.h")]
            if run([CC] + v + inc + ["-fsyntax-only", src]).returncode == 0:
                flags = v
        if b"SC_LOG_FILE_SIZE" in read(src):
            # let scenarios choose the size limit, where the code allows it
            lim = ["-include", os.path.join(HERE, "scen", "log_limit.h")]
            e = run([CC] + flags + lim + inc + ["-E", src])
            if e.stdout.count("sim_log_limit") > 1:
                r = run([CC] + flags + lim + inc + ["-c", src, "-o", tmp])
        if r is None or r.returncode:
            r = run([CC] + flags + inc + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, obj)
    return obj, ""


def seam(obj, seams, odir):
    """Point every outside symbol that the simulator owns to the simulator."""
    r = run(["nm", "-u", obj])
    und = [l.split()[-1] for l in r.stdout.splitlines() if l.strip()]
    redef = [(u, "simc_" + u) for u in und if "simc_" + u in seams]
    # glibc spellings of the same call
    for u in und:
        m = re.match(r"__(.*)_chk$", u)
        if m and "simc_" + u not in seams:
            return None, "fortified symbol " + u
    out = obj[:-6] + "." + sha(repr(redef))[:8] + ".o"
    if not os.path.exists(out):
        rf = out + ".syms%d" % os.getpid()
        with open(rf, "w") as f:
            for a, b in redef:
                f.write("%s %s\n" % (a, b))
        tmp = out + ".tmp%d" % os.getpid()
        r = run(["objcopy", "--redefine-syms=" + rf,
                 "--rename-section", ".text=repo_text",
                 "--rename-section", ".data=repo_data",
                 "--rename-section", ".bss=repo_bss", obj, tmp])
        os.unlink(rf)
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, out)
    unseamed = [u for u in und if "simc_" + u not in seams]
    return out, unseamed


def compile_cxx(src, odir, hdrs, repo_hdr):
    key = sha(src, read(src), hdrs, repo_hdr if "/scen/" in src else "", " ".join(CXX_FLAGS))
    obj = os.path.join(odir, os.path.basename(src)[:-3] + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = run([CXX] + CXX_FLAGS + ["-I" + os.path.join(HERE, "sim"),
                                     "-I" + os.path.join(HERE, "scen")] +
                ["-I" + d for d in repo_dirs()] + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, obj)
    return obj, ""


def build(prop, variant=""):
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    repo_hdr = repo_headers_hash()
    hdrs = sha(*[read(f) for f in sorted(glob.glob(os.path.join(HERE, "sim", "*.h")) +
                                         glob.glob(os.path.join(HERE, "scen", "*.h")))])
    csrc = repo_sources() + sorted(glob.glob(os.path.join(HERE, "scen", "w_*.c")))
    simsrc = sorted(glob.glob(os.path.join(HERE, "sim", "*.cc")))
    scen = []
    for f in sorted(glob.glob(os.path.join(HERE, "scen", "*.cc"))):
        t = read(f).decode()
        if prop in (None, "R01") or re.search(r"\b(SCENARIO|ACCEPT)\(%s\b" % prop, t) or (prop in ("M04", "S01") and "\nHISTORY(" in t):
            scen.append(f)
    with ThreadPoolExecutor(WORKERS) as ex:
        fc = [ex.submit(compile_c, s, repo_hdr, odir, variant) for s in csrc]
        fx = [ex.submit(compile_cxx, s, odir, hdrs, repo_hdr) for s in scen + simsrc]
        cobj, xobj = [], []
        for src, f in list(zip(csrc, fc)):
            o, msg = f.result()
            if not o:
                die("cannot compile %s:\n%s" % (src, msg))
            cobj.append(o)
        for src, f in zip(scen + simsrc, fx):
            o, msg = f.result()
            if not o:
                die("cannot compile %s:\n%s" % (src, msg))
            xobj.append(o)
        seams = set()
        for o in xobj:
            if os.path.basename(o).split(".")[0] in ("core", "mem", "posix", "kernel", "extra", "extra2"):
                for l in run(["nm", "--defined-only", o]).stdout.splitlines():
                    n = l.split()[-1]
                    if n.startswith("simc_"):
                        seams.add(n)
        fs = [ex.submit(seam, o, seams, odir) for o in cobj]
        sobj, unseamed = [], set()
        for o, f in zip(cobj, fs):
            r, u = f.result()
            if not r:
                die("cannot prepare %s: %s" % (o, u))
            sobj.append(r)
            unseamed.update(u)
    objs = sobj + xobj
    binary = os.path.join(BUILD, "sim." + sha(*sorted(objs)))
    if not os.path.exists(binary):
        tmp = binary + ".tmp%d" % os.getpid()
        r = run([CXX, "-no-pie", "-o", tmp] + objs + ["-lpthread"])
        if r.returncode:
            die("cannot link:\n" + r.stdout[-4000:])
        os.rename(tmp, binary)
    # symbols that stay with the C library and are no seam
    defined = set()
    for o in sobj:
        for l in run(["nm", "--defined-only", o]).stdout.splitlines():
            defined.add(l.split()[-1])
    unseamed = sorted(u for u in unseamed
                      if u not in defined and not u.startswith(("__tsan", "__emutls")))
    mods = [os.path.relpath(s, REPO) for s in repo_sources()]
    return binary, unseamed, mods


def known_findings(prop):
    keys = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(.*)", l.strip())
            if m and m.group(1) == prop:
                keys.append(m.group(2))
    return keys


def load_sets(prefixes, ext):
    s = set()
    for p in prefixes:
        a = array.array("Q")
        f = p + ext
        if os.path.exists(f):
            with open(f, "rb") as fh:
                a.frombytes(fh.read())
            s.update(a)
    return len(s)


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--setup":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        for v in VARIANTS:
            build(None, v)
        return 0
    if sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        text = open(path).read()
        prop = re.search(r"^property (\S+)", text, re.M).group(1)
        variant = re.search(r"^build (\S+)", text, re.M)
        binary, _, _ = build(prop, variant.group(1) if variant else "")
        return subprocess.call([binary, "replay", "--file", path])
    prop = sys.argv[1]
    if "--thorough" in sys.argv[2:]:
        os.environ["VERIF_TIER"] = "thorough"
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    limit = float(os.environ.get("SIM_TIME", "20" if tier == "quick" else "420"))
    runs = os.environ.get("SIM_RUNS")
    built = [build(prop, v) for v in VARIANTS]
    binaries = [b[0] for b in built]
    unseamed, mods = sorted(set(built[0][1]) | set(built[1][1])), built[0][2]

    def of_worker(w):
        return w % len(binaries)
    build_s = time.time() - t_start
    work = os.path.join(BUILD, "work.%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    keys = known_findings(prop)
    kf = os.path.join(work, "known")
    with open(kf, "w") as f:
        f.write("".join(k + "\n" for k in keys))
    procs, outs = [], []
    for w in range(WORKERS):
        out = os.path.join(work, "w%d" % w)
        outs.append(out)
        cmd = [binaries[of_worker(w)], "search", "--prop", prop, "--seed", str(seed), "--worker", str(w),
               "--workers", str(WORKERS), "--time", str(limit), "--known", kf, "--out", out]
        if runs:
            cmd += ["--runs", runs]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                      text=True, errors="replace"))
    logs = []
    deadline = time.time() + limit + 120
    crashed = []
    for w, p in enumerate(procs):
        try:
            o, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            crashed.append("worker %d did not stop" % w)
        logs.append(o)
        if p.returncode not in (0, 1):
            crashed.append("worker %d ended with %s: %s" % (w, p.returncode, o[-500:]))
    res = []
    for out in outs:
        if os.path.exists(out + ".json"):
            res.append(json.loads(read(out + ".json").decode(), strict=False))
    if crashed and not any(r["found"] for r in res):
        die("; ".join(crashed))
    det_bad = sum(r["det_bad"] for r in res)
    if det_bad:
        die("%d of %d repeated seeds did not repeat exactly" %
            (det_bad, sum(r["det_runs"] for r in res)))

    violation = None
    found = [o + ".case" for o, r in [(o, json.loads(read(o + ".json").decode(), strict=False))
                                      for o in outs if os.path.exists(o + ".json")] if r["found"]]
    if found:
        def idx(p):
            return int(re.search(r"^index (\d+)", read(p).decode(), re.M).group(1))
        last = None
        for case in sorted(found, key=idx):
            which = of_worker(int(re.search(r"/w(\d+)\.case$", case).group(1)))
            binary = binaries[which]
            ok = all(run([binary, "check", "--file", case]).returncode == 1 for _ in range(2))
            if not ok:
                last = "violation of %s does not replay in a fresh process" % case
                continue
            final = os.path.join(REPLAYS, "%s-seed%d.case" % (prop, seed))
            small = os.path.join(work, "small.case")
            use = case
            try:
                r = run([binary, "shrink", "--file", case, "--time",
                         "15" if tier == "quick" else "90", "--out", small], timeout=150)
                if r.returncode == 0 and all(
                        run([binary, "check", "--file", small]).returncode == 1 for _ in range(2)):
                    use = small
            except subprocess.TimeoutExpired:
                pass
            name = list(VARIANTS)[which]
            with open(final, "wb") as f:
                f.write((b"build %s\n" % name.encode() if name else b"") + read(use))
            violation = final
            text = read(final).decode()
            print("class: " + re.search(r"^class (.*)", text, re.M).group(1))
            print("message: " + re.search(r"^message (.*)", text, re.M).group(1))
            print("found at index %d, tape of %s choices (from %s)" % (
                idx(case), re.search(r"^tape (\d+)", text, re.M).group(1),
                re.search(r"^tape (\d+)", read(case).decode(), re.M).group(1)))
            break
        if not violation:
            die(last)

    tot = {k: sum(r[k] for r in res) for k in
           ("runs", "abandoned", "steps", "switches", "sim_s", "runs_with_fault", "known", "det_runs")}

    def merge(k):
        m = {}
        for r in res:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    search_s = max([r["wall_s"] for r in res] or [0.001])
    samples = []
    r = run([binaries[0], "sample", "--prop", prop, "--seed", str(seed)])
    if r.stdout:
        lines = r.stdout.splitlines()
        samples.append(lines[:60] + (["... %d more lines" % (len(lines) - 60)]
                                     if len(lines) > 60 else []))
    if not samples:
        samples.append(["no run without a violation to show"])
    if violation:
        samples.append(["violation replay file: " + violation])
    distinct = load_sets(outs, ".runs")
    foreign = merge("foreign")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated run of its own seed: workload, schedule, clock and faults all drawn "
                    "from one seed. It is non-trivial if at least one fault was injected or more than two "
                    "thread switches happened; distinct runs have different hashes over the full event log (each worker counts at most 400000).",
            "samples": samples,
            "runs_per_hour": int(tot["runs"] / max(search_s, 1e-3) * 3600),
            "simulated_seconds": round(tot["sim_s"], 3),
            "scheduling_steps": tot["steps"],
            "thread_switches": tot["switches"],
            "runs_with_faults": tot["runs_with_fault"],
            "abandoned_runs": tot["abandoned"],
            "faults_injected": merge("faults"),
            "distinct_interleavings": load_sets(outs, ".scheds"),
            "interleaving_measure": "hash over the sequence of thread switches together with the event log, "
                                    "runs with more than one thread",
            "distinct_states": load_sets(outs, ".states"),
            "state_measure": "hash of the model state a scenario reports after each step",
            "rare_conditions_hit": merge("probes"),
            "scenario_runs": merge("scenarios"),
            "step_budget_used_permille": {a: max(r["worst"].get(a, 0) for r in res) for a in merge("worst")},
            "determinism_repeats": tot["det_runs"],
            "determinism_mismatches": det_bad,
            "known_finding_hits": tot["known"],
            "outcomes_belonging_to_other_properties": foreign,
            "real_components": mods,
            "stubbed_components": [
                "thread scheduler, mutexes, conditions, clocks", "heap allocator",
                "signals and process exit", "descriptors, pipes, sockets, epoll, name resolution",
                "files, page cache, mappings, stdio streams", "perf events"],
            "c_library_calls_left_real": unseamed,
            "build_s": round(build_s, 2), "search_s": round(search_s, 2), "workers": WORKERS,
        },
        "assumptions": [
            "The simulated kernel and C library behave as POSIX/Linux document; their code is not verified.",
            "Preemption happens at memory accesses and calls the compiler instrumentation exposes; memory is "
            "sequentially consistent, weaker orders are covered only by the data-race detector.",
            "Sampling: a clean batch is evidence, not proof."],
        "wall_s": round(time.time() - t_start, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in glob.glob(os.path.join(work, "*")):
        os.unlink(p)
    os.rmdir(work)
    print("%s: %d runs, %d distinct non-trivial, %.1f simulated s, %.1f s wall" % (
        prop, tot["runs"], distinct, tot["sim_s"], time.time() - t_start))
    if foreign:
        print("outcomes that belong to other properties: " +
              "; ".join("%s x%d" % (a[:160], b) for a, b in list(foreign.items())[:6]))
    if tot["known"]:
        for kk in keys:
            print("KNOWN-FINDING: property=%s %s" % (prop, kk))
    if tot["runs"] == 0:
        die("nothing was run")
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
