#!/usr/bin/env python3
"""Builds the model from /repo's working tree together with the exploration engine, runs the exhaustive exploration that
decides one property, confirms every violation by an independent re-execution, writes evidence and replay files.

usage: run.py PROPERTY [--tier quick|thorough] [--only JOB] [--keep]
exit 0: held on everything explored;  exit 1: a line "VIOLATION property=<id> replay=<path>";  exit 2: error of the check
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
SRC_FALLBACK = ["src/bmi_lgar.cxx", "src/lgar.cxx", "src/soil_funcs.cxx", "src/linked_list.cxx", "src/mem_funcs.cxx",
                "src/util_funcs.cxx", "src/aet.cxx", "giuh/giuh.c"]
WRAP = "-Wl,--wrap=abort,--wrap=exit,--wrap=__assert_fail"
WRAP_HEAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
# property -> (module, variant, quick budget s, thorough budget s)
from properties import PROPS  # noqa: E402


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def sources():
    """source files of the model library, from the add_library call of CMakeLists.txt"""
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        t = re.sub(r"#.*", "", t)
        best = []
        for m in re.finditer(r"add_(?:library|executable)\s*\(([^)]*)\)", t):
            fs = [w.strip('"') for w in m.group(1).split() if re.search(r"\.(c|cc|cpp|cxx)\"?$", w)]
            fs = [os.path.normpath(f) for f in fs if "main" not in os.path.basename(f) and not f.startswith("tests")]
            fs = [f for f in fs if os.path.exists(os.path.join(REPO, f))]
            if len(fs) > len(best):
                best = fs
        if "src/lgar.cxx" in best and "src/bmi_lgar.cxx" in best:
            return best
    except OSError:
        pass
    return [f for f in SRC_FALLBACK if os.path.exists(os.path.join(REPO, f))]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


VARIANTS = {
    "plain": ["-O2", "-g1"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


def build(module, variant, out, standalone=False):
    flags = VARIANTS[variant]
    objs, jobs = [], []

    def cc(src, obj, extra, std=None):
        c = src.endswith(".c")
        cmd = (["gcc"] if c else ["g++", "-std=" + (std or "c++14")]) + flags + ["-w"] + extra + ["-c", src, "-o", obj]
        return cmd, obj

    # VP_MODEL_FLAGS: further compiler flags for the model (used to try the checks under other floating-point evaluation)
    mf = os.environ.get("VP_MODEL_FLAGS", "").split()
    for f in sources():
        jobs.append(cc(os.path.join(REPO, f), os.path.join(out, "r_" + f.replace("/", "_") + ".o"), ["-I" + REPO] + mf))
    h = ["-I" + REPO, "-I" + HERE]
    jobs.append(cc(os.path.join(HERE, "vp.cpp"), os.path.join(out, "vp.o"), h, "c++17"))
    arena = variant == "plain"
    jobs.append(cc(os.path.join(HERE, "arena.cpp" if arena else "arena_none.cpp"), os.path.join(out, "arena.o"), h, "c++17"))
    jobs.append(cc(os.path.join(HERE, "props", module + ".cpp"), os.path.join(out, "prop.o"), h, "c++17"))
    with ThreadPoolExecutor(8) as ex:
        fi = ex.submit(sh, cc(os.path.join(HERE, "internals.cpp"), os.path.join(out, "internals.o"), h, "c++17")[0])
        fm = None
        if standalone:
            fm = ex.submit(sh, cc(os.path.join(REPO, "src/bmi_main_lgar.cxx"), os.path.join(out, "main.o"), ["-I" + REPO])[0])
        def compile_(j):
            r = sh(j[0])
            if r.returncode and os.path.basename(j[1]).startswith("r_"):      # a newer language standard may be in use
                r2 = sh([w for w in j[0] if w != "-std=c++14"])
                r = r2 if r2.returncode == 0 else r
            return j, r
        rs = list(ex.map(compile_, jobs))
        ri = fi.result()
        rm = fm.result() if fm else None
    for (cmd, obj), r in rs:
        if r.returncode:
            die("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        objs.append(obj)
    if ri.returncode:
        # the internal data structures were renamed: observe the model through its interface only
        print("note: internal adapter does not compile against this tree, observing the interface only")
        cmd, obj = cc(os.path.join(HERE, "internals.cpp"), os.path.join(out, "internals.o"), h + ["-DVP_INTERFACE_ONLY"], "c++17")
        r = sh(cmd)
        if r.returncode:
            die("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    objs.append(os.path.join(out, "internals.o"))
    exe = os.path.join(out, "explore")
    link = [WRAP, "-lm"] + os.environ.get("VP_LINK", "").split()      # VP_LINK: see tools/cover.py
    eobjs = objs
    if arena:
        # process-wide variables of the model go to sections of their own, so that snapshots include them
        link.append(WRAP_HEAP)
        eobjs = []
        for o in objs:
            if os.path.basename(o).startswith("r_"):
                n = os.path.join(out, "s" + os.path.basename(o))
                ren = []
                for m in re.finditer(r"^\s*\d+\s+(\.(?:data|bss)(?:\.\S+)?)\s", sh(["objdump", "-h", "-w", o]).stdout, re.M):
                    if not m.group(1).startswith(".data.rel.ro"):
                        ren += ["--rename-section", m.group(1) + ("=vpdata,alloc,load,data,contents" if m.group(1).startswith(".data") else "=vpbss,alloc")]
                r = sh(["objcopy"] + ren + [o, n])
                o = n if r.returncode == 0 else o
            eobjs.append(o)
    r = sh(["g++"] + flags + ["-o", exe] + eobjs + link)
    if r.returncode:
        die("link failed\n" + r.stdout[-3000:])
    if standalone:
        if rm.returncode:
            die("compilation of the stand-alone program failed\n" + rm.stdout[-3000:])
        r = sh(["g++"] + flags + ["-o", os.path.join(out, "standalone"), os.path.join(out, "main.o")] +
               [o for o in objs if os.path.basename(o).startswith("r_")] + ["-lm"])
        if r.returncode:
            die("link of the stand-alone program failed\n" + r.stdout[-3000:])
    return exe


def known_ids(prop):
    ids = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+)", line)
            if m and m.group(1) == prop:
                ids.append(m.group(2))
    except OSError:
        pass
    return ids


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--maxviol", default="3")
    a = ap.parse_args()
    if a.property not in PROPS:
        die("no such property")
    cfg = PROPS[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % a.property)
    try:
        rc = check(a, cfg, tier, tmp, t0)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept " + tmp)
    sys.exit(rc)


def check(a, cfg, tier, tmp, t0):
    exe = build(cfg["module"], cfg.get("variant", "plain"), tmp, cfg.get("standalone", False))
    tb = time.time() - t0
    env = dict(os.environ)
    env["VP_SCRATCH"] = os.path.join(tmp, "s")
    os.makedirs(env["VP_SCRATCH"])
    env["VP_KNOWN"] = ",".join(known_ids(a.property))
    env["VP_STANDALONE"] = os.path.join(tmp, "standalone")
    env["VP_REPO"] = REPO
    env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env.update(cfg.get("env", {}))
    budget = a.budget or (cfg.get("budget_thorough", 14000) if tier == "thorough" else cfg.get("budget_quick", 600))
    procs = str(min(8, os.cpu_count() or 8))
    joblimit = str(cfg.get("joblimit_thorough", 6000) if tier == "thorough" else cfg.get("joblimit", 300))

    def run(only, out, extra=()):
        cmd = [exe, "--property", a.property, "--out", out, "--budget", str(budget), "--procs", procs, "--joblimit", joblimit,
               "--maxviol", a.maxviol] + list(extra)
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--only", only]
        r = sh(cmd, env=env)
        try:
            return r.returncode, json.load(open(out)), r.stdout
        except Exception as e:  # noqa
            die("engine failed (%s, exit %d): %s" % (e, r.returncode, r.stdout[-2000:]))

    def judge():
        rc, d, _ = run(a.only, os.path.join(tmp, "out.json"))
        viol, internal = [], []
        for b in d["bad"]:
            if b["internal"]:
                internal.append(b)
                continue
            # independent re-execution of the job, from fresh models only, before anything is reported
            n0 = len(viol)
            env["VP_LINEAR"] = "1"
            _, d2, _ = run(b["job"], os.path.join(tmp, "out2.json"), ["--joblimit", str(3 * float(joblimit))])
            if not linear:
                del env["VP_LINEAR"]
            viol += [b2 for b2 in d2["bad"] if not b2["internal"]]
            if len(viol) == n0:
                internal.append(dict(b, msg="not reproduced: " + b["msg"]))
        return d, viol, internal

    linear = "VP_LINEAR" in env
    d, viol, internal = judge()
    if internal and not viol and not linear:
        # a snapshot did not capture all state of the model: decide the property without snapshots
        print("note: falling back to re-execution (%s)" % internal[0]["msg"][:200])
        env["VP_LINEAR"] = "1"
        linear = True
        budget = max(60, min(budget, 800 - (time.time() - t0)) if tier == "quick" else budget)
        d, viol, internal = judge()
    for k in d.get("known", []):
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.property, k["id"], k["what"]))
    exhaustive = d["skipped"] == 0 and not viol and not internal
    ev = {
        "property": a.property, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": d["states"], "transitions": d["steps_unique"], "traces_validated_against_impl": d["sequences"],
            "evaluations": d["checks"], "distinct_nontrivial": d["nontrivial"], "rule": d["rule"],
            "implementation_updates_executed": d["updates"], "configurations_x_prefixes": d["jobs"], "jobs_completed": d["done"],
            "jobs_skipped_by_time_budget": d["skipped"], "exhaustive_within_bounds": exhaustive, "bounds": cfg["bounds"][tier],
            "counters": d["aux"], "samples": d["samples"],
        },
        "assumptions": cfg.get("assumptions", "the engine, the compiler and the stated alphabet and bounds; every explored trace is an execution of the code built from the working tree"),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: build %.1fs, explored %d traces, %d transitions, %d distinct states, %d checks, %d jobs (%d skipped), %.1fs" %
          (a.property, tier, tb, d["sequences"], d["steps_unique"], d["states"], d["checks"], d["done"], d["skipped"], time.time() - t0))
    if d["aux"]:
        print("  counters: " + json.dumps(d["aux"]))
    rdir = os.path.join(VERIF, "replays")
    path = os.path.join(rdir, a.property + ".txt")
    if os.path.exists(path):
        os.remove(path)
    if viol:
        os.makedirs(rdir, exist_ok=True)
        with open(path, "w") as f:
            for b in viol:
                f.write("job: %s\nreplay: python3 %s %s --tier %s --only '%s'\nviolation: %s\nhistory:\n%s\n" %
                        (b["job"], os.path.join(HERE, "run.py"), a.property, tier, b["job"], b["msg"], b["trail"]))
                m = re.search(r"file (\S+)", b["trail"])
                if m and os.path.exists(m.group(1)):
                    f.write("configuration:\n" + open(m.group(1)).read() + "\n")
        for b in viol:
            print("  %s: %s" % (b["job"], b["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if internal:
        for b in internal:
            print("ERROR: job %s: %s" % (b["job"], b["msg"][:800]))
        return 2
    if d["done"] == 0:
        die("nothing was explored")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    main()
