#!/usr/bin/env python3
"""Mutation campaign: enumerates small changes of the sources, keeps those that compile and pass the stable tests (in a scratch
copy of /repo), and runs the quick checks on them until one reports a violation.
usage: mutate.py WORKDIR --offset K --stride N [--files a,b] [--checks C01,...]     results: WORKDIR/results.jsonl"""
import argparse, json, os, re, shutil, subprocess, sys, time
ap = argparse.ArgumentParser()
ap.add_argument("work"); ap.add_argument("--offset", type=int, default=0); ap.add_argument("--stride", type=int, default=20)
ap.add_argument("--files", default="src/lgar.cxx,src/bmi_lgar.cxx,src/soil_funcs.cxx,src/linked_list.cxx,src/aet.cxx,giuh/giuh.c,src/bmi_main_lgar.cxx,src/util_funcs.cxx,include/bmi_lgar.hxx")
ap.add_argument("--checks", default=""); ap.add_argument("--list", action="store_true"); ap.add_argument("--max", type=int, default=10**9)
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def code_lines(text):
    """line numbers that hold code (no comments, no printing)"""
    out, block = [], False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: block = True
            continue
        if not s or s.startswith("//") or s.startswith("#") or re.search(r"printf|cerr|cout|verbosity|listPrint|stringstream|throw|abort", s): continue
        out.append(i)
    return out


def split_comment(l):
    m = re.search(r"//", l)
    return (l[:m.start()], l[m.start():]) if m else (l, "")


def mutants(f):
    t = open(os.path.join("/repo", f)).read()
    L = t.split("\n")
    for i in code_lines(t):
        code, com = split_comment(L[i])

        def m(new, what):
            if new != code: return (f, i, new + com, what)
        for x in re.finditer(r"(?<![<>=!\-])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if re.search(r"#include|vector<|string>|template|->", code[max(0, x.start() - 8):x.end() + 8]): continue
            o = x.group(1)
            r = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]
            for n in r: yield m(code[:x.start()] + n + code[x.end():], "%s -> %s" % (o, n))
        for x in re.finditer(r"&&|\|\|", code):
            yield m(code[:x.start()] + {"&&": "||", "||": "&&"}[x.group()] + code[x.end():], "and/or")
        for x in re.finditer(r"(?<=[\w\)\]] )([+\-*/])(?= [\w\(])|(?<=[\w\)\]])([+\-*/])(?=[\w\(])", code):
            if code[x.start():x.start() + 2] == "->" or re.search(r"\d[eE]$", code[:x.start()]): continue
            o = x.group()
            yield m(code[:x.start()] + {"+": "-", "-": "+", "*": "/", "/": "*"}[o] + code[x.end():], "arithmetic " + o)
        for x in re.finditer(r"(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)(?![\w.])", code):
            n = x.group(1)
            if re.fullmatch(r"\d+", n): r = [str(int(n) + 1)] + ([str(int(n) - 1)] if int(n) > 0 else [])
            else: r = [repr(float(n) * 1000), "0.0"] if abs(float(n)) < 1e-3 and float(n) else [repr(float(n) * 1.05 + (1e-3 if float(n) == 0 else 0))]
            for q in r: yield m(code[:x.start()] + q + code[x.end():], "constant %s -> %s" % (n, q))
        if re.match(r"\s*[\w\->\[\]\.\*\(\)]+\s*([+\-*/]?=)[^=].*;\s*$", code) and not re.match(r"\s*(const |int |double |bool |struct |std::|char |extern |static |return)", code):
            yield m(re.match(r"\s*", code).group() + ";", "statement removed")
        if re.match(r"\s*[\w\->\.]+\(.*\);\s*$", code): yield m(re.match(r"\s*", code).group() + ";", "call removed")
        x = re.match(r"(\s*(?:\} )?(?:else )?if\s*\()(.*)(\)\s*\{?\s*)$", code)
        if x:
            for q in ("false", "true"): yield m(x.group(1) + q + x.group(3), "condition " + q)
        for x in re.finditer(r"->next\b(?!\s*=[^=])", code): yield m(code[:x.start()] + code[x.end():], "next dropped")


M = [x for f in a.files.split(",") for x in mutants(f) if x]
sel = M[a.offset::a.stride][:a.max]
print(len(M), "mutants,", len(sel), "selected")
if a.list:
    for x in sel: print(x[0], x[1] + 1, x[3], "|", x[2].strip()[:120])
    sys.exit()
W = os.path.abspath(a.work)
os.makedirs(W, exist_ok=True)
C = W + "/repo"
if not os.path.exists(C): subprocess.check_call(["cp", "-a", "/repo", C])
subprocess.check_call(["git", "-C", C, "checkout", "-q", "--", "."])
for s in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", W + "/build.sh").replace("/repo", C)
    open(W + "/" + s, "w").write(t)
shutil.rmtree(C + "/_build", ignore_errors=True)
base = json.load(open("/opt/vp/BASELINE.json"))
names = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
ORDER = {"src/bmi_main_lgar.cxx": ["C18"], "giuh/giuh.c": ["C07", "C03", "C10", "C09"], "src/aet.cxx": ["C06", "C10", "C01"],
         "include/bmi_lgar.hxx": ["C13", "C12", "C08"], "src/bmi_lgar.cxx": ["C13", "C12", "C03", "C08", "C02", "C15", "C14", "C16", "C11", "C07", "C18", "C17", "C10", "C20", "C06", "C21", "C09"],
         "src/util_funcs.cxx": ["C17", "C18", "C01"]}
DEF = ["C20", "C05", "C17", "C02", "C01", "C16", "C06", "C14", "C03", "C21", "C04", "C19", "C15", "C11", "C18", "C09"]
done = set()
res = W + "/results.jsonl"
if os.path.exists(res):
    for l in open(res):
        r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
for f, i, new, what in sel:
    if (f, i + 1, new) in done: continue
    p = os.path.join(C, f)
    t = open(p).read().split("\n")
    old = t[i]; t[i] = new
    open(p, "w").write("\n".join(t))
    r = dict(file=f, line=i + 1, old=old, new=new, what=what, t=time.time())
    try:
        o = W + "/o.json"
        subprocess.run(["timeout", "100", "bash", W + "/test.sh", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = os.path.exists(o) and names <= set(json.load(open(o))["passed"])
        if not ok: r["status"] = "tests"
        else:
            r["status"] = "SURVIVED"; r["ran"] = []
            for c in ([] if a.checks == "none" else a.checks.split(",") if a.checks else ORDER.get(f, DEF)):
                q = subprocess.run(["python3", V + "/mc/run.py", c, "--maxviol", "1"], env=dict(os.environ, VP_REPO=C), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                r["ran"].append(c)
                if q.returncode == 1: r["status"] = "killed"; r["by"] = c; break
                if q.returncode != 0: r["status"] = "ERROR"; r["by"] = c; r["out"] = q.stdout[-1500:]; break
    finally:
        t[i] = old
        open(p, "w").write("\n".join(t))
    r["t"] = round(time.time() - r["t"], 1)
    open(res, "a").write(json.dumps(r) + "\n")
    print(r["status"], r.get("by", ""), f, i + 1, what, "|", old.strip()[:90], r["t"], flush=True)
