#!/usr/bin/env python3
"""Which lines of the model do the checks reach?  cover.py OUT.json C01 C02 ...   (not a check: a tool to find gaps)
Merges into OUT.json {file: {line: [props]}} and "sites" = all instrumented lines."""
import json, os, re, struct, subprocess, sys, tempfile, shutil, collections
H = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
D = json.load(open(out)) if os.path.exists(out) else {"sites": {}, "hit": {}}
tmp = tempfile.mkdtemp(prefix="vpcov_")
subprocess.check_call(["g++", "-O2", "-c", H + "/cov.cpp", "-o", tmp + "/cov.o"])
for p in sys.argv[2:]:
    cov = tmp + "/" + p
    env = dict(os.environ, VP_MODEL_FLAGS="-fsanitize-coverage=trace-pc -g -O1 -fno-pie", VP_LINK="-no-pie " + tmp + "/cov.o", VP_COV=cov)
    q = subprocess.run(["python3", H + "/../mc/run.py", p, "--keep"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p, q.returncode, q.stdout.strip().split("\n")[-3:], flush=True)
    k = re.search(r"kept (\S+)", q.stdout).group(1)
    exe = k + "/explore"
    dis = subprocess.run("objdump -d --no-show-raw-insn %s | grep -A1 'call.*__sanitizer_cov_trace_pc'" % exe, shell=True, stdout=subprocess.PIPE, text=True).stdout.split("\n")
    sites = []
    for i in range(len(dis) - 1):
        if "call" in dis[i] and "trace_pc" in dis[i]:
            m = re.match(r"\s*([0-9a-f]+):", dis[i + 1])
            if m: sites.append(int(m.group(1), 16))
    b = open(cov, "rb").read()
    hit = set(x for (x,) in struct.iter_unpack("Q", b) if x)
    r = subprocess.run(["addr2line", "-e", exe] + [hex(s - 1) for s in sites], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for s, l in zip(sites, r):
        l = l.split(" ")[0]
        l = re.sub(r"^.*/(src|giuh)/", r"\1/", l)
        D["sites"][l] = 1
        if s in hit:
            h = D["hit"].setdefault(l, [])
            if p not in h: h.append(p)
    shutil.rmtree(k)
    json.dump(D, open(out, "w"))
shutil.rmtree(tmp)
