"""mkseed.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks,demo}: creates seeded/ID from a textual replacement."""
import json, os, subprocess, sys, shutil
d = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
V = "/verif"
for s in d:
    p = os.path.join(V, "seeded", s["id"])
    os.makedirs(p, exist_ok=True)
    tmp = subprocess.check_output(["mktemp", "-d"], text=True).strip()
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm base" % (tmp, tmp), shell=True)
    for f, old, new in s["edits"]:
        t = open(os.path.join(tmp, f)).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(os.path.join(tmp, f), "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
    shutil.rmtree(tmp)
    open(os.path.join(p, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(p, "meta.json"), "w"), indent=1)
    if s.get("demo"):
        open(os.path.join(p, "demo.cpp"), "w").write(s["demo"])
        shutil.copy(V + "/tools/seedlib/drive.hpp", p)
        shutil.copy(V + "/tools/seedlib/demo.sh", p)
