#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded bugs from a list SEEDS of dicts
id, prop, pkg, edits [(file, old, new)], demo (body of TestDemo, with imports), needs, breaks."""
import sys, os, subprocess, json, tempfile, shutil
sys.dont_write_bytecode = True
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="/tmp/mk.")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in s["edits"]:
        p = w + "/r/" + f
        t = open(p).read()
        n = t.count(old)
        assert n == 1, (s["id"], f, "occurs %d times" % n, old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    imps = s.get("imports", [])
    body = "package %s\n\nimport (\n\t\"testing\"\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s\n}\n" % (
        s.get("package", s["pkg"]), "".join("\t%s\n" % (i if '"' in i else '"%s"' % i) for i in imps), s["demo"].strip("\n"))
    open(d + "/demo_test.go", "w").write(body + s.get("extra", ""))
    open(d + "/pkg.txt", "w").write(s["pkg"] + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
