#!/usr/bin/env python3
"""Write /verif/seeded/* from list*.py and confirm each one in a scratch clone.

mk.py [ID...]     needs /tmp/sb (created): clean and mutated clones with their builds."""
import glob, json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); OUT = "/verif/seeded"; SB = "/tmp/sb"
ns = {}
for f in sorted(glob.glob(H + "/list*.py")):
    exec(compile(open(f).read(), f, "exec"), ns)
S = ns["S"]; want = sys.argv[1:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(SB, exist_ok=True)
def scripts(d):
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", d).replace("/opt/vp/build.sh", SB + "/" + os.path.basename(d) + ".build.sh")
        open(SB + "/" + os.path.basename(d) + "." + n, "w").write(t)
for n in ("clean", "mut"):
    d = SB + "/" + n
    if not os.path.isdir(d): sh("git clone -q /repo " + d)
    sh("git -C %s fetch -q; git -C %s checkout -qf %s" % (d, d, sh("git -C /repo rev-parse HEAD").stdout.strip()))
    scripts(d)
r = sh("bash %s/clean.build.sh" % SB)
assert r.returncode == 0, r.stdout[-2000:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else json.load(open("/opt/vp/BASELINE.json")).get("passed", []))
def run(s):
    d = SB + "/mut"; sh("git -C %s checkout -qf HEAD -- ." % d)
    for f, old, new in s["edits"]:
        p = d + "/" + f; t = open(p).read()
        if t.count(old) != 1: return "edit matches %d times: %s" % (t.count(old), old[:50])
        open(p, "w").write(t.replace(old, new))
    o = OUT + "/" + s["id"]; tmp = SB + "/new"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
    open(tmp + "/demo.c", "w").write('#include "du.h"\n' + s["demo"].strip() + "\n")
    shutil.copy(H + "/du.h", tmp)
    t = open(H + "/demo.sh").read().replace("@FLAVOUR@", s["lib"]).replace("@CC@", s["cc"]).replace("@FLAGS@", s["flags"])
    open(tmp + "/demo.sh", "w").write(t); os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % tmp, cwd=SB + "/clean")
    if a.returncode: return "demo fails on the clean tree (%d): %s" % (a.returncode, a.stdout[-300:])
    r = sh("bash %s/mut.test.sh %s/out.json" % (SB, SB))
    try: res = json.load(open(SB + "/out.json"))
    except Exception: return "no test result: " + r.stdout[-400:]
    bad = [x for x in stable if x not in res["passed"]]
    if bad: return "stable tests fail: %s" % bad[:6]
    b = sh("bash %s/demo.sh" % tmp, cwd=d)
    if b.returncode in (0, 9, 124): return "demo passes with the patch (%d) %s" % (b.returncode, b.stdout[-200:])
    shutil.rmtree(o, ignore_errors=True); shutil.copytree(tmp, o)
    return "ok: " + b.stdout.strip()[:120].replace("\n", " | ")
for s in S:
    if want and s["id"] not in want: continue
    print("%-28s %s" % (s["id"], run(s)), flush=True)
