"""Developer helper: plant a bug.  python3 tools/seed.py SPEC.py [--test]
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file under /repo, old, new)], DEMO (python source, or None when demo.sh text is given in DEMO_SH)."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = f"/verif/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
if not os.path.exists(d + "/h.py") and spec.get("DEMO"):
    shutil.copy("/verif/tools/demo/h.py", d)
if spec.get("DEMO"):
    open(d + "/demo.py", "w").write(spec["DEMO"])
    shutil.copy("/verif/tools/demo/demo.sh", d)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
try:
    for f, a, b in spec["EDITS"]:
        p = "/repo/" + f
        s = open(p, newline="").read()
        assert s.count(a) == 1, (f, s.count(a))
        open(p, "w", newline="").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("patched demo exit", r.returncode, r.stdout[-300:], r.stderr[-200:] if r.returncode not in (0, 1) else "")
    c = sh(f"python3 /verif/check.py {spec['PROP']}")
    print("check", c.returncode, [l[:400] for l in c.stdout.splitlines() if "KNOWN" not in l][:4])
    if "--test" in sys.argv:
        t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedout.json")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = set(json.load(open("/tmp/seedout.json"))["passed"])
        print("tests failing:", sorted(b - o)[:8])
finally:
    sh("git -C /repo checkout -- .")
r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
print("clean demo exit", r0.returncode, r0.stdout[-200:], r0.stderr[-600:] if r0.returncode else "")
