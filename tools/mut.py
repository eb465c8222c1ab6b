"""Developer helper: run checks against mutated copies.  python3 tools/mut.py SPEC.py   (SPEC: MUTS=[(name, [(file,old,new)], [props])])"""
import os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
for name, edits, props in spec["MUTS"]:
    if only and name not in only:
        continue
    d = "/tmp/mutrepo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    for f, a, b in edits:
        p = f"{d}/src/acetone_nnet/{f}"
        s = open(p).read()
        if s.count(a) < 1:
            print(name, "EDIT NOT FOUND", f, a); break
        open(p, "w").write(s.replace(a, b, 1))
    else:
        for q in props:
            r = subprocess.run(["python3", "/verif/check.py", q], env=dict(os.environ, ACETONE_REPO=d), capture_output=True, text=True)
            v = [l[:260] for l in r.stdout.splitlines() if "KNOWN" not in l and not l.startswith(("VIOL",))]
            print(f"{name} {q}: {'CAUGHT' if r.returncode == 1 else 'quiet'} {v[:1] + [len(v)] if r.returncode else v[-1:]}", r.stderr[-200:], flush=True)
    shutil.rmtree(d, ignore_errors=True)
