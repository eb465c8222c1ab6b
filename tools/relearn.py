"""Developer helper (never run by a check): recompute the fp of existing known entries after a change of the fingerprint definition.
Only entries whose key is already listed are rewritten."""
import glob, json, os, re, subprocess, sys
K = "/verif/known_findings.txt"
lines = open(K).read().splitlines()
notes, rest = {}, []
for l in lines:
    m = re.match(r"known: property=(\S+) key=(\S+)(?: fp=(\[.*?\]|\S+))? \| (.*)$", l)
    if m and (not sys.argv[1:] or m.group(1) in sys.argv[1:]):
        notes[(m.group(1), m.group(2))] = m.group(4)
    else:
        rest.append(l)
open(K, "w").write("\n".join(rest) + "\n")
out = []
for p in sorted({k[0] for k in notes}):
    for f in glob.glob(f"/verif/evidence/replay/{p}-*.json"):
        os.remove(f)
    subprocess.run(["python3", "/verif/check.py", p], capture_output=True)
    for f in sorted(glob.glob(f"/verif/evidence/replay/{p}-*.json")):
        d = json.load(open(f))
        n = notes.get((p, d["key"]))
        if n is None:
            print("NOT LISTED", p, d["key"])
            continue
        fp = f" fp={json.dumps(d['fp'])}" if d["fp"] is not None else ""
        out.append(f"known: property={p} key={d['key']}{fp} | {n}")
open(K, "w").write("\n".join(rest + out) + "\n")
