"""Developer helper (never run by a check): prints known_findings lines for the violations of the last run of a check.
usage: python3 tools/known.py C02 'note' [key-substring]"""
import glob, json, sys
prop, note = sys.argv[1], sys.argv[2]
sub = sys.argv[3] if len(sys.argv) > 3 else ""
for p in sorted(glob.glob(f"/verif/evidence/replay/{prop}-*.json")):
    d = json.load(open(p))
    if sub in d["key"]:
        fp = f" fp={json.dumps(d['fp'])}" if d["fp"] is not None else ""
        print(f"known: property={prop} key={d['key']}{fp} | {note}")
