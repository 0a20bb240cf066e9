"""print the planted-bug table of DESIGN.md from seeded/*/meta.json and a log of 'id rc=.. ..s check ...' lines"""
import json, os, sys
subs = {}
for line in open(sys.argv[1]):
    w = line.split()
    subs[w[0]] = (w[1], " ".join(w[3:]))
print("| planted bug | what it takes | caught by |\n|---|---|---|")
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{d}/meta.json"))
    rc, s = subs.get(d, ("?", "?"))
    print(f"| {d} | {m['needs'].replace('|', '/')} | {d[:3]} {s}" + (" |" if rc == "rc=1" else f" NOT CAUGHT {rc} |"))
