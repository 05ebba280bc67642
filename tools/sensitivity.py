#!/usr/bin/env python3
# usage: tools/sensitivity.py [ids...]   -- runs, for every planted bug, the check of its property against a copy of /repo
# with the bug applied, and writes SENSITIVITY.md. Not a check; nothing in MANIFEST.json uses it.
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(here, "SENSITIVITY.md")
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace")
def one(bug):
    d = f"{here}/seeded/{bug}"; meta = json.load(open(d + "/meta.json")); P = meta["property"]
    t = tempfile.mkdtemp(prefix="sens.")
    try:
        sh(f"git -C /repo archive HEAD include src | tar x -C {t} && git -C {t} init -q")
        if sh(f"git -C {t} apply {d}/patch.diff").returncode: return bug, P, meta, "does not apply", ""
        r = sh(f"SELDON={t} {here}/sim/build.sh {t}/b"); exe = r.stdout.strip()
        if r.returncode: return bug, P, meta, "does not build", ""
        sh(f"mkdir -p {t}/v/evidence {t}/v/replays; cp {here}/known_findings.txt {t}/v")
        r = sh(f"{exe} check {P} {t}/v quick 1 2>&1")
        m = re.search(r"run (\d+) violates: \[([^\]]*)\]", r.stdout)
        return bug, P, meta, ("caught" if r.returncode == 1 else "MISSED"), (f"run {m[1]}: {m[2]}" if m else "")
    finally: shutil.rmtree(t)
def main():
    ids = sys.argv[1:] or sorted(os.listdir(here + "/seeded"))
    rows = {}
    if sys.argv[1:] and os.path.exists(out):
        for l in open(out):
            c = [x.strip() for x in l.split("|")[1:-1]]
            if len(c) == 5 and c[0] in os.listdir(here + "/seeded"): rows[c[0]] = c
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for bug, P, meta, res, how in ex.map(one, ids):
            rows[bug] = [bug, P, meta["what_it_breaks"], res, how]
            print(bug, P, res, how, flush=True)
    with open(out, "w") as f:
        f.write("# Planted bugs and the checks\n\nWritten by `tools/sensitivity.py`: the quick check of the bug's property, seed 1, with the bug applied.\n"
                f"{sum(r[3] == 'caught' for r in rows.values())} of {len(rows)} caught.\n\n| bug | property | what it breaks | result | first violating run: class |\n|---|---|---|---|---|\n")
        for b in sorted(rows, key=lambda b: (rows[b][1], b)): f.write("| " + " | ".join(x.replace("|", "/") for x in rows[b]) + " |\n")
main()
