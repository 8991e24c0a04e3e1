"""Run each planted bug's own check against a scratch copy of /repo with the bug in it.

plants.py [ID ...]  ->  one line per bug on stdout, and the table for DESIGN.md section 7 in /tmp/plants.md
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    rows = []
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="plant.")
        try:
            tree = os.path.join(tmp, "r")
            shutil.copytree("/repo", tree, symlinks=True)
            subprocess.run(["git", "-C", tree, "apply", os.path.join(d, "patch.diff")], check=True)
            t = time.time()
            out = subprocess.run([os.path.join(HERE, "bin", "check"), meta["property"], "--tier", "quick"],
                                 env=dict(os.environ, VERIF_REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, timeout=1500).stdout
            t = time.time() - t
        finally:
            shutil.rmtree(tmp, True)
        m = re.search(r"^run (\d+) of seed \d+: ([^:\n]*)", out, re.M)
        hit = "VIOLATION property=%s " % meta["property"] in out
        row = (i, meta["property"], meta["what_it_breaks"], "run %s (%s)" % m.groups() if hit and m else "hit" if hit else "**missed**", "%.0f s" % t)
        rows.append(row)
        print(*[row[k] for k in (0, 1, 3, 4)], flush=True)
    with open("/tmp/plants.md", "w") as f:
        f.write("| Bug | Check | What it breaks | Found at | Time |\n|---|---|---|---|---|\n")
        for r in rows:
            f.write("| %s | %s | %s | %s | %s |\n" % tuple(str(x).replace("|", "/").replace("\n", " ") for x in r))


main()
