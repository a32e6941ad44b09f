#!/usr/bin/env python3
"""seedtable.py: runs the check of every planted bug on a patched copy of /repo's sources and
writes the table at the end of DESIGN.md.  (No check uses seeded/; this is for the reader.)"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(d):
    d = os.path.dirname(d); i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree("/repo/src", t + "/repo/src")
    shutil.copytree(HERE, t + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "C[0-9][0-9]*"))
    subprocess.check_call(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=t + "/repo")
    o = subprocess.run([sys.executable, "run.py", m["property"], "quick"], cwd=t + "/v", env=dict(os.environ, RTM_REPO=t + "/repo"), stdout=subprocess.PIPE, text=True).stdout
    k = re.findall(r"^  (\S+) \[([^\]]+)\]", o, re.M)
    n = len(re.findall(r"^VIOLATION", o, re.M))
    shutil.rmtree(t)
    row = "| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), "%d violations, e.g. %s (%s)" % (n, k[0][1], k[0][0]) if n and k else "**missed**")
    print(row, flush=True)
    return row
with concurrent.futures.ThreadPoolExecutor(3) as x:
    rows = list(x.map(one, sorted(glob.glob(HERE + "/seeded/*/patch.diff"))))
f = HERE + "/DESIGN.md"
s = open(f).read()
mark = "<!-- seeds -->"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n| planted bug | property | needs | caught by its check with |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f, "w").write(s)
