#!/usr/bin/env python3
# developer helper: vonly.py DIR: runs the verifier only on the tree DIR and prints the failed obligations by property
import os, sys, tempfile, shutil
os.environ["NTFS_REPO"] = sys.argv[1]
sys.path.insert(0, "/verif")
import check
out = tempfile.mkdtemp(prefix="vonly-", dir="/tmp")
v = check.Verifier(out)
v.go(None)
if v.broken: print("BROKEN", v.broken)
print("again", v.again) if v.again else 0
for k, w in v.undecided.items(): print("undecided", k, ":", w[:200])
props = set()
fresh = check.fresh_functions(v.gen, v.bare) if not v.broken else set()
for f in v.failed:
    why = check.unjudged(v.gen, f["fn"], fresh)
    if why:
        print("undecided", f["fn"], ":", why)
        continue
    a = check.attributed(f)
    props |= a
    print("FAILED %s %s -> %s" % (f["fn"], f["message"][:70], " ".join(sorted(a))))
print("alarms:", " ".join(sorted(props)))
shutil.rmtree(out)
