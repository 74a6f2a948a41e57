"""Write planted bugs: seed(id, property, edits, demo, needs, breaks) tries one and keeps it if it counts."""
import os, subprocess, sys
PRELUDE = """#![allow(unused_imports)]
use ::portgraph::{view::{LinkView, LinkMut, PortView, PortMut, MultiView, MultiMut}, PortGraph, MultiPortGraph, Hierarchy, NodeIndex, PortIndex, PortOffset, Direction, LinkError};"""
WT = "/tmp/seedwt"
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def seed(id, prop, edits, demo, needs, breaks):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    if len(sys.argv) == 1 and os.path.exists(f"/verif/seeded/{id}/patch.diff"): return
    if not os.path.isdir(WT): sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD && git -C {WT} clean -qfd")
    for f, old, new in edits:
        p = f"{WT}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(f"{id}: {s.count(old)} matches in {f}: {old[:60]!r}"); return
        open(p, "w").write(s.replace(old, new))
    d = f"/tmp/seeds/{id}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {WT} diff").stdout)
    sh(f"git -C {WT} checkout -q -- .")
    demo = demo.replace("use portgraph::*;", PRELUDE)
    open(f"{d}/demo.rs", "w").write(demo); open(f"{d}/needs.txt", "w").write(needs); open(f"{d}/breaks.txt", "w").write(breaks)
    r = sh(f"bash /verif/tools/mkseed.sh {id} {prop} {d}")
    print(r.stdout.strip() or r.stderr.strip()); sys.stdout.flush()
