"""builds the variants the quick checks use (checks rebuild what changed)"""
import os, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
dg = build.tree_digest()
for v in ("nc3", "nc2", "nc4", "nc5nd3", "nc4gsl", "nc3nofft", "nc3nosse"):
    print(v, build.build(v, digest=dg))
