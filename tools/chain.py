#!/usr/bin/env python3
"""Development aid: every `include-proved UNIT FILE` names a unit that proves FILE itself."""
import glob, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "proofs")
def lines(f):
    return [l.split() for l in open(os.path.join(P, f))]
def own(f):
    out = {f}
    for w in lines(f):
        if w[:2] == ["//@", "include"]:
            out |= own(w[2])
    return out
bad = 0
for f in sorted(glob.glob(P + "/**/*.vt", recursive=True)):
    for w in lines(os.path.relpath(f, P)):
        if w[:2] == ["//@", "include-proved"] and w[3] not in own(w[2] + ".vt"):
            print(os.path.relpath(f, P), w)
            bad = 1
raise SystemExit(bad)
