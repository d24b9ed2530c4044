#!/usr/bin/env python3
"""Selects tools/pool.jsonl from what tools/screen.py found to agree with the model, and
marks the patterns which backtrack too much for long subjects (EXP).
usage: mkpool.py SCREENED | mkpool.py --mark"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
POOL = os.path.join(HERE, "pool.jsonl")
if sys.argv[1] == "--mark":
    out = [json.loads(l) for l in open(POOL)]
else:
    L = [json.loads(l) for l in open(sys.argv[1])]
    sys_ = [x for x in L if not x["rnd"]]
    rnd = [x for x in L if x["rnd"] and x["kinds"] & 2][:700]
    keep_dead = [x for x in sys_ if not x["kinds"] & 2][:8]
    out = [dict(t=x["text"], a=x["alphabet"], f=x["frags"], fl=x["flags"], m=x["mode"], r=int(x["rnd"]), **({"o": x["model"]} if x["model"] else {})) for x in [x for x in sys_ if x["kinds"] & 2] + keep_dead + rnd]
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, "expo")
    subprocess.run(["g++", "-O2", "-o", exe, os.path.join(HERE, "expo.cpp"), "-lpcre2-8"], check=True)
    h = lambda s: s.encode().hex()
    r = subprocess.run([exe], input="".join("%d\t%s\t%s\t%s\n" % (x["m"], h(x.get("o") or x["t"]), h(x["a"]), h("\x1f".join(x["f"]))) for x in out), text=True, stdout=subprocess.PIPE, check=True).stdout.split()
assert len(r) == len(out)
sys.path.insert(0, HERE)
import catalogue
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, "expo")
    subprocess.run(["g++", "-O2", "-o", exe, os.path.join(HERE, "expo.cpp"), "-lpcre2-8"], check=True)
    hand = subprocess.run([exe], input="".join("%d\t%s\t%s\t%s\n" % (m, h(t), h(a), h("\x1f".join(f))) for t, a, f, fl, m in catalogue.H), text=True, stdout=subprocess.PIPE, check=True).stdout.split()
print("LONG_HAND =", [i for i, v in enumerate(hand) if v == "2"])
print("blown:", [i for i, v in enumerate(hand) if v == "1" and not catalogue.H[i][3] & 32])
n = 0
for x, v in zip(out, r):
    x["fl"] = (x["fl"] & ~(32 | 128)) | (32 if v == "1" else 128 if v == "2" else 0)
    n += v == "1"
with open(POOL, "w") as f:
    for x in out:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(out), n)
