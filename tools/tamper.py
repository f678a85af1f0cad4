"""Self-check of the binding: recorded events with one observed value altered must be rejected.
usage: tamper.py FAMILY-EXPR MODULE FIELD[,FIELD...] [N]      e.g. 'G.reports(1,40,"expr")' SystemTrace mb"""
import copy, json, random, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, core, checks
from checks import *

fam, module, fields = sys.argv[1:4]
scens = eval(fam)
r = random.Random(7)
exe = build.build()
evs = core.drive(exe, scens, "tamper")
out, what = [], []


def alter(v):
    if isinstance(v, int):
        return v + r.choice([1, -1]) if not 0 <= v <= 255 else (v + 1) % 256
    if isinstance(v, str):
        return v + "x" if v not in ("ok", "parse", "runtime") else r.choice([x for x in ("ok", "parse", "runtime") if x != v])
    if isinstance(v, list):
        v = list(v)
        if not v or r.random() < .2:
            if v and r.random() < .5:
                del v[r.randrange(len(v))]
            else:
                v.insert(r.randint(0, len(v)), copy.deepcopy(r.choice(v)) if v else 0)
            return v
        k = r.randrange(len(v))
        v[k] = alter(v[k])
        return v
    if isinstance(v, dict):
        v = dict(v)
        k = r.choice(sorted(v))
        v[k] = alter(v[k])
        return v
    return v


for s, e in zip(scens, evs):
    sites = [(i, f) for i, x in enumerate(e) for f in fields.split(",") if f in x]
    if not sites:
        continue
    i, f = r.choice(sites)
    t = core.to_trace(s, copy.deepcopy(e))
    t["events"][i][f] = alter(t["events"][i][f])
    out.append(t)
    what.append((i, f, e[i][f], t["events"][i][f]))
rej, _, _ = core.validate(module, out)
print(f"{len(rej)} of {len(out)} altered traces rejected")
for k in range(len(out)):
    if k not in rej:
        i, f, a, b = what[k]
        if f == "mb":
            a, b = bytes(a), bytes(x % 256 for x in b)
        print("accepted:", k, i, f, str(a)[:300], "->", str(b)[:300])
