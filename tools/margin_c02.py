"""development aid: how close do the recorded sensitivity events come to their tolerances?"""
import sys, logging
sys.path[:0] = ["/verif", "/verif/harness"]
logging.disable(logging.INFO)
import numpy as np, zoo, c02
from vf.core import Ctx
zoo.load()
ctx = Ctx("C02", "quick", 1)
res = {}
items = [dict(entry=n, quick=True, seed=s, k=k) for n, e in zoo.ZOO.items() if "J" in e.caps for s, k in ((1, 0), (2, 1), (5, 2))]
for e in ctx.pmap(c02.run_group, c02.make_groups(items), timeout=3000):
    if e["op"] in ("forward", "fd"):
        d = np.abs(np.array(e["got"]) - np.array(e["R"]) @ np.array(e["c"])).max() / e["tol"]
    elif e["op"] == "transposed":
        d = np.abs(np.array(e["got"]) - np.array(e["w"]) @ np.array(e["R"])).max() / e["tol"]
    elif e["op"] == "explicit":
        d = np.abs(np.array(e["got"]) - np.array(e["R"])).max() / e["tol"]
    elif e["op"] == "diag":
        D = ((np.array(e["R"]) * np.array(e["w"])[:, None]) ** 2).sum(0)
        d = (np.abs(np.array(e["got"]) - D) / (e["tol"] + D / 50)).max()
    elif e["op"] == "exception":
        d = 99; print(e["case"], e["msg"])
    else:
        continue
    k = (e["case"].split("#")[0], e["op"])
    res[k] = max(res.get(k, 0), d)
for k, v in sorted(res.items(), key=lambda t: -t[1])[:40]:
    print("%-40s %.3f" % (k, v))
