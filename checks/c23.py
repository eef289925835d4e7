"""C23: inspection commands (and fetch) at every point of random behaviours of Repo.tla change nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, snap, vlib

INSPECT = {"status", "compare", "refget", "reflog", "fetch", "gethead", "log", "show"}


def hook(p, a, o, d):
    ms = []
    if a["a"] == "fail" and a.get("cmd") not in INSPECT:
        return ms
    if a["a"] not in INSPECT | {"fail"} or p.last is None:
        return ms
    b, n = p.before, p.prev
    if b.head != n.head:
        ms.append(("pure", "%s changed HEAD" % a))
    if b.reflog != n.reflog:
        ms.append(("pure", "%s changed a ref's history" % a))
    if any(n.objs.get(k) != v for k, v in b.objs.items()):
        ms.append(("pure", "%s changed or removed a stored object" % a))
    if a["a"] in ("fetch", "reflog", "refget", "gethead", "log", "show") and b.objs != n.objs:
        ms.append(("pure", "%s added objects" % a))
    if a["a"] != "fail" and p.wt_now() != p.c.tree(p.wt):
        ms.append(("pure", "%s changed the working tree" % a))
    if a["a"] not in ("fail",):
        ms += debug(p)
    return ms


def debug(p):
    """the debug printing commands, on any stored object, at the same point"""
    if p.rng.random() > .4 or not p.prev.objs:
        return []
    k = p.rng.choice(sorted(p.prev.objs))
    cmd = p.rng.choice([["debug", "pretty-print", p.key(k)], ["debug", "walk-tree", p.key(k)], ["debug", "walk-fs-tree", p.w.repo], ["compare", "--stat"],
                        ["compare", "--stat", p.key(k)], ["show", p.key(k)], ["log", p.key(k)], ["ref", "log", "never"], ["debug", "get-head"]])
    r = p.run(*cmd)
    n = p.w.dump()
    same = n.refs_eq(p.prev) and all(n.objs.get(q) == v for q, v in p.prev.objs.items())
    if not same or p.wt_now() != p.c.tree(p.wt):
        return [("pure", "%s changed something" % cmd)]
    if cmd[0] != "compare" and n.objs != p.prev.objs:
        return [("pure", "%s added objects" % cmd)]
    p.prev = n
    return []


def run(c):
    cli = vlib.build_cli()
    q = c.quick
    engine.model_run(c, dict(Acts="AInspect", Names="N1", Contents="C1", Refs="R1", WTs="W2", MaxCommits=2, MaxLog=2, MaxRoots=1), invariant_only=True)
    engine.sim_check(c, cli, dict(Acts="AInspect", Names="N3", Contents="C3", Refs="R3", Remotes="M2", WTs="WNone", XSets="X1", MaxCommits=8, MaxLog=8, MaxRoots=6),
                     100 if q else 1500, 40, {"pure"}, hook=hook, repkw={"_ballast": .1}, budget=35 if q else 500)
    # trees large enough that inspecting them stores something
    engine.sim_check(c, cli, dict(Acts="AInspect", Names="N2", Contents="C2", Refs="R2", MaxDepth=3, WTs="WNone", MaxCommits=5, MaxLog=5, MaxRoots=3),
                     30 if q else 500, 30, {"pure"}, hook=hook, budget=15 if q else 300, seed=5)
    c.assumptions = ["objects that status, compare and checkout-head add while comparing are allowed: only objects already stored are protected"]


vlib.main("C23", run)
