"""C24: every transition of Repo.tla's fragment with init repeated at any point, and nested repositories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, vlib


def only(a):
    return a["a"] in ("init", "initnested")


def hook(p, a, o, d):
    ms = []
    if a["a"] == "init":
        lost = [k for k in p.before.objs if p.prev.objs.get(k) != p.before.objs[k]]
        if lost or (p.before.head and p.before.head != p.prev.head) or p.before.reflog != p.prev.reflog:
            ms.append(("init", "init changed an existing repository"))
        if p.prev.head is None:
            ms.append(("init", "no HEAD after init"))
    if a["a"] == "initnested":
        if not p.before == p.prev:
            ms.append(("init", "a nested init changed the outer repository"))
        if not p.last.nested_ok:
            ms.append(("init", "the nested repository is not usable: %r" % p.last))
    return ms


def run(c):
    cli = vlib.build_cli()
    tags = {"outcome", "log", "head", "init"}
    q = c.quick
    engine.lts_check(c, cli, dict(Acts="AInit", Names="N1", WTs="W2", MaxCommits=2, MaxLog=2, MaxRoots=1), tags, hook=hook, only=only,
                     repkw={"_acts": "init"}, limit=5000 if q else 60000, budget=25 if q else 300)
    engine.sim_check(c, cli, dict(Acts="AInit", Names="N2", Refs="R3", WTs="WNone", MaxCommits=8, MaxLog=6),
                     40 if q else 600, 30, tags, hook=hook, only=only, repkw={"_acts": "init"}, budget=15 if q else 200)


vlib.main("C24", run)
