"""C20: every transition of Repo.tla's HEAD-switching fragment replayed on the program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, refuse, vlib


def only(a):
    return a["a"] == "checkouthead"


def hook(p, a, o, d):
    if a["a"] == "checkouthead" and p.wt_now() != p.c.tree(p.wt):
        return [("wt", "checkout-head changed the working tree")]


def run(c):
    cli = vlib.build_cli()
    tags = {"outcome", "log", "head", "wt"}
    q = c.quick
    kw = dict(Acts="AHead", WTs="W6", MaxCommits=2, MaxLog=2)
    engine.lts_check(c, cli, kw, tags, hook=hook, only=only, limit=4500 if q else 60000, budget=20 if q else 300)
    engine.lts_check(c, cli, dict(Acts="AHead", Names="N3", WTs="WX", XSets="X1", MaxCommits=1, MaxLog=2), tags, hook=hook, only=only,
                     limit=2500 if q else 60000, budget=15 if q else 300)
    engine.sim_check(c, cli, dict(Acts="AHead", Names="N3", Refs="R3", WTs="WNone", XSets="X1", MaxCommits=8, MaxLog=6, Contents="C3"),
                     40 if q else 600, 30, tags, hook=hook, only=only, repkw={"_ballast": .15}, budget=15 if q else 200)
    refuse.run(c, cli, {"checkouthead"}, "AHead", num=40)
    c.assumptions = ["exclusions are given as **/NAME globs"]


vlib.main("C20", run)
