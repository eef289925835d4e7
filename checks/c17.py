"""C17: checkout between every pair of small trees of TreePairs.tla, and along behaviours of Repo.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cocheck, engine, links, pairs, refuse, vlib


def run(c):
    q = c.quick
    with vlib.Permitted() as P:
        cli = P.cli(vlib.build_cli())
        cocheck.run(c, cli, [("N2", "C2", "X2", 50 if q else 0, 40 if q else 150), ("N3", "C2", "X3", 40 if q else 300, 30 if q else 100)], {"checkout"}, P)
        if not q:
            pairs.pairs(c, "none", xsets="X2")
        engine.sim_check(c, cli, dict(Acts="ACheckoutP", Names="N3", Contents="C3", Refs="R3", WTs="WNone", MaxDepth=3, XSets="X1", MaxCommits=9, MaxLog=9, MaxRoots=4),
                         40 if q else 600, 30, {"wt", "outcome", "log", "head", "changed"}, only=lambda a: a["a"] == "checkout",
                         repkw={"_base": P.path, "_ballast": .15}, budget=15 if q else 200)
        links.run(c, cli, {"checkout"}, P, 300 if q else 9000)
        refuse.run(c, cli, {"checkout"}, "ACheckout", base=P)
    c.assumptions = ["working trees of ordinary files and directories; run as an unprivileged account in a scratch directory below the one place checkout permits"]


vlib.main("C17", run)
