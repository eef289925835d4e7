"""C06: every transition of Repo.tla's commit/ref/HEAD fragment replayed on the program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, vlib


def only(a):
    return a["a"] in ("commit",)


def run(c):
    cli = vlib.build_cli()
    tags = {"outcome", "commit", "tree", "log", "head", "changed"}
    q = c.quick
    # the model itself, exhaustively at a larger bound
    engine.model_run(c, dict(Acts="ACommit", MaxCommits=3 if q else 4, MaxLog=2 if q else 3, EmitMode='"none"'), invariant_only=True)
    engine.lts_check(c, cli, dict(Acts="ACommit", MaxCommits=2 if q else 3), tags, only=only, repkw={"emptymsg": True}, limit=8000 if q else 60000, budget=25 if q else 250)
    # commits of a subdirectory or file, exclusions, three refs, long histories
    engine.sim_check(c, cli, dict(Acts="ACommitP", Names="N3", Refs="R3", Msgs="G3", WTs="WNone", XSets="X1", MaxCommits=14, MaxLog=12, Contents="C3"),
                     60 if q else 600, 24, tags, only=only, repkw={"emptymsg": True, "_ballast": .1}, budget=20 if q else 200)
    c.assumptions = ["ref names, messages, file names and contents are drawn at random (seeded) from pools that include look-alikes"]


vlib.main("C06", run)
