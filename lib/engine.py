"""Running Repo.tla against the program: transition covers and random behaviours."""
import json, os, random, sys, time
import repo, snap, vlib
from vlib import Scratch, ToolError

SETS = {"N1": ["a"], "N2": ["a", "b"], "N3": ["a", "b", "x"], "C1": ["c1"], "C2": ["c1", "c2"], "C3": ["c1", "c2", "c3"],
        "R1": ["master"], "R2": ["master", "r1"], "R3": ["master", "r1", "r2"], "M0": [], "M1": ["o1"], "M2": ["o1", "o2"],
        "G1": ["m1"], "G2": ["m1", "m2"], "G3": ["m1", "m2", "m3"]}
DEF = {"Names": "N2", "Contents": "C2", "Refs": "R2", "Remotes": "M0", "Msgs": "G1"}


def model_run(c, consts, simulate=None, depth=None, seed=None, invariant_only=False, **kw):
    """TLC on MCRepo; a violated model property is a tool error (the model itself must be right)"""
    k = dict(consts)
    if not invariant_only:
        k["EmitMode"] = '"sim"' if simulate else '"lts"'
    r = vlib.tlc("MCRepo", constants=k, simulate=simulate, depth=depth, seed=seed,
                 workers=vlib.NCPU if invariant_only else 1, **kw)
    c.model(r)
    return r


def _mk(sc, cli, rng, consts, repkw):
    q = dict(DEF)
    q.update(consts)
    p = repo.Rep(sc, cli, rng, SETS[q["Names"]], SETS[q["Contents"]], SETS[q["Refs"]], SETS[q["Remotes"]], SETS[q["Msgs"]],
                    initcmd="init" in repkw.get("_acts", ""), **{k: v for k, v in repkw.items() if not k.startswith("_")})
    p.opts["relpaths"] = True
    if repkw.get("_ballast") and rng.random() < repkw["_ballast"]:
        p.c.ballast = snap.ballast(rng)
    return p


def _walk(job):
    cli, walk, seed, consts, tags, hook, repkw, only = job
    rng = random.Random(seed)
    hist, bad, n = [], [], 0
    if repkw.get("_base"):
        vlib.drop_privileges()
    with Scratch(base=repkw.get("_base")) as sc:
        try:
            p = _mk(sc, cli, rng, consts, repkw)
            if repkw.get("_setup"):
                repkw["_setup"](p)
            for a, o, d in walk:
                if p.c.ballast and (a.get("p") and a["a"] in ("insert", "commit") or a.get("x") and a["a"] == "checkout"):
                    break           # its root would be a directory with ballast; what is excluded would keep a directory without it
                hist.append([a, o.get("ok")])
                ms = p.step(a, o, d)
                stop = any(t == "outcome" for t, _ in ms)
                if only is None or only(a):
                    ms = [m for m in ms if tags is None or m[0] in tags]
                else:
                    ms = []
                if hook and not stop:
                    ms += hook(p, a, o, d) or []
                n += 1
                if ms:
                    bad.append((ms[:3], hist[-25:], _names(p), p.w.log[-12:]))
                    break
                if stop:
                    break
        except repo.Mismatch as e:
            if tags is None or "init" in tags:
                bad.append(([("init", str(e))], hist, {}, []))
    return n, bad


def _names(p):
    return {"names": p.c.n, "refs": p.ref, "remotes": p.rem, "contents": {k: repr(v[:20]) + "..%d" % len(v) for k, v in p.c.c.items()},
            "messages": {k: v[:40] for k, v in p.msg.items()}}


def run_walks(c, cli, walks, consts, tags, hook=None, repkw=None, only=None, budget=None):
    jobs = [(cli, w, c.seed * 100003 + i, consts, tags, hook, repkw or {}, only) for i, w in enumerate(walks)]
    done = steps = 0
    t0 = time.time()
    nb = 0
    block = 400
    for k in range(0, len(jobs), block):
        for n, bad in vlib.pmap(_walk, jobs[k:k + block], chunks=4):
            steps += n
            done += 1
            for b in bad:
                nb += 1
                c.violate("%s" % (b[0],), {"mismatch": b[0], "behaviour": b[1], "concrete": b[2], "commands": b[3]})
        if nb >= 10 or (budget and time.time() - t0 > budget):
            break
    c.traces(done)
    c.count("steps_replayed", steps)
    return done


def lts_check(c, cli, consts, tags, hook=None, repkw=None, only=None, limit=None, maxlen=40, budget=None):
    r = model_run(c, consts)
    states, edges = repo.lts(r.emitted)
    tot = sum(map(len, edges.values()))
    walks, taken = repo.cover(edges, 0, random.Random(c.seed), limit=limit, maxlen=maxlen)
    walks = [[(a, o, states[d]) for a, o, d in w] for w in walks]
    c.count("model_transitions", tot)
    n = run_walks(c, cli, walks, consts, tags, hook, repkw, only, budget)
    if n == len(walks):
        c.count("model_transitions_replayed", taken)
    if walks:
        c.sample({"walk": [[a, o] for a, o, _ in walks[len(walks) // 2][:8]]})
    return n


def sim_check(c, cli, consts, num, depth, tags, hook=None, repkw=None, only=None, seed=None, budget=None):
    r = model_run(c, consts, simulate=num, depth=depth, seed=(seed or 0) * 7919 + c.seed)
    bs = repo.behaviours(r.emitted)
    walks = [[(e["a"], e["o"], e["d"]) for e in b] for b in bs]
    c.count("model_behaviours", len(walks))
    if walks:
        c.sample({"behaviour": [[a, o] for a, o, _ in walks[0][:10]]})
    return run_walks(c, cli, walks, consts, tags, hook, repkw, only, budget)
