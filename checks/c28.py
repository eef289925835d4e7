"""C28: repositories written without the program, in the form Format.tla describes, from states of Repo.tla; every command gives the
model's result on them, and everything the program stores has that form."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, foreign, listing, repo, snap, vlib

BIG = [random.Random(5).randbytes(300000), random.Random(6).randbytes(131072), bytes(200000), b"line of text\n" * 9000]
READ = {"fetch", "showfile", "walktree", "pretty", "log", "show", "reflog", "refget", "gethead", "refupdate", "reflogpush", "sethead", "refbad"}
OLD = READ | {"status", "compare", "checkouthead"}
NAMES = snap.NAMEPOOL + [n for n in snap.HARDNAMES if snap.text(n) and not set(n) & set("\n\r")]


def job(j):
    cli, consts, steps, seed = j
    rng = random.Random(seed)
    bad, recs, n, kinds = [], {}, 0, {}
    for s, a, o, d in steps:
        forms = ["same"] + (["old"] if a["a"] in OLD else []) + (["shape"] if a["a"] in READ else [])
        form = rng.choice(forms)
        q = dict(engine.DEF)
        q.update(consts)
        with vlib.Scratch() as sc:
            pool = snap.TEXTPOOL if a["a"] in ("log", "show") else snap.CONTENTPOOL + BIG if rng.random() < .5 else None
            p = repo.Rep(sc, cli, rng, *[engine.SETS[q[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool, namepool=NAMES, initcmd=True)
            if rng.random() < .05:
                p.c.ballast = snap.ballast(rng)
                if a.get("p") and a["a"] in ("insert", "commit"):
                    p.c.ballast = None
                for m in s["cm"]:           # no directory below the root was the root of one
                    p.c.ballast = p.c.ballast if not s["rt"] else None
            w = foreign.build(p, s, form)
            ms = p.step(a, o, d)
            n += 1
            kinds[form] = kinds.get(form, 0) + 1
            if not ms and a["a"] in ("log", "show") and o["ok"]:
                got = re.findall(r"^commit: (b[a-z2-7]{52})$", p.last.text, re.M)
                k, want = p.commits[o["chain"][0]["id"] - 1], []
                while k:
                    want.append(snap.b3.user_key(k))
                    k = (p.prev.commit(k)["parents"] + [None])[0] if a["a"] == "log" else None
                fake = any("commit: b" in m for m in p.msg.values())
                if got != want and not fake:
                    ms.append(("log", "%s printed %s, expected %s" % (a, got, want)))
            if not ms and w.strange and rng.random() < .4:
                ms = strange(p, w)
            if not ms and form == "same" and p.prev.objs != w.objs and rng.random() < .25:
                for r in foreign.records(p.prev, p.w.dbfile):
                    recs.setdefault(json.dumps(r["key"]) if r["kind"] not in ("ref", "head") else json.dumps(r), r)
            if ms:
                bad.append(("%s, on a repository in the %s form" % (ms[:2], {"same": "stored", "old": "old", "shape": "stored (divided differently)"}[form]),
                            {"state": s, "command": a, "form": form, "names": p.c.n, "refs": p.ref, "remotes": p.rem, "commands": p.w.log[-3:]}))
                break
    return n, bad, list(recs.values()), kinds


def strange(p, w):
    """what can be done with an object of an unknown kind: look at it"""
    ms = []
    k = p.rng.choice(w.strange)
    o, u = p.w.dump().decode(k), snap.b3.user_key(k)
    before = p.w.dump()
    f = p.w.run("debug", "pretty-print", u)
    try:
        if f.failed or listing.pretty(f.text)[1:] != (o.keys, o.data):
            ms.append(("strange", "pretty-print of an object of unknown kind: %r" % f))
    except listing.Unreadable as e:
        ms.append(("strange", "pretty-print of an object of unknown kind: %r" % e))
    dest = os.path.join(p.w.base, "dest-strange")
    for c in p.rng.sample([("ref", "update", u, "some-ref"), ("debug", "reflog-push", u, "some-ref", "r"), ("log", u), ("fetch", u, dest), ("debug", "walk-tree", u)], 3):
        f = p.w.run(*c)
        if not f.failed:
            ms.append(("strange", "%s of an object of unknown kind succeeded: %r" % (c[:2], f)))
    if p.w.dump() != before:
        ms.append(("strange", "commands given an object of unknown kind changed the repository"))
    return ms


def written(j):
    """a whole behaviour by the program: what it has stored in the end"""
    cli, walk, consts, seed = j
    rng = random.Random(seed)
    q = dict(engine.DEF)
    q.update(consts)
    with vlib.Scratch() as sc:
        p = repo.Rep(sc, cli, rng, *[engine.SETS[q[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")],
                     contentpool=snap.CONTENTPOOL + BIG, namepool=NAMES, emptymsg=True)
        if rng.random() < .2:
            p.c.ballast = snap.ballast(rng)
        for a, o, d in walk:
            if any(t == "outcome" for t, _ in p.step(a, o, d)):
                break
        try:
            return foreign.records(p.w.dump(), p.w.dbfile)
        except Exception as e:
            return [{"kind": "unreadable", "error": repr(e)}]


def check(c):
    cli = vlib.build_cli()
    q = c.quick
    rng = random.Random(c.seed)
    small = dict(Acts="AForeign", Names="N2", Contents="C2", Refs="R2", Remotes="M1", WTs="W3", MaxCommits=2, MaxLog=2, MaxRoots=1)
    r = engine.model_run(c, dict(small, Names="N1", Contents="C1", Refs="R1", Remotes="M0", WTs="W2") if q else dict(small, Names="N1"))
    states, edges = repo.lts(r.emitted)
    steps = [(states[s], a, o, states[d]) for s, es in edges.items() for a, o, d in es if a["a"] not in ("edit", "start") and states[s]["e"]]
    by = {}
    for x in steps:
        by.setdefault(x[1]["a"], []).append(x)
    pick = []
    for k in sorted(by):
        rng.shuffle(by[k])
        pick += by[k][:(150 if q else 1500)]
    jobs = [(cli, small, x, c.seed * 61 + i) for i, x in enumerate(vlib.split(pick, 64))]
    big = dict(Acts="AForeign", Names="N3", Contents="C3", Refs="R3", Remotes="M2", Msgs="G3", MaxDepth=3, WTs="WNone", XSets="X1", MaxCommits=8, MaxLog=8, MaxRoots=5)
    r = engine.model_run(c, big, simulate=150 if q else 1500, depth=30, seed=c.seed * 11 + 1)
    walks = [[(e["a"], e["o"], e["d"]) for e in b] for b in repo.behaviours(r.emitted)]
    more = [(u[2],) + v for w in walks for u, v in zip(w, w[1:]) if v[0]["a"] != "edit" and u[2]["e"]]
    by = {}
    for x in more:
        by.setdefault(x[1]["a"], []).append(x)
    pick = []
    for k in sorted(by):
        rng.shuffle(by[k])
        pick += by[k][:(150 if q else 1200)]
    jobs += [(cli, big, x, c.seed * 67 + i) for i, x in enumerate(vlib.split(pick, 64))]
    recs = {}
    for n, bad, rs, kinds in vlib.pmap(job, jobs):
        c.count("commands_on_foreign_repositories", n)
        c.traces(n)
        for k, v in kinds.items():
            c.count("form_" + k, v)
        for b in bad:
            c.violate(*b)
        for x in rs:
            recs[json.dumps(x, sort_keys=True)] = x
    for rs in vlib.pmap(written, [(cli, w, big, c.seed * 71 + i) for i, w in enumerate(walks[:48 if q else 200])]):
        for x in rs:
            recs[json.dumps(x, sort_keys=True)] = x
    recs = list(recs.values())
    for x in recs:
        if x["kind"] == "unreadable":
            c.violate("what the program stored cannot be read: %s" % x["error"], x)
    recs = [x for x in recs if x["kind"] != "unreadable"]
    rng.shuffle(recs)
    recs = recs[:4000 if q else 40000]
    for part in vlib.split(recs, 8):
        r = vlib.tlc("Format", extra_files={"records.json": json.dumps(part)}, workers=1)
        c.model(r)
        for x in r.emitted:
            m = part[x["n"] - 1]
            c.violate("stored %s in another form: %s" % (m["kind"], {k: v if not isinstance(v, list) else bytes(v) if v and isinstance(v[0], int) else v for k, v in m.items()}), {"record": m})
    c.count("stored_records_judged", len(recs))
    c.sample({"step": more[5][1:3]})


vlib.main("C28", check)
