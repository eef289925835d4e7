"""C10: two or three real commands on one repository, each stopped before every lock operation of the storage engine and
released as the schedules of Txn.tla say; recorded histories are judged by History.tla."""
import json, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, faults, repo, sched, snap, vlib
from snap import Dump, Obj

SPILL = [random.Random(77).randbytes(3 << 20), random.Random(78).randbytes(2 << 20), b"small", b"x" * 40000]
BYTES = {1073741824: "PEND", 1073741825: "RES", 1073741826: "SHR"}
WRITERS = ("commit", "commitp", "insert", "committree", "refupdate", "reflogpush", "sethead", "checkouthead")
READERS = ("reflog", "log", "gethead", "fetch")


def program(events):
    """the lock requests of a solo run as a program of Txn.tla, with the number of real stops of each"""
    prog = []
    for e in events:
        if e[0] == "rdlock":
            prog.append({"k": "r", "b": BYTES.get(e[1], "SHR")})
        elif e[0] == "wrlock":
            prog.append({"k": "w", "b": BYTES.get(e[1], "SHR")})
        elif e[0] == "unlock":
            prog.append({"k": "u", "b": "ALL" if e[1] == 0 else "PR" if e[1] == 1073741824 and e[2] == 2 else BYTES.get(e[1], "SHR")})
    return prog


class Abs:
    """values of History.tla for real objects"""

    def __init__(self, dump):
        self.d = dump
        self.memo = {}

    def commit(self, k):
        if k not in self.memo:
            try:
                r = self.d.commit(k)
                self.memo[k] = {"m": r["message"], "t": r["tree"].hex(), "p": [self.commit(x) for x in r["parents"]]}
            except Exception:
                self.memo[k] = {"m": "?unusable " + k.hex(), "t": "", "p": []}
        return self.memo[k]

    def state(self):
        d = self.d
        log = {}
        for r, m, k in d.reflog:
            log.setdefault((r, m), []).append(self.commit(k))
        com = [k for k, v in d.objs.items() if Obj(v).type == "Commit"]
        return {"log": [{"ref": r, "rem": "" if m is None else "!" + m, "l": l} for (r, m), l in log.items()],
                "head": d.head or "", "objs": sorted(k.hex() for k in d.objs if k not in com), "commits": [self.commit(k) for k in com]}


def stored(d, pre):
    """the objects a command that ran alone stored, except commits"""
    return sorted(k.hex() for k, v in d.objs.items() if k not in pre.objs and Obj(v).type != "Commit")


def make(p, rng, kind):
    """a command: (args, excl, record)"""
    d = p.prev
    A = Abs(d)
    w = p.w
    refs = list(p.ref.values())
    com = [k for k, v in d.objs.items() if Obj(v).type == "Commit"]
    trees = [k for k, v in d.objs.items() if Obj(v).type == "FSItemDir"]
    rec = {"k": kind, "ref": "@HEAD", "msg": "", "tree": "", "objs": [], "id": {"m": "", "t": "", "p": []}, "par": [], "rem": "",
           "seen": [], "empty": False, "ok": False}
    ref = rng.choice(refs) if rng.random() < .5 else None
    if ref is not None:
        rec["ref"] = ref
    cid = rng.choice(com) if com else None
    if cid:
        rec["id"] = A.commit(cid)
    if kind in ("commit", "commitp", "insert"):
        src = w.repo
        subs = [os.path.join(w.repo, n) for n, c in p.wt_now().items() if c == "D"]
        if kind == "commitp" and subs:
            src = rng.choice(subs)
        if kind == "insert" and rng.random() < .6:
            src = os.path.join(w.base, "ins%d" % rng.randrange(10 ** 6))
            snap.write_tree(src, {"f%d" % i: rng.choice(list(p.c.c.values())) + b"%d" % rng.randrange(99) for i in range(rng.randrange(1, 4))})
        if kind == "insert":
            return ["insert", src], rec
        rec["k"] = "commit"
        rec["msg"] = "msg %d" % rng.randrange(10 ** 6) if rng.random() < .8 else "same"
        return ["commit", "--message=" + rec["msg"]] + (["-p", src] if kind == "commitp" else []) + ([ref] if ref is not None else []), rec
    if kind == "committree":
        if not trees:
            return None
        t = rng.choice(trees)
        rec["tree"], rec["par"] = t.hex(), [A.commit(cid)] if cid and rng.random() < .6 else []
        return ["debug", "commit-tree", snap.b3.user_key(t)] + ([snap.b3.user_key(cid)] if rec["par"] else []), rec
    if kind == "refupdate":
        return (["ref", "update", snap.b3.user_key(cid)] + ([ref] if ref is not None else []), rec) if cid else None
    if kind == "reflogpush":
        if not cid:
            return None
        rec["ref"] = rng.choice(refs)
        rem = rng.choice(list(p.rem.values()) + [None])
        rec["rem"] = "" if rem is None else "!" + rem
        return ["debug", "reflog-push", snap.b3.user_key(cid), rec["ref"]] + ([rem] if rem is not None else []), rec
    if kind == "sethead":
        rec["ref"] = rng.choice(refs)
        return ["debug", "set-head", rec["ref"]], rec
    if kind == "checkouthead":
        rec["ref"] = rng.choice(refs)
        return ["checkout-head", rec["ref"]], rec
    if kind == "reflog":
        return ["ref", "log"] + ([ref] if ref is not None else []), rec
    if kind == "log":
        rec["ref"] = "@HEAD"
        return ["log"], rec
    if kind == "gethead":
        return ["debug", "get-head"], rec
    if kind == "init":
        return ["init"], rec
    if kind == "fetch":
        if not trees:
            return None
        return ["fetch", snap.b3.user_key(rng.choice(trees)), os.path.join(w.base, "out%d" % rng.randrange(10 ** 9))], rec
    raise ValueError(kind)


def reported(kind, r):
    return r is not None and not r.failed and b"Cannot checkout" not in r.out


def look(rec, kind, r, dump):
    """what a successful reading command saw"""
    A = Abs(dump)

    def com(b):
        k = snap.key_to_db(b.decode())
        return A.commit(k)
    if kind == "reflog":
        rec["seen"] = [com(x) for x in re.findall(rb"^\d+: (b[a-z2-7]{52})", r.out, re.M)]
    elif kind == "log":
        rec["seen"] = [com(x) for x in re.findall(rb"^commit: (b[a-z2-7]{52})", r.out, re.M)]
    elif kind == "gethead":
        m = re.search(r'Some\("(.*)"\)', r.text)
        rec["seen"] = (json.loads('"%s"' % m.group(1)) if "\\" not in m.group(1) else json.loads('"%s"' % re.sub(r"\\'", "'", m.group(1)))) if m else ""


def prepare(p, rng):
    """refs with different trees, and the tree of HEAD's in the working directory: checkout-head can succeed, and what it
    compared with is what the others change"""
    p.ref["third"] = "third"
    refs = list(p.ref.values())
    rng.shuffle(refs)
    for i, r in enumerate(refs):
        with open(os.path.join(p.w.repo, "which"), "wb") as f:
            f.write(b"%d" % i)
        if p.w.run("commit", "-m", "tree %d" % i, r).failed:
            return
    p.w.run("debug", "set-head", refs[-1])
    p.prev = p.w.dump()


def scenario(rng, p, kinds):
    cmds, used = [], set()
    for k in kinds:
        m = make(p, rng, k)
        for _ in range(10):             # not the same ref twice
            if m is None or k not in ("checkouthead", "sethead") or m[1]["ref"] not in used:
                break
            m = make(p, rng, k)
        if m and k in ("checkouthead", "sethead"):
            used.add(m[1]["ref"])
        if m is None:
            return None
        cmds.append((k, m[0], m[1]))
    # runs alone: its lock operations, and what it stores
    progs = []
    for i, (k, args, rec) in enumerate(cmds):
        s = p.save(os.path.join(p.w.base, "solo"))
        pre = p.prev
        S = sched.Sched(p.w.base, p.w, p.shim, [os.path.join(p.w.repo, ".snapcd")], schedcls="lsu")
        try:
            q = S.spawn("solo", args)
            S.drain()
        finally:
            S.close()
        d = Dump(p.w.dbfile)
        if k in ("commit", "commitp"):
            new = d.reflog[len(pre.reflog):]
            if len(new) == 1:
                t = d.commit(new[0][2])["tree"]
                rec["tree"], rec["objs"] = t.hex(), stored(d, pre)
        elif k == "insert":
            m = re.search(rb"inserted hash (\S+)", q.r.out)
            if m:
                rec["objs"] = stored(d, pre)
        elif k == "checkouthead":
            rec["objs"] = stored(d, pre)
            r = p.w.run("insert", p.w.repo)
            m = re.search(rb"inserted hash (\S+)", r.out)
            rec["tree"] = snap.key_to_db(m.group(1).decode()).hex() if m else ""
            rec["empty"] = not p.wt_now()
        progs.append((program(q.events), [e for e in q.events if not e[0].startswith("=")]))
        p.load(s)
        shutil.rmtree(s[0], ignore_errors=True)
        out = args[-1] if k == "fetch" else None
        if out and os.path.isdir(out):
            shutil.rmtree(out)
    return cmds, progs


def play(p, cmds, sc, shared):
    """one schedule; returns the history record"""
    base = p.w.base
    S = sched.Sched(base, p.w, p.shim, [os.path.join(p.w.repo, ".snapcd")], schedcls="lsu")
    env = {"XDG_CACHE_HOME": os.path.join(base, "shared-cache")} if shared else None
    try:
        ps = [S.spawn("p%d" % i, a, env=env) for i, (_, a, _) in enumerate(cmds)]
        for run in sc["sched"]:
            q = ps[run["p"] - 1]
            for _ in range(run["n"]):
                if q.done:
                    break
                S.go(q)
            if run["k"] and not q.done:
                S.kill(q)
        S.drain(20000)
    finally:
        S.close()
    killed = [r["p"] - 1 for r in sc["sched"] if r["k"]]
    dump = Dump(p.w.dbfile)
    cr = []
    for i, (k, a, rec) in enumerate(cmds):
        rec = dict(rec)
        r = ps[i].r
        rec["ok"] = i not in killed and reported(k, r)
        if k == "checkouthead" and i not in killed and not r.failed and not rec["ok"]:
            rec["k"], rec["ok"] = "refused", True
        if rec["ok"]:
            look(rec, k, r, dump)
        cr.append(rec)
    for i, (k, a, _) in enumerate(cmds):
        if k == "fetch" and os.path.isdir(a[-1]):
            shutil.rmtree(a[-1])
    # a killed command may have had its effect or not; both are asked about
    return cr, killed, dump, [(q.tag, q.sleeps, repr(q.r)[:300]) for q in ps]


def job(j):
    cli, shim, walk, seed, consts, pool, kinds, scheds, fresh = j
    rng = random.Random(seed)
    out = []
    with vlib.Scratch() as base:
        k = dict(engine.DEF)
        k.update(consts)
        try:
            p = repo.Rep(base, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool, initcmd=fresh)
        except repo.Mismatch:
            return None
        p.shim = shim
        for a, o, d in walk:
            if any(t == "outcome" for t, _ in p.step(a, o, d)):
                break
        if "checkouthead" in kinds and not fresh and rng.random() < .8:
            prepare(p, rng)
        if fresh:
            os.makedirs(os.path.join(p.w.repo, ".snapcd")) if rng.random() < .5 else None
        s = scenario(rng, p, kinds)
        if s is None:
            return None
        cmds, progs = s
        if scheds is None:
            return [x for x, _ in progs]
        before = Abs(p.prev).state()
        sv = p.save(os.path.join(base, "start"))
        for n, sc in enumerate(scheds):
            if n:
                p.load(sv)
            shutil.rmtree(os.path.join(base, "shared-cache"), ignore_errors=True)
            cr, killed, dump, info = play(p, cmds, sc, n % 3 == 0)
            h = {"cmds": cr, "before": before, "after": Abs(dump).state()}
            alt = None
            if killed:
                alt = dict(h, cmds=[dict(c, ok=c["ok"] or i in killed) for i, c in enumerate(cr)])
                if any(c["k"] in READERS for i, c in enumerate(cr) if i in killed):
                    alt = None
            out.append((h, alt, {"commands": [[str(x) for x in a] for _, a, _ in cmds], "schedule": sc["sched"], "model": sc["st"],
                                 "outcome": info, "bad": dump.closure_errors()[:3] + dump.bad}))
    return out


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    rng = random.Random(c.seed * 31 + 5)
    # the protocol itself, exhaustively, on the locks one read and one write transaction take
    R = [{"k": k, "b": b} for k, b in (("r", "PEND"), ("r", "SHR"), ("u", "PEND"))]
    W = R + [{"k": k, "b": b} for k, b in (("w", "RES"), ("w", "PEND"), ("w", "SHR"), ("r", "SHR"), ("u", "PR"), ("u", "ALL"))]
    RD = R + [{"k": "u", "b": "ALL"}]
    for progs in ([W, W], [W, RD]) if q else ([W, W], [W, RD], [W, W, RD], [W, W, W]):
        r = vlib.tlc("Txn", constants={"MaxWait": 2}, extra_files={"progs.json": json.dumps(progs)}, heap="12g")
        c.model(r)
    # base repositories
    kw = dict(Acts="AStore", Names="N2", Contents="C3", Refs="R2", Remotes="M1", WTs="WNone", MaxDepth=2, XSets="X0", MaxCommits=6, MaxLog=5, MaxRoots=3)
    r = engine.model_run(c, kw, simulate=24 if q else 160, depth=11, seed=c.seed * 7)
    bases = [[(e["a"], e["o"], e["d"]) for e in b] for b in repo.behaviours(r.emitted)]
    # scenarios
    scen = []
    first = [("commit", "commit"), ("commit", "commitp"), ("commit", "insert"), ("commit", "refupdate"), ("commit", "sethead"), ("commit", "checkouthead"),
             ("commit", "reflog"), ("commit", "log"), ("refupdate", "refupdate"), ("refupdate", "reflogpush"), ("checkouthead", "sethead"), ("checkouthead", "refupdate"), ("checkouthead", "checkouthead"),
             ("insert", "insert"), ("committree", "commit"), ("sethead", "gethead"), ("insert", "fetch")]
    allk = WRITERS + READERS
    for i in range(29 if q else 160):
        if i < len(first):
            ks = first[i]
        elif i % 3 == 0:
            ks = ("commit", rng.choice(allk), rng.choice(allk))
        else:
            ks = (rng.choice(WRITERS), rng.choice(allk))
        scen.append((bases[i % len(bases)], c.seed * 911 + i, None, ks, False))
    for i in range(1 if q else 6):
        scen.append((bases[i % len(bases)], c.seed * 977 + i, SPILL, ("commit", "commit") if i % 2 == 0 else ("commit", "insert"), False))
    for i in range(2 if q else 6):
        scen.append(([], c.seed * 983 + i, None, ("init", "init") if i % 2 == 0 else ("init", "init", "gethead"), True))
    solo = vlib.pmap(lambda s: job((cli, shim, s[0], s[1], kw, s[2], s[3], None, s[4])), scen)
    jobs, tj = [], []
    for s, pr in zip(scen, solo):
        if pr and all(pr):
            tj.append((s, pr))

    def plan(x):
        i, (s, pr) = x
        big = s[2] is not None
        emitted, res = [], []
        n = (110 if q else 900) if not big else (30 if q else 200)
        r = vlib.tlc("Txn", cfg="TxnSched", simulate=n, depth=1500, seed=c.seed * 100 + i * 7,
                     workers=1, extra_files={"progs.json": json.dumps(pr)}, heap="1500m")
        res.append(r)
        emitted += r.emitted
        seen, out = set(), []
        for e in emitted:
            key = json.dumps(e["sched"])
            if key not in seen:
                seen.add(key)
                out.append(e)
        return out, res
    plans = vlib.pmap(plan, list(enumerate(tj)))
    for (s, pr), (sch, res) in zip(tj, plans):
        for r in res:
            c.model(r)
        for part in vlib.split(sch, max(1, len(sch) // 30)):
            jobs.append((cli, shim, s[0], s[1], kw, s[2], s[3], part, s[4]))
    hs, meta = [], []
    for out in vlib.pmap(job, jobs):
        for h, alt, m in out or ():
            hs.append(h)
            meta.append((m, None))
            if alt:
                hs.append(alt)
                meta.append((m, len(hs) - 2))
    # judge
    parts = vlib.split(list(range(len(hs))), 8)

    def judge(idx):
        r = vlib.tlc("History", extra_files={"histories.json": json.dumps([hs[i] for i in idx])}, workers=1, heap="3g")
        return r, [(idx[e["i"] - 1], e["ok"]) for e in r.emitted]
    verdict = {}
    for r, v in vlib.pmap(judge, parts):
        c.model(r)
        verdict.update(v)
    if len(verdict) != len(hs):
        raise vlib.ToolError("judge did not answer")
    second = {m[1]: i for i, m in enumerate(meta) if m[1] is not None}
    for i, (m, parent) in enumerate(meta):
        if parent is not None:
            continue
        c.traces(1)
        c.count("evaluations")
        won = sum(x["ok"] for x in hs[i]["cmds"])
        c.count("distinct_nontrivial", any(s for _, s, _ in m["outcome"]) or won < len(hs[i]["cmds"]))
        if (won == sum(s == "ok" for s in m["model"])):
            c.count("model_predicted_outcome")
        if m["bad"]:
            c.violate("dangling after concurrent commands: %s" % m["bad"], dict(m, history=hs[i]))
        if not verdict[i] and not (i in second and verdict[second[i]]):
            c.violate("no serial order explains %s (%s)" % (m["commands"], [x["ok"] for x in hs[i]["cmds"]]), dict(m, history=hs[i]))
        if i % 97 == 0:
            c.sample({"commands": [x[:2] for x in m["commands"]], "schedule": m["schedule"], "won": won})
    c.cov["rule"] = "two or three commands on a repository from a Repo.tla behaviour, interleaved at the lock operations of the storage engine by schedules of Txn.tla (runs of length up to a whole command, up to 4 or unbounded switches, kills, starvation until the busy timeout); judged by History.tla; non-trivial: somebody waited or failed"
    c.assumptions = ["between two lock operations of one process nothing another process does matters (the storage engine shares nothing else)"]


vlib.main("C10", run)
