"""C09: behaviours of Repo.tla run on the program with every file operation recorded; Disk.tla gives, for every
crash point of the recorded trace, the states a power loss (or kill) can leave; each is rebuilt, opened
and compared with the states before and after the interrupted command.  Journal.tla is the protocol's design."""
import os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, repo, shimlib, snap, vlib
from snap import Dump

BIG = [bytes(random.Random(i).getrandbits(8) for _ in range(1 << 16)) * 4 for i in range(2)]
SPILL = [random.Random(77).randbytes(5 << 20), random.Random(78).randbytes(3 << 20), b"small", b"x" * 40000]


def reader(dbfile):
    """another process which has the repository open, and does nothing with it"""
    p = subprocess.Popen([sys.executable, "-c", "import sqlite3, sys\nc = sqlite3.connect(sys.argv[1])\nc.execute('select count(*) from data').fetchall()\n"
                          "print(1, flush=True)\nsys.stdin.read()", dbfile], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    p.stdout.readline()
    return p


def record(cli, shim, walk, seed, consts, sc, pool):
    """run a behaviour with the operations recorded; returns (rep, trace, states, expectations)"""
    rng = random.Random(seed)
    log = os.path.join(sc, "ops.log")
    k = dict(engine.DEF)
    k.update(consts)
    p = repo.Rep(sc, cli, rng, engine.SETS[k["Names"]], engine.SETS[k["Contents"]], engine.SETS[k["Refs"]],
                 engine.SETS[k["Remotes"]], engine.SETS[k["Msgs"]], initcmd=True, contentpool=pool)
    dbdir = os.path.join(p.w.repo, ".snapcd")
    p.w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": dbdir, "SHIM_LOG": log, "SHIM_CLASS": "w"}
    p.w.copydump = True
    tr = shimlib.Trace(dbdir)
    end = 0
    states = [Dump(p.w.dbfile)]
    exp = []                      # (op index up to which this holds, allowed state numbers, command)
    cmds = []
    watch, other = rng.random() < .4, None
    for a, o, d in walk:
        if watch and other is None and os.path.exists(p.w.dbfile):
            other = reader(p.w.dbfile)
        ms = p.step(a, o, d)
        if any(t == "outcome" for t, _ in ms):
            raise vlib.ToolError("behaviour does not run: %s" % ms)
        if a["a"] in ("edit", "start"):
            continue
        recs, end = shimlib.parse(log, end)
        tr.add(recs)
        states.append(p.prev)
        exp.append((len(tr.ops), (len(states) - 2, len(states) - 1), a))
        tr.mark(a["a"])
        exp.append((len(tr.ops), (len(states) - 1,), a))
        cmds.append(a)
    if other:
        other.communicate()
    p.w.extra = {}
    return p, tr, states, exp


def allowed(exp, i):
    for upto, ok, a in exp:
        if i <= upto:
            return ok, a
    return exp[-1][1], exp[-1][2]


def judge(cli, sc, dbdir, states, ok):
    """open what is left and compare with the allowed states"""
    if not os.path.isdir(dbdir):             # not even created yet
        e = Dump("/nonexistent")
        return None if any(states[j] == e for j in ok) else "is gone"
    w = snap.World(os.path.join(sc, "w"), cli, repo=os.path.dirname(dbdir))
    r = w.run("debug", "get-head")
    if r.failed:
        return "does not open: %r" % r
    try:
        d = Dump(os.path.join(dbdir, "snapcd.db"))
    except Exception as e:
        return "unreadable: %r" % e
    if not any(d == states[j] for j in ok):
        return "is none of the states %s: %s" % (list(ok), [repo.diff_dumps(states[j], d) for j in ok])
    return None


def one(job):
    cli, shim, walk, seed, consts, pool, cap = job
    bad, stats = [], {"images": 0, "crash_points": 0, "commands": 0, "kills": 0, "lost": 0}
    rng = random.Random(seed)
    with vlib.Scratch() as sc:
        p, tr, states, exp = record(cli, shim, walk, seed, consts, sc, pool)
        stats["commands"] = len(states) - 1
        n = len(tr.ops)
        at = ()
        if n > 220:
            at = set(rng.sample(range(1, n + 1), 80 if n > 600 else 150)) | {x for u, _, _ in exp for x in (u - 1, u) if x > 0}
        ims = tr.images(None, at)
        stats["model_states"] = len({i for i, _ in ims})
        stats["crash_points"] = len({i for i, _ in ims})
        # same surviving operations with the same expectation: one image
        seen, todo = set(), []
        for i, im in ims:
            ok, a = allowed(exp, i)
            pos = tr._upto(i)
            f = im["f"]
            sig = (ok, repr(im["e"]), tuple(tuple(w for w in tr.order[x + 1] if pos[w] <= i and w not in f[x]["d"]) for x in range(len(f))) if isinstance(f, list) else repr(f),
                   tuple(y["t"] for y in f) if isinstance(f, list) else 0)
            if sig not in seen:
                seen.add(sig)
                todo.append((i, im, ok, a))
        stats["distinct_images"] = len(todo)
        if len(todo) > cap:
            ends = [x for x in todo if len(x[2]) == 1]
            rest = [x for x in todo if len(x[2]) != 1]
            if len(ends) > cap // 4:
                ends = rng.sample(ends, cap // 4)
            todo = ends + rng.sample(rest, min(len(rest), cap - len(ends)))
        for i, im, ok, a in todo:
            img = os.path.join(sc, "img")
            tr.write(i, im, os.path.join(img, ".snapcd"))
            stats["images"] += 1
            stats["lost"] += any(x["d"] or x["t"] for x in im["f"]) if isinstance(im["f"], list) else 0
            m = judge(cli, sc, os.path.join(img, ".snapcd"), states, ok)
            if m:
                bad.append((("crash", "after operation %d of %d (%s): repository %s" % (i, n, a, m)), [x for x, _, _ in walk], {"image": im, "op": i,
                            "last_ops": [{k: v for k, v in o.items()} for o in tr.ops[max(0, i - 12):i]]}))
                if len(bad) > 3:
                    break
    return bad, stats


def kills(job):
    """real kills: a command of the behaviour is killed at each of its write operations (before, half way, after)"""
    cli, shim, walk, seed, consts, pool, cap = job
    rng = random.Random(seed)
    bad, n = [], 0
    with vlib.Scratch() as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, engine.SETS[k["Names"]], engine.SETS[k["Contents"]], engine.SETS[k["Refs"]],
                     engine.SETS[k["Remotes"]], engine.SETS[k["Msgs"]], initcmd=True, contentpool=pool)
        cand = [j for j, (a, o, d) in enumerate(walk) if a["a"] in ("commit", "insert", "refupdate", "reflogpush", "sethead", "init", "committree") and o["ok"]]
        if not cand:
            return [], {"kills": 0}
        pick = set(rng.sample(cand, min(2, len(cand))))
        for j, (a, o, d) in enumerate(walk):
            if j in pick:
                sv = os.path.join(sc, "save%d" % j)
                s = p.save(sv)
                before = p.prev
                log = os.path.join(sc, "log%d" % j)
                dbdir = os.path.join(p.w.repo, ".snapcd")
                p.w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": dbdir, "SHIM_LOG": log, "SHIM_CLASS": "w"}
                ms = p.step(a, o, d)
                if any(t == "outcome" for t, _ in ms):
                    raise vlib.ToolError("behaviour does not run: %s" % ms)
                after = p.prev
                s2 = p.save(os.path.join(sc, "after%d" % j))
                wt = snap.read_tree(p.w.repo, skip=(".snapcd",))
                recs, _ = shimlib.parse(log)
                total = max([r[0] for r in recs] or [0])
                pts = [(x, m) for x in range(1, total + 1) for m in ("before", "half", "after")]
                if len(pts) > cap:
                    pts = rng.sample(pts, cap)
                for x, m in pts:
                    p.load(s)
                    p.w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": dbdir, "SHIM_CLASS": "w", "SHIM_KILL": "%d:%s" % (x, m)}
                    r = p.do(a)
                    p.w.extra = {}
                    n += 1
                    if r.rc == 0:
                        continue
                    if snap.read_tree(p.w.repo, skip=(".snapcd",)) != wt:
                        bad.append((("kill", "working tree changed by a killed %s" % a), [z for z, _, _ in walk[:j + 1]], {"at": (x, m)}))
                        continue
                    g = judge(cli, sc, dbdir, [before, after], (0, 1))
                    if g:
                        bad.append((("kill", "%s killed %s operation %d: repository %s" % (a, m, x, g)), [z for z, _, _ in walk[:j + 1]], {"at": (x, m)}))
                    elif after == before:
                        pass
                    else:
                        # the command can be run again
                        mid = Dump(p.w.dbfile)
                        r = p.do(a)
                        if r.failed:
                            bad.append((("kill", "%s fails after having been killed %s operation %d: %r" % (a, m, x, r)), [z for z, _, _ in walk[:j + 1]], {"at": (x, m)}))
                p.load(s2)
                p.prev = after
            else:
                ms = p.step(a, o, d)
                if any(t == "outcome" for t, _ in ms):
                    raise vlib.ToolError("behaviour does not run: %s" % ms)
    return bad, {"kills": n}


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    c.model(vlib.tlc("Journal", constants={} if q else {"Vals": "{v0, v1, v2}", "MaxTx": 3}))
    if not q:
        for k in ("SyncHeader", "SyncDb", "SyncCommit", "SyncDir"):
            if not vlib.tlc("Journal", constants={k: "FALSE"}, expect_violation=True).violated:
                raise vlib.ToolError("Journal.tla does not depend on " + k)
    jobs, kjobs = [], []
    kw = dict(Acts="ACrash", Names="N2", Contents="C3", Refs="R2", Remotes="M1", WTs="WNone", MaxDepth=2, XSets="X0", MaxCommits=9, MaxLog=9, MaxRoots=4)
    for consts, num, depth, pool, cap, kcap in ((kw, 32 if q else 200, 14, None, 160 if q else 1500, 12 if q else 60),
                                          (kw, 4 if q else 24, 10, SPILL, 120 if q else 1200, 12 if q else 60)):
        r = engine.model_run(c, consts, simulate=num, depth=depth, seed=c.seed * 31 + depth)
        ws = [[(e["a"], e["o"], e["d"]) for e in b] for b in repo.behaviours(r.emitted)]
        for i, w in enumerate(ws):
            jobs.append((cli, shim, w, c.seed * 7919 + i, consts, pool, cap))
            if i < (16 if q else 200):
                kjobs.append((cli, shim, w, c.seed * 6007 + i, consts, pool, kcap))
    for f, js in ((one, jobs), (kills, kjobs)):
        for bad, stats in vlib.pmap(f, js):
            c.traces(1)
            for k, v in stats.items():
                c.count(k, v)
            for what, beh, extra in bad:
                c.violate(what, {"what": what, "behaviour": beh, **extra})
    c.cov["evaluations"] = c.cov.get("images", 0) + c.cov.get("kills", 0)
    c.cov["distinct_nontrivial"] = c.cov.get("lost", 0)
    c.cov["rule"] = "behaviours of Repo.tla; every crash image Disk.tla derives from the recorded operations (sampled above a cap), plus real kills; non-trivial: an operation was lost or torn"
    c.sample({"behaviour": [a for a, _, _ in jobs[0][2]]})
    c.assumptions = ["a file system keeps, after power loss, any subset of the writes and directory changes not yet synced, one of them possibly in part",
                     "the directory .snapcd itself, once created, is not lost"]


vlib.main("C09", run, "fault_enumeration")
