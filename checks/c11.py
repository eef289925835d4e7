"""C11: storing commands of Repo.tla behaviours run with each storage operation refused in turn, and with the repository
locked by other processes at each point; exit status and output judged against the effect the model says they have."""
import os, random, sqlite3, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine, faults, repo, sched, snap, vlib
from snap import Dump
from faults import args_of

STORING = ("commit", "insert", "committree", "refupdate", "reflogpush", "sethead", "init", "checkouthead")
SPILL = [random.Random(77).randbytes(5 << 20), random.Random(78).randbytes(3 << 20), b"small", b"x" * 40000]
MUST = ("write", "pwrite", "trunc", "sync")


def said_ok(r):
    return r.rc == 0 and not r.failed and not getattr(r, "refused", False)


def job(j):
    cli, shim, walk, seed, consts, pool, cap = j
    rng = random.Random(seed)
    bad, st = [], {"evaluations": 0, "distinct_nontrivial": 0, "lock_runs": 0, "refused": 0}
    with vlib.Scratch() as sc:
        k = dict(engine.DEF)
        k.update(consts)
        p = repo.Rep(sc, cli, rng, *[engine.SETS[k[x]] for x in ("Names", "Contents", "Refs", "Remotes", "Msgs")], contentpool=pool, initcmd=True)
        cand = {}
        for i, (a, o, d) in enumerate(walk):
            if o["ok"] and a["a"] in STORING:
                cand.setdefault(a["a"], []).append(i)
        pick = set()
        kinds = sorted(cand)
        rng.shuffle(kinds)
        for x in kinds[:3]:
            pick.add(rng.choice(cand[x]))
        for i, (a, o, d) in enumerate(walk):
            hist = [x for x, _, _ in walk[:i + 1]]
            if i not in pick:
                if any(t == "outcome" for t, _ in p.step(a, o, d)):
                    break
                continue
            dbdir = os.path.join(p.w.repo, ".snapcd")
            dirs = [p.w.repo, os.path.join(sc, 'cache')]
            before, after, ops, s, s2, ms = faults.clean_run(p, a, o, d, shim, dirs, "wrlt")
            if any(t == "outcome" for t, _ in ms):
                break
            # ---- every operation refused
            pts = []
            for n, rec in ops.items():
                pts += [(n, m) for m in ("5", "28", "5:sticky", "28:sticky")]
                if rec[1] in ("write", "pwrite"):
                    pts += [(n, "short")] * 2
            if len(pts) > cap:
                hot = [x for x in pts if ops[x[0]][1] in MUST or x[1] == "short"]
                pts = rng.sample(hot, min(len(hot), cap // 2))
                pts += rng.sample([(n, m) for n in ops for m in ("5", "5:sticky", "28")], cap - len(pts))
            for n, m in pts:
                r = faults.run_with(p, a, s, {"SHIM_FAIL": "%d:%s" % (n, m)}, shim, dirs, "wrlt")
                st["evaluations"] += 1
                rec = r.hit
                if rec is None:
                    continue
                rel = os.path.relpath(rec[5], dbdir)
                indb = not rel.startswith("..")
                indata = indb and rel != "."
                if said_ok(r):
                    dd = faults.dump_copy(p)
                    if not (dd == after):
                        bad.append((("refused", "%s reported success although %s of %s failed (%s) and its effect is missing: %s" % (a, rec[1], rel, m, repo.diff_dumps(after, dd))), hist, {"result": repr(r)}))
                        break
                    if rec[1] in MUST and indata and m != "2":
                        bad.append((("refused", "%s reported success although %s of %s failed (%s)" % (a, rec[1], rel, m)), hist, {"result": repr(r)}))
                        break
                else:
                    st["distinct_nontrivial"] += 1
                    st["refused"] += 1
                    if r.rc == 0 and not getattr(r, "refused", False):
                        bad.append((("status", "%s reported an error but exited with status 0 (%s of %s failed: %s)" % (a, rec[1], rel, m)), hist, {"result": repr(r)}))
                        break
                    if not r.out.strip() and not r.err.strip():
                        bad.append((("status", "%s failed without a word (%s of %s failed: %s)" % (a, rec[1], rel, m)), hist, {"result": repr(r)}))
                        break
            # ---- the repository locked by somebody else from each point on
            if a["a"] != "init" or os.path.exists(os.path.join(s[0], ".snapcd", "snapcd.db")):
                p.load(s)
                p.prev = before
                st0 = p.rng.getstate()
                args, ex = args_of(p, a)
                total = None
                for mode in ("shared", "reserved", "exclusive"):
                    steps = [0] + sorted(rng.sample(range(1, total), min(3, total - 1))) if total and total > 1 else [0, 1, 5, 9, 12]
                    for at in steps:
                        p.load(s)
                        S = sched.Sched(sc, p.w, shim, [dbdir])
                        con = None
                        got = False
                        try:
                            q = S.spawn("A", args, excl=ex)
                            n = 0
                            while not q.done:
                                if n >= at and not got:
                                    con = sqlite3.connect(p.w.dbfile, timeout=0, isolation_level=None)
                                    try:
                                        con.execute({"shared": "begin", "reserved": "begin immediate", "exclusive": "begin exclusive"}[mode])
                                        if mode == "shared":
                                            con.execute("select count(*) from data").fetchall()
                                        got = True
                                    except sqlite3.OperationalError:
                                        con.close()
                                        con = None
                                S.go(q)
                                n += 1
                                if n > 40000:
                                    raise vlib.ToolError("command does not end under a held lock: %s %s %s %s" % (a, mode, at, q.at))
                            total = total or n
                            r = q.r
                        finally:
                            if con is not None:
                                con.close()
                            S.close()
                        st["lock_runs"] += 1
                        st["evaluations"] += 1
                        st["distinct_nontrivial"] += got
                        r.refused = b"Cannot checkout" in r.out
                        dd = faults.dump_copy(p)
                        if said_ok(r) and not (dd == after):
                            bad.append((("lock", "%s reported success with the repository locked (%s) and its effect is missing: %s" % (a, mode, repo.diff_dumps(after, dd))), hist, {"at": at, "result": repr(r)}))
                            break
                        if r.failed and r.rc == 0:
                            bad.append((("status", "%s reported an error but exited with status 0 (repository locked: %s)" % (a, mode)), hist, {"at": at, "result": repr(r)}))
                            break
                        if r.failed and not (dd == before):
                            bad.append((("lock", "%s failed because of a lock (%s) and changed the repository: %s" % (a, mode, repo.diff_dumps(before, dd))), hist, {"at": at, "result": repr(r)}))
                            break
            faults.cleanup(p, s, s2, after)
    return bad, st


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    kw = dict(Acts="ACrash", Names="N2", Contents="C3", Refs="R2", Remotes="M1", WTs="WNone", MaxDepth=2, XSets="X0", MaxCommits=9, MaxLog=9, MaxRoots=4)
    jobs = []
    for num, depth, pool, cap in ((40 if q else 400, 14, None, 120 if q else 700), (4 if q else 30, 10, SPILL, 40 if q else 150)):
        r = engine.model_run(c, kw, simulate=num, depth=depth, seed=c.seed * 13 + depth)
        for i, b in enumerate(repo.behaviours(r.emitted)):
            jobs.append((cli, shim, [(e["a"], e["o"], e["d"]) for e in b], c.seed * 5003 + i, kw, pool, cap))
    for bad, st in vlib.pmap(job, jobs):
        c.traces(1)
        for k, v in st.items():
            c.count(k, v)
        for what, hist, extra in bad:
            c.violate("%s" % (what,), {"what": what, "behaviour": hist, **extra})
    c.cov["rule"] = "storing commands of Repo.tla behaviours; each file operation of the command on the repository, its directory, the cache and the working tree refused (EIO, ENOSPC, short write, from then on), and locks taken by another process at points of its run; non-trivial: the command failed or the lock was taken"
    c.assumptions = ["a directory sync, stat or close that fails may be ignored as long as the effect is recorded"]


vlib.main("C11", run, "fault_enumeration")
