"""C15: behaviours of HashCache.tla (edits that keep sizes, times or inodes, ticks of the clock, repositories sharing a cache,
repositories made again) run on real files; what each comparison says is the model's truth and what an empty cache gives."""
import os, random, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import snap, vlib

TICK = 3.05


def pool(rng):
    k = rng.randrange(6)
    if k == 0:
        return {1: b"a", 2: b"b", 3: b""}
    if k == 1:
        return {1: b"one\ntwo\n", 2: b"one\ntow\n", 3: b"one\n"}
    if k == 2:
        t = b"".join(b"%d line of text\n" % rng.randrange(10 ** 6) for _ in range(9000))
        return {1: t, 2: t[:70000] + bytes([t[70000] ^ 1]) + t[70001:], 3: t[:90000]}
    if k == 3:
        return {1: b"x" * 40000, 2: b"x" * 39999 + b"y", 3: b"x" * 32768}
    if k == 4:
        return {1: b"12", 2: b"21", 3: b"123"}
    return {1: b"b" * 65536, 2: b"a" + b"b" * 65535, 3: b"b" * 65537}


def job(j):
    cli, shim, beh, seed, mode, base, probe = j
    rng = random.Random(seed)
    st = {"queries": 0, "cold": 0, "edits": 0, "ticks": 0}
    hist, half = [], False
    with vlib.Scratch(base=base) as sc:
        wt = os.path.join(sc, "wt")
        w = snap.World(sc, cli, repo=wt)
        if mode:
            w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": wt, "SHIM_COARSE": str(mode), "SHIM_CLASS": ""}
        cont = pool(rng)
        names = dict(zip((1, 2), rng.choice([("f", "g"), ("a.txt", "d/b"), ("x/y/z", "x/z")])))
        path = {k: os.path.join(wt, n) for k, n in names.items()}
        for p in path.values():
            os.makedirs(os.path.dirname(p), exist_ok=True)
        dirs = sorted({os.path.dirname(n) for n in names.values()} - {""} | ({"x"} if "x/y/z" in names.values() else set()))
        cache = os.path.join(sc, "shared")
        db = {r: os.path.join(wt, ".r%s" % "ab"[r - 1]) for r in (1, 2)}
        ex = ["**/.r?", "**/.r?/**"]
        tree = {}

        def run(r, *a, cold=False):
            return w.run("-d", os.path.basename(db[r]), *a, excl=ex, cwd=wt, cache=None if cold else cache)
        for r in (1, 2):
            if run(r, "init").failed:
                return [("init failed", [])], st
            tree[r] = None
        if probe is None:       # edits are to fall within one unit of the clock
            probe, half = .1, rng.random() < .5
            time.sleep(2.02 - time.time() % 2)
        for s in beh:
            e = s["e"]
            k = e["a"]
            hist.append([k, e.get("f"), e.get("c")])
            if k == "start":
                continue
            if k == "tick":
                time.sleep(TICK)
                st["ticks"] += 1
                continue
            if k in ("write", "restored", "replaced", "deleted", "touched", "swapped"):
                p = path[e["f"]]
                st["edits"] += 1
                if k == "write":
                    with open(p, "wb") as f:
                        f.write(cont[e["c"]])
                elif k == "restored":
                    old = os.stat(p)
                    with open(p, "wb") as f:
                        f.write(cont[e["c"]])
                    os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
                elif k == "replaced":
                    old = os.stat(p)
                    with open(p + ".new", "wb") as f:
                        f.write(cont[e["c"]])
                    os.utime(p + ".new", ns=(old.st_atime_ns, old.st_mtime_ns))
                    if rng.random() < .3:
                        os.unlink(p)        # its inode may be used again
                    os.replace(p + ".new", p)
                elif k == "deleted":
                    os.unlink(p)
                elif k == "touched":
                    os.utime(p, ns=(10 ** 18, 10 ** 18))
                else:
                    q = path[e["c"]]
                    os.replace(p, p + ".tmp")
                    os.replace(q, p)
                    os.replace(p + ".tmp", q)
                continue
            r = e["f"]
            if half and k != "commit":      # a comparison later in the same unit
                half = False
                time.sleep(max(0, 1.05 - time.time() % 2))
            if k == "commit":
                x = run(r, "commit", "-m", "m%d" % len(hist))
                if x.failed:
                    return [("commit failed: %r" % x, hist)], st
                d = snap.Dump(os.path.join(db[r], "snapcd.db"))
                tree[r] = d.commit(d.reflog[-1][2])["tree"]
                continue
            if k == "recreate":
                shutil.rmtree(db[r])
                if run(r, "init").failed:
                    return [("init failed", hist)], st
                tree[r] = None
                continue
            # ---- a comparison
            st["queries"] += 1
            args = {"status": ["status"], "checkouthead": ["checkout-head", "master"]}.get(k)
            if args is None:
                args = ["compare"] + (["--stat"] if k == "stat" else []) + [snap.b3.user_key(tree[r])]
            cold = k == "stat" or rng.random() < probe
            if cold:
                keep = db[r] + ".keep"
                keep = os.path.join(sc, "keep")
                shutil.rmtree(keep, ignore_errors=True)
                shutil.copytree(db[r], keep)
            x = run(r, *args)
            bad = None
            want = {m: sorted(names[f] for f in v) for m, v in e["d"].items()}
            got = snap.parse_diff(x.text)
            g = {m: sorted(p for p in got[m] if p not in dirs) for m in want}
            none = k == "status" and tree[r] is None
            if x.failed:
                bad = "failed: %r" % x
            elif k == "checkouthead":
                # directories without an entry in the tree also make it unclean
                clean = x.out.startswith(b"Ok")
                if clean and any(want.values()):
                    bad = "switched although %s" % want
                if not clean and not any(want.values()) and tree[r] is not None:
                    bad = "refused a clean working tree: %r" % x
            elif k in ("status", "compare") and not none and g != want:
                bad = "reported %s, the files differ by %s" % (got, want)
            if cold and not bad:
                hot = os.path.join(sc, "hot")
                os.rename(db[r], hot)
                os.rename(keep, db[r])
                y = run(r, *args, cold=True)
                st["cold"] += 1
                shutil.rmtree(db[r])
                os.rename(hot, db[r])
                if (x.out, x.rc) != (y.out, y.rc):
                    bad = "said %r, with an empty cache %r" % (x.out[:300], y.out[:300])
            if bad:
                return [("%s of repository %d: %s" % (" ".join(args), r, bad), {"behaviour": hist, "contents": {i: "%r.. (%d bytes)" % (v[:12], len(v)) for i, v in cont.items()},
                         "names": names, "granularity": mode or "native", "commands": w.log[-10:]})], st
    return [], st


def run(c):
    cli, shim = vlib.build_cli(), vlib.build_shim()
    q = c.quick
    for k in ([{}] if q else [{}, {"Files": "{1}", "Repos": "{1, 2}", "MaxSteps": 8, "MaxNow": 3}, {"Contents": "{1, 2, 3}", "MaxSteps": 7}]):
        c.model(vlib.tlc("HashCache", constants=k, timeout=3000))
    # the shortest ways in which weaker designs go wrong, to be tried on the program
    rng = random.Random(c.seed)

    def weak(k):
        n = {"MaxSteps": 6 if k[0] in ("UseInode", "CheckStored") else 8, "Files": "{1, 2}" if k[0] == "UseInode" else "{1}", "Repos": "{1, 2}" if k[0] == "CheckStored" else "{1}"}
        r = vlib.tlc("HashCache", cfg="HashCacheBad", constants=dict(n, **{k[0]: k[1]}), workers=2)
        em = [e for e in r.emitted if e[-1]["commits"] > 0 and (e[-1]["a"] == "stat" or k[0] != "CheckStored")]
        if not em:
            raise vlib.ToolError("HashCache.tla does not depend on %s" % (k,))
        em.sort(key=len)
        m = 14 if q else 150
        return em[:m // 2] + [em[rng.randrange(len(em))] for _ in range(m // 2)]
    attacks = [[{"e": e} for e in b] for bs in vlib.pmap(weak, [("UseCtime", "FALSE"), ("UseInode", "FALSE"), ("Settle", '"off"'), ("Settle", '"mt"'), ("CheckStored", "FALSE")]) for b in bs]
    r = vlib.tlc("HashCache", cfg="HashCacheGen", constants={"Emit": "TRUE", "Repos": "{1, 2}", "Contents": "{1, 2, 3}", "Inodes": "{1, 2, 3, 4}", "MaxNow": 5, "MaxSteps": 26},
                 simulate=150 if q else 3000, depth=27, seed=c.seed * 19, workers=1)
    c.model(r)
    behs = []
    for e in r.emitted:
        if e["l"] == 1:
            behs.append([])
        behs[-1].append(e)
    modes = [0, 0, 1, 2]
    jobs = [(cli, shim, b, c.seed * 911 + i, modes[i % 4], "/tmp" if i % 3 == 0 else None, .3) for i, b in enumerate(behs)]
    res = vlib.pmap(job, jobs, workers=96, chunks=1)
    res += vlib.pmap(job, [(cli, shim, b, c.seed * 77 + i, (2, 2, 1)[i % 3], "/tmp" if i % 4 == 0 else None, None) for i, b in enumerate(attacks)], workers=24, chunks=1)
    c.count("attacks", len(attacks))
    for bad, st in res:
        c.traces(1)
        for k, v in st.items():
            c.count(k, v)
        for what, info in bad:
            c.violate(what, info)
    c.sample([[e["e"]["a"], e["e"].get("f"), e["e"].get("c")] for e in behs[0]])
    c.cov["rule"] = "comparisons through the shared cache after the edits of random behaviours, compared with the model's truth and with an empty cache"
    c.assumptions = ["the clock does not go backwards", "changing a file changes its change time, at a granularity of at most two seconds"]


vlib.main("C15", run)
