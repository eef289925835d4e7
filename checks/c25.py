"""C25: operation sequences generated from StoreApi.tla run on real connections (one process each, or all in one);
what happened is checked against the specification by StoreTrace.tla."""
import json, os, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from vlib import ToolError
from harness import Harness

H = {"h1": "master", "h2": "h\u00e9ad two", "r1": "master", "r2": "R 2'", "o1": "origin"}
KS = ("k1", "k2", "k3", "big")


def job(j):
    binp, shim, ops, seed, single = j
    rng = random.Random(seed)
    ev, stats = [], {"busy": 0}
    with vlib.Scratch() as sc:
        db = os.path.join(sc, "db")
        data = {"k1": b"one %d" % seed, "k2": b"", "k3": rng.randbytes(20000), "big": None}
        big = "@%d:%d" % (rng.choice([2600000, 5000000]), seed % 1000 + 1)
        hs = {}
        env = {"LD_PRELOAD": shim, "SHIM_DIRS": sc, "SHIM_CLASS": "", "SHIM_NOSLEEP": "1"}
        key = {}
        first = Harness(binp, env)              # the keys, from a store of its own
        first.ask("x", "open", os.path.join(sc, "other"))
        for k in KS:
            key[k] = first.ask("x", "put", raw=[big if k == "big" else data[k].hex()])[1]
        first.ask("x", "get", raw=[key["big"], os.path.join(sc, "out").encode().hex()])
        data["big"] = open(os.path.join(sc, "out"), "rb").read()
        first.stop()
        back = {v: k for k, v in key.items()}
        other = {k: b"other " + k.encode() for k in KS}
        box = [Harness(binp, env)] if single else [None]

        def proc(c):
            if single:
                return box[0]
            if c not in hs:
                hs[c] = Harness(binp, env)
            return hs[c]
        st = {}

        def do(c, o):
            k = o["o"]
            s = st.get(c, "closed")
            if (k == "open") != (s == "closed") or (k == "begin" and s != "idle") or (k in ("commit", "rollback") and s != "open"):
                return
            e = {"c": c, "o": o, "out": "ok", "ans": "none", "set": []}
            if k == "kill":
                if single:
                    e["o"] = dict(o, o="close")
                    box[0].ask(c, "close")
                else:
                    hs.pop(c).kill()
                st[c] = "closed"
                ev.append(e)
                return
            p = proc(c)
            try:
                talk(p, c, o, k, s, e)
            except EOFError:
                dead = [d for d in ("A", "B", "D") if proc(d) is p and st.get(d, "closed") != "closed"] if single else [c]
                e["out"], e["set"] = "died", dead
                for d in dead:
                    st[d] = "closed"
                p.kill()
                if single:
                    box[0] = Harness(binp, env)
                else:
                    hs.pop(c)
                ev.append(e)

        def talk(p, c, o, k, s, e):
            rm = "-" if o["m"] == "" else "+" + H.get(o["m"], "").encode().hex()
            rf = H.get(o["r"], "").encode().hex()
            out = os.path.join(sc, "out")
            if k == "open":
                ok, a = p.ask(c, "open", db)
            elif k == "put":
                ok, a = p.ask(c, "put", raw=[big if o["k"] == "big" else data[o["k"]].hex()]) if o["v"] == "own" else \
                    p.ask(c, "rawput", raw=[key[o["k"]], other[o["k"]].hex()])
                if ok and o["v"] == "own" and a != key[o["k"]]:
                    e["out"] = "wrong key"
            elif k == "get":
                ok, a = p.ask(c, "get", raw=[key[o["k"]], out.encode().hex()])
                if ok:
                    b = open(out, "rb").read()
                    a = "own" if b == data[o["k"]] else "other" if b == other[o["k"]] else "garbage"
                elif "QueryReturnedNoRows" in a:
                    ok, a = True, "absent"
            elif k == "exists":
                ok, a = p.ask(c, "exists", raw=[key[o["k"]]])
                a = {"true": "yes", "false": "no"}.get(a, a) if ok else a
            elif k == "list":
                ok, a = p.ask(c, "between", raw=["00", "-"])
                if ok:
                    e["set"] = [back.get(x, "unknown " + x) for x in a.split(",") if x]
            elif k == "gethead":
                ok, a = p.ask(c, "gethead")
                if ok and a != "none":
                    n = bytes.fromhex(a[1:]).decode()
                    a = next((h for h in ("h1", "h2") if H[h] == n), "unknown " + n)
            elif k == "head":
                ok, a = p.ask(c, "sethead", raw=[H[o["h"]].encode().hex()])
            elif k == "push":
                ok, a = p.ask(c, "push", raw=[rf, rm, key[o["k"]]])
            elif k == "refget":
                ok, a = p.ask(c, "refget", raw=[rf, rm])
                if ok:
                    a = back.get(a, "unknown " + a)
                elif a.startswith("NotFound"):
                    ok, a = True, "absent"
            elif k == "refwalk":
                ok, a = p.ask(c, "refwalk", raw=[rf, rm])
                if ok:
                    e["set"] = [back.get(x, "unknown " + x) for x in a.split(",") if x]
            else:
                ok, a = p.ask(c, k)
            if ok:
                st[c] = {"open": "idle", "begin": "open", "commit": "idle", "rollback": "idle", "close": "closed"}.get(k, s)
                if k in ("get", "exists", "gethead", "refget"):
                    e["ans"] = a
            elif "locked" in a.lower() or "busy" in a.lower():
                e["out"] = "busy"
                stats["busy"] += 1
            else:
                e["out"] = "error " + a[:200]
            ev.append(e)
        blank = {"o": "", "k": "", "v": "", "h": "", "r": "", "m": ""}
        for c in ("A", "B", "D"):
            do(c, dict(blank, o="open"))
        for x in ops:
            do(x["c"], x["o"])
        for c in ("A", "B", "D"):
            if st.get(c) != "closed":
                do(c, dict(blank, o="kill"))
        do("A", dict(blank, o="open"))
        do("A", dict(blank, o="list"))
        for k in KS:
            do("A", dict(blank, o="get", k=k))
        do("A", dict(blank, o="gethead"))
        for r in ("r1", "r2"):
            for m in ("", "o1"):
                do("A", dict(blank, o="refwalk", r=r, m=m))
        for h in list(hs.values()) + ([box[0]] if single else []):
            h.kill()
    return ev, stats


def run(c):
    binp, shim = vlib.build_harness(), vlib.build_shim()
    q = c.quick
    c.model(vlib.tlc("StoreApi"))
    if not q:
        c.model(vlib.tlc("StoreApi", constants={"K": '{"k1", "k2"}', "MaxWrites": 2, "MaxLog": 2, "Rems": '{"", "o1"}'}, heap="16g", timeout=3000))
    r = vlib.tlc("StoreApi", cfg="StoreGen", simulate=700 if q else 12000, depth=44, seed=c.seed, workers=1)
    c.model(r)
    res = vlib.pmap(job, [(binp, shim, b, c.seed * 100003 + i, i % 3 == 2) for i, b in enumerate(r.emitted)], chunks=4)
    traces = [ev for ev, _ in res]
    parts = vlib.split(list(range(len(traces))), 8)

    def judge(idx):
        r = vlib.tlc("StoreTrace", extra_files={"traces.json": json.dumps([traces[i] for i in idx])}, workers=1, heap="3g")
        return r, [(idx[e["t"] - 1], e["ok"], e["k"]) for e in r.emitted]
    seen = {}
    for r, v in vlib.pmap(judge, parts):
        c.model(r)
        for i, ok, k in v:
            seen[i] = (ok, k)
    if len(seen) != len(traces):
        raise ToolError("trace check incomplete: %d of %d" % (len(seen), len(traces)))
    for i, (ok, k) in sorted(seen.items()):
        c.traces(1)
        c.count("evaluations", len(traces[i]))
        c.count("busy", res[i][1]["busy"])
        c.count("distinct_nontrivial", sum(1 for e in traces[i] if e["o"]["o"] in ("commit", "rollback", "kill", "close")))
        if not ok:
            c.violate("event %d is no step of the specification: %s" % (k, traces[i][k - 1]), {"events": traces[i][:k]})
    c.sample(traces[0][:12])
    c.cov["rule"] = "operation sequences of three connections from StoreApi.tla (weighted random), two thirds with one process per connection, processes killed; every recorded operation and answer must be a step of StoreTrace.tla; non-trivial: a transaction ended"
    c.assumptions = ["an operation may be refused as busy while another connection is in a transaction (in any part of it)"]


vlib.main("C25", run)
