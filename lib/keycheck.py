"""C12 and C13: lookups of adversarial texts, done by the library and by the program, judged by KeyJudge.tla."""
import json, os, random, re, sqlite3, subprocess
import snap, vlib
from harness import Harness
from snap import b3

A = "abcdefghijklmnopqrstuvwxyz234567"
DIG = {c: i for i, c in enumerate(A)}
DIG.update({c.upper(): i for i, c in enumerate(A)})
TOP = 1 << 256


def digits_of(k):
    v = k << 4
    return [(v >> (5 * (51 - i))) & 31 for i in range(52)]


def dbkey(k):
    return b"\x01" + k.to_bytes(32, "big")


def concrete(case, rng):
    """(text, stored keys as numbers)"""
    n, s = case["n"], case["s"]
    d = [rng.randrange(32) for _ in range(n)]
    t = rng.randrange(1, max(2, n))
    if s == "zeros":
        d = [0] * n
    elif s == "ones":
        d = [31] * n
    elif s == "carry":
        d[n - t:] = [31] * min(t, n)
    elif s == "ends0":
        d[n - t:] = [0] * min(t, n)
    if n == 52:
        d[51] = 16 if d[51] & 16 else 0
    w = 260 - 5 * n
    v = 0
    for x in d:
        v = v << 5 | x
    lo = (v << w) >> 4
    hi = min((v + 1) << w, TOP << 4) >> 4 if n < 52 else lo + 1
    near = {"lo": lo, "below": lo - 1, "hi": hi, "above": hi - 1, "in": rng.randrange(lo, max(hi, lo + 1))}
    keys = {near[x] for x in case["p"]}
    keys |= {rng.randrange(TOP) for _ in range(rng.choice([0, 0, 1, 3]))}
    keys = [k for k in keys if 0 <= k < TOP]
    rng.shuffle(keys)
    q = "b" + "".join(A[x] for x in d)
    w = case["w"]
    if w == "upper":
        q = "b" + q[1:].upper()
    elif w == "mixed":
        q = "b" + "".join(c.upper() if rng.random() < .5 else c for c in q[1:])
    elif w == "bad":
        i = rng.randrange(1, len(q) + 1)
        q = q[:i] + rng.choice("0189-_!.=@[`{~\x7f") + q[i + (rng.random() < .7):]
    elif w == "type":
        q = rng.choice(["a", "c", "z", "1", "", "-b"]) + q[1:]
    elif w == "space":
        q = rng.choice([" " + q, q + " ", q + "\n", q[:1] + " " + q[1:], "\t" + q])
    elif w == "long":
        q = q + "".join(rng.choice(A) for _ in range(rng.choice([1, 1, 2, 4, 8, 60])))
    elif w == "tail":
        q = q[:-1] + A[rng.choice([x for x in range(32) if x % 16])] if n == 52 else q + "="
    elif w == "nonascii":
        i = rng.randrange(0, len(q) + 1)
        q = q[:i] + rng.choice("\u00e9\u212a\u017f\uff42\U0001d41b\u0131") + q[i + 1:]
    return q, keys


# which objects the keys belong to must not matter
TYPES = ["FileBlob", "Commit", "FSItemDir", "FSItemFile", "FileBlobTree"]
SOME = b"\x01" + bytes(range(32))
VALUES = [snap.enc_obj(b"data", [], "FileBlob"), snap.enc_obj(b"", [SOME], "FileBlobTree"),
          snap.enc_obj(b3.cbor_encode({"message": "m", "extra": {}}), [SOME], "Commit"),
          snap.enc_obj(b3.cbor_encode({"size": 1, "itemtype": "Dir", "children_names": ["a"]}), [SOME], "FSItemDir"),
          snap.enc_obj(b3.cbor_encode({"size": 4, "itemtype": "File", "children_names": []}), [SOME], "FSItemFile")]


def classify(ok, a):
    """how the program answered"""
    if ok:
        return "one"
    l = a.lower()
    return "many" if "ambiguous" in l else "none" if "not found" in l else \
        "invalid" if "invalid" in l or "unknown format" in l or "no key" in l else "unclear: " + a[:120]


def record(q, keys, out, got):
    return {"typed": q[:1] == "b", "q": [DIG.get(c, 99) for c in q[1:]], "store": [digits_of(k) for k in keys], "out": out,
            "got": digits_of(got) if got is not None else []}


def lib_job(j):
    binp, cases, seed = j
    rng = random.Random(seed)
    recs, meta = [], []
    with vlib.Scratch() as sc:
        db = os.path.join(sc, "db")
        h = Harness(binp)
        h.ask("x", "open", db)
        h.ask("x", "close")
        con = sqlite3.connect(db, isolation_level=None)
        con.execute("pragma synchronous=off")
        h.ask("x", "open", db)
        for case in cases:
            q, keys = concrete(case, rng)
            con.execute("begin")
            con.execute("delete from data")
            con.executemany("insert into data values (?, ?)", [(dbkey(k), rng.choice(VALUES)) for k in keys])
            con.execute("commit")
            try:
                ok, a = h.ask("x", "resolve", q)
            except EOFError as e:
                ok, a = False, "died: %s" % e
                h = Harness(binp)
                h.ask("x", "open", db)
            got = None
            out = classify(ok, a)
            if ok:
                got = int.from_bytes(bytes.fromhex(a.split(" ")[0])[1:], "big")
                if a.split(" ")[1] != b3.user_key(dbkey(got)):
                    out = "printed form %s" % a.split(" ")[1]
            recs.append(record(q, keys, out, got))
            meta.append({"text": q, "stored": [b3.user_key(dbkey(k)) for k in keys], "answer": a, "case": case, "via": "library"})
        con.close()
        h.kill()
    return recs, meta


def cli_job(j):
    cli, cases, seed = j
    rng = random.Random(seed)
    recs, meta = [], []
    with vlib.Scratch() as sc:
        w = snap.World(sc, cli)
        w.run("init")
        w.noise = False         # what is said is what is looked at
        for case in cases:
            q, keys = concrete(case, rng)
            if "\0" in q:
                continue
            con = sqlite3.connect(w.dbfile, isolation_level=None)
            con.execute("begin")
            con.execute("delete from data")
            con.execute("delete from reflog")
            tag = {}
            for i, k in enumerate(keys):
                tag["%08x" % (i + 0x77000000)] = k
                con.execute("insert into data values (?, ?)", (dbkey(k), snap.enc_obj(bytes.fromhex("%08x" % (i + 0x77000000)), [], rng.choice(TYPES))))
            con.execute("commit")
            con.close()
            r = w.run("debug", "pretty-print", "--", q) if q[:1] == "-" else w.run("debug", "pretty-print", q)
            got = None
            m = re.search(r"^(77[0-9a-f]{6})$", r.text, re.M)
            if not r.failed and m and m.group(1) in tag:
                out, got = "one", tag[m.group(1)]
            else:
                out = classify(False, r.text + r.err.decode(errors="replace").replace("failed to open terminal for logging", "")) if r.failed else "unclear success"
                if "unclear" not in out and r.rc == 0:
                    out = "exit status 0 for " + out
            recs.append(record(q, keys, out, got))
            meta.append({"text": q, "stored": [b3.user_key(dbkey(k)) for k in keys], "answer": repr(r), "case": case, "via": "debug pretty-print"})
    return recs, meta


def run(c, keep, ncli, reps=1):
    cli, binp = vlib.build_cli(), vlib.try_harness(c)
    q = c.quick
    for k in ([{"KeyBits": 7, "CharBits": 2, "ByteBits": 3}] if q else
              [{"KeyBits": 7, "CharBits": 2, "ByteBits": 3}, {}, {"KeyBits": 9, "CharBits": 2, "ByteBits": 3}, {"KeyBits": 8, "CharBits": 5, "ByteBits": 8}]):
        c.model(vlib.tlc("KeyText", constants=k, timeout=2000))
    r = vlib.tlc("KeyCases")
    c.model(r)
    cases = [dict(x, p=sorted(x["p"])) for x in r.emitted if keep(x)]
    rng = random.Random(c.seed * 41)
    rng.shuffle(cases)
    rep = reps * (1 if q else 12)
    jobs = [(binp, p, c.seed * 71 + i) for i, p in enumerate(vlib.split(cases * rep, 8 * rep))] if binp else []
    res = vlib.pmap(lib_job, jobs)
    cc = cases[:ncli if binp else ncli * 3] if q else cases * 2
    res += vlib.pmap(cli_job, [(cli, p, c.seed * 73 + i) for i, p in enumerate(vlib.split(cc, 8))])

    def judge(x):
        recs, _ = x
        r = vlib.tlc("KeyJudge", extra_files={"lookups.json": json.dumps(recs)}, workers=1, heap="2g")
        return r
    for (recs, meta), r in zip(res, vlib.pmap(judge, res)):
        c.model(r)
        if not any(e["i"] == 0 for e in r.emitted):
            raise vlib.ToolError("judge did not finish")
        c.count("evaluations", len(recs))
        c.count("distinct_nontrivial", sum(1 for x in recs if x["out"] != "none"))
        c.count("resolved", sum(1 for x in recs if x["out"] == "one"))
        c.count("ambiguous", sum(1 for x in recs if x["out"] == "many"))
        c.count("invalid", sum(1 for x in recs if x["out"] == "invalid"))
        c.traces(len(recs))
        for e in r.emitted:
            if e["i"]:
                m = meta[e["i"] - 1]
                c.violate("%s: %r answered %s, expected %s" % (m["via"], m["text"], recs[e["i"] - 1]["out"], e["want"]["r"]), {"lookup": m, "want": e["want"]})
        if meta:
            c.sample(meta[0])
    c.cov["rule"] = "case classes of KeyCases.tla (length, ending, which neighbours of the range are stored, spelling), concretised at random; answers judged by KeyText.tla; non-trivial: not simply absent"
