"""Repositories written without the program: a state of Repo.tla in the stored form Format.tla describes."""
import functools, os, sqlite3
import b3, gear, snap


@functools.lru_cache(maxsize=400)
def chunks(data):
    """nested lists of byte strings: how a file's content is divided (Chunker.tla, byte for byte)"""
    BLOCK, MAXC, ZERO = 65536, 32768, 13
    bufs = [[] for _ in range(5)]
    cur = b""
    h, M = 0, (1 << 64) - 1
    pos = 0
    while pos < len(data):
        buf = data[pos:pos + BLOCK]
        pos += len(buf)
        while buf:
            m = None
            for i, x in enumerate(buf):
                h = ((h << 1) + gear.G[x]) & M
                if h >> (64 - ZERO) == 0:
                    m = i + 1
                    break
            if len(buf) > MAXC:
                m = MAXC
            if m is None:
                cur += buf
                break
            cur += buf[:m]
            buf = buf[m:]
            zeros = 64 - h.bit_length()
            if len(cur) >= MAXC:
                bufs[0].append(cur)
                cur = b""
                for o in range(4):
                    if zeros > ZERO + (o + 1) * 7 or len(bufs[o]) >= 512:
                        bufs[o + 1].append(bufs[o])
                        bufs[o] = []
                    else:
                        break
    if not any(bufs):
        return cur
    if cur:
        bufs[0].append(cur)
    for o in range(4):
        if len(bufs[o]) == 1 and not any(bufs[o + 1:]):
            return bufs[o][0]
        bufs[o + 1].append(bufs[o])
    return bufs[4]


def other_shape(data, rng):
    """the same content divided in another way (lists of chunks and lists mixed)"""
    n = rng.choice([1, 2, 3, 6])
    cut = sorted(rng.randrange(len(data) + 1) for _ in range(n - 1))
    parts = [data[a:b] for a, b in zip([0] + cut, cut + [len(data)])]
    out = [p if rng.random() < .6 else (other_shape(p, rng) if len(p) > 1 and rng.random() < .5 else [p]) for p in parts]
    return out if len(out) > 1 or rng.random() < .3 else out[0]


class Writer:
    """form: "same" as this version writes, "old" (directory entries in any order, more attributes), "shape" (other chunks too)"""

    def __init__(self, rng, form):
        self.rng, self.form, self.objs, self.shapes = rng, form, {}, {}

    @staticmethod
    @functools.lru_cache(maxsize=20000)
    def hash(raw):
        return b3.blake3(raw)

    def put(self, data, keys, typ):
        raw = snap.enc_obj(data, keys, typ)
        k = b"\x01" + self.hash(raw)
        self.objs[k] = raw
        return k

    def data(self, x):
        if isinstance(x, bytes):
            return self.put(x, [], "FileBlob")
        return self.put(b"", [self.data(y) for y in x], "FileBlobTree")

    def file(self, b):
        if b not in self.shapes:            # one content is always divided in one way
            self.shapes[b] = other_shape(b, self.rng) if self.form == "shape" else chunks(b)
        k = self.data(self.shapes[b])
        return self.put(b3.cbor_encode({"size": len(b), "itemtype": "File", "children_names": []}), [k], "FSItemFile")

    def tree(self, rows):
        """rows: {path: 'D' | bytes}"""
        if "" in rows and rows[""] != "D":
            return self.file(rows[""])
        kids = {}
        for p, c in rows.items():
            if p:
                kids.setdefault(p.split("/")[0], {})["/".join(p.split("/")[1:])] = c
        names = sorted(kids, key=os.fsencode)
        if self.form != "same":
            self.rng.shuffle(names)
        ks = [self.tree(kids[n]) for n in names]
        return self.put(b3.cbor_encode({"size": len(names), "itemtype": "Dir", "children_names": names}), ks, "FSItemDir")

    def commit(self, tree, par, msg):
        par = sorted(par) if self.form == "same" else self.rng.sample(par, len(par))
        extra = {} if self.form == "same" or self.rng.random() < .5 else {"author": "someone", "n": 7, "list": [1, "x", None], "map": {"a": b"\x00"}}
        return self.put(b3.cbor_encode({"message": msg, "extra": extra}), [tree] + par, "Commit")


def build(p, d, form):
    """give the Rep p the repository of the model state d"""
    import repo
    w = Writer(p.rng, form)
    p.treekeys, p.roots, p.commits = {}, [], []

    def tree(t, f):
        c = repo.canon([sorted(t), f])
        if c not in p.treekeys:
            p.treekeys[c] = w.tree(p.c.tree(t))
        return p.treekeys[c]
    for t, f in zip(d["rt"], d["rf"]):
        p.roots.append(tree(t, f))
    for m in d["cm"]:
        p.commits.append(w.commit(tree(m["t"], m["f"]), [p.commits[i - 1] for i in m["par"]], p.msg[m["msg"]]))
    if len(set(p.commits)) != len(p.commits):
        raise ValueError("commits alike")
    os.makedirs(os.path.dirname(p.w.dbfile))
    # objects of a kind this version does not know
    w.strange = []
    for i in range(p.rng.randrange(3) if form != "same" else 0):
        w.strange.append(w.put(b3.cbor_encode({"what": i, "name": "v1"}) if p.rng.random() < .5 else p.rng.randbytes(i * 30),
                               p.rng.sample(sorted(w.objs), min(len(w.objs), p.rng.randrange(3))), p.rng.choice(["Tag", "FSItemLink", "commit", "Commit2", ""])))
    con = sqlite3.connect(p.w.dbfile, isolation_level=None)
    con.execute("pragma synchronous=0")
    con.execute("pragma page_size=%d" % (16384 if form == "same" else p.rng.choice([4096, 1024, 16384, 65536])))
    con.execute("pragma journal_mode=%s" % (p.rng.choice(["truncate", "delete"])))
    con.execute("begin")
    con.execute("CREATE TABLE IF NOT EXISTS data (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID")
    con.execute("CREATE TABLE IF NOT EXISTS state (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID")
    con.execute("CREATE TABLE IF NOT EXISTS reflog (id INTEGER PRIMARY KEY, refname TEXT NOT NULL, remote TEXT, key BLOB)")
    con.executemany("insert into data values (?, ?)", p.rng.sample(sorted(w.objs.items()), len(w.objs)))
    logs = {(r, m): list(ids) for r, m, ids in d["lg"]}
    n = 0
    while any(logs.values()):
        s = p.rng.choice([x for x in sorted(logs) if logs[x]])
        n += 1 if form == "same" else p.rng.choice([1, 2, 1000])
        con.execute("insert into reflog values (?, ?, ?, ?)", (n, p.ref[s[0]], p.remname(s[1]), p.commits[logs[s].pop(0) - 1]))
    if d["hd"] != "none":
        con.execute("insert into state values (?, ?)", (b"HEAD", p.ref[d["hd"]].encode()))
    con.execute("commit")
    con.close()
    p.write_wt(d["wt"])
    p.prev = p.w.dump()
    return w


def records(dump, path):
    """what is in a database, for Format.tla"""
    out = []
    for k, raw in sorted(dump.objs.items()):
        o = snap.Obj(raw)
        kind = {"FSItemDir": "dir", "FSItemFile": "file", "Commit": "commit", "FileBlob": "blob", "FileBlobTree": "list"}[o.type]
        n = len(o.data)
        i = 7 if n < 24 else 8 if n < 256 else 9 if n < 65536 else 11       # where the data is, if the form is right
        r = {"kind": kind, "n": len(o.data), "keys": [list(x[1:]) for x in o.keys], "key": list(k), "hash": list(Writer.hash(raw)), "data": []}
        r["before"], r["after"] = list(raw[:i]), list(raw[i + n:])
        if raw[i:i + n] != o.data:
            r["before"] = []
        if kind in ("dir", "file", "commit"):
            m = o.meta()
            r["data"] = list(o.data)
            if kind == "dir":
                r["names"] = [list(os.fsencode(x)) for x in m["children_names"]]
            elif kind == "file":
                r["size"] = m["size"]
            else:
                r["msg"] = list(m["message"].encode())
        out.append(r)
    con = sqlite3.connect(path, timeout=20)
    for a, b, c, k in con.execute("select typeof(refname), typeof(remote), typeof(key), key from reflog"):
        out.append({"kind": "ref", "cols": [a, b, c], "key": list(k)})
    for a, b, k, v in con.execute("select typeof(key), typeof(value), key, value from state"):
        enc = lambda x: list(x.encode() if isinstance(x, str) else x)
        out.append({"kind": "head", "cols": [a, b], "name": enc(k), "value": enc(v), "want": list((dump.head or "").encode())})
    con.close()
    return out
