"""Concrete causes for the failing commands of Repo.tla (label [a |-> "fail", kind, cmd])."""
import os, socket, stat, subprocess
import snap


def put_bad(rep, kind):
    """put something into the working tree that can not be stored; returns an undo function"""
    repo = rep.w.repo
    # at the end of a directory with good files before it, so that objects are stored before the failure
    sub = os.path.join(repo, "zz-fail")
    os.makedirs(sub)
    for i in range(rep.rng.choice([3] * 8 + [40, 100, 260])):
        with open(os.path.join(sub, "g%d" % i), "wb") as f:
            f.write(os.urandom(20) if i else os.urandom(70000))
    for n in ("a-good", "m-good"):
        with open(os.path.join(sub, n), "wb") as f:
            f.write(os.urandom(30))
    p = os.path.join(sub, "y-bad")
    if kind == "fifo":
        os.mkfifo(p)
    elif kind == "dangling":
        os.symlink("/nonexistent/target", p)
    elif kind == "badname":
        with open(os.path.join(sub.encode(), b"y-\xff\xfe"), "wb") as f:
            f.write(b"x")
    return sub


def run(rep, a):
    k, c = a["kind"], a["cmd"]
    w = rep.w
    rng = rep.rng
    some = [x for x in rep.prev.objs]
    nokey = "b" + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz234567") for _ in range(30))
    if rng.random() < .6:       # as long as a whole key
        nokey = snap.b3.user_key(b"\x01" + rng.randbytes(32))
        if some and rng.random() < .5:
            b = bytearray(rng.choice(sorted(some)))
            b[rng.randrange(1, 33)] ^= 1 << rng.randrange(8)
            nokey = snap.b3.user_key(bytes(b)) if bytes(b) not in rep.prev.objs else nokey
    bad = None
    if k in ("fifo", "dangling", "badname"):
        if c not in ("insert", "commit", "status", "compare"):
            return False
        if c == "status" and k == "badname":
            return False
        bad = put_bad(rep, k)
    try:
        before = w.dump()
        rep.prev = before
        wtb = snap.read_tree(w.repo, skip=(".snapcd",))
        rep.wt_dirty = None
        if k == "badglob":
            if c not in ("insert", "commit", "status", "compare"):
                return False
            ex = ["[z-"]
        else:
            ex = ()
        if k in ("fifo", "dangling", "badname", "badglob"):
            if c == "insert":
                r = rep.run("insert", w.repo, excl=ex)
            elif c == "commit":
                r = rep.run("commit", "-m", "will fail", *rng.choice([[], ["-p", w.repo], ["newref"]]), excl=ex)
            elif c == "status":
                if before.head is None or not before.log_of(before.head):
                    return False
                r = rep.run("status", excl=ex)
            else:
                ks = [x for x in some if snap.Obj(before.objs[x]).type == "FSItemDir"]
                if not ks or k == "badname":
                    return False
                r = rep.run("compare", rep.key(ks[0]), excl=ex)
            return _strict(rep, r, before)
        if k == "nopath":
            if c == "insert":
                return _strict(rep, rep.run("insert", os.path.join(w.repo, "does-not-exist")), before)
            if c == "commit":
                return _strict(rep, rep.run("commit", "-m", "x", "-p", os.path.join(w.repo, "does-not-exist")), before)
            if c == "compare" and some:
                return _strict(rep, rep.run("compare", "-p", os.path.join(w.repo, "does-not-exist"), rep.key(sorted(some)[0])), before)
            return False
        args = {"nokey": nokey, "badkey": rng.choice(["b!", "x123", "b0189", "b\u00e9"]), "noref": "/no such ref", "ambiguous": "b"}.get(k)
        if k == "ambiguous" and len(some) < 2:
            return False
        if args is not None:
            good = rep.key(rng.choice(sorted(some))) if some else None
            if c == "fetch":
                return _strict(rep, rep.run("fetch", args, os.path.join(w.base, "nofetch")), before)
            if c == "refupdate":
                return _strict(rep, rep.run("ref", "update", args, rng.choice(["master", "other"])), before)
            if c == "reflogpush":
                return _strict(rep, rep.run("debug", "reflog-push", args, "master", *rng.choice([[], ["origin"]])), before)
            if c in ("show", "log", "compare"):
                return _strict(rep, rep.run(c, args), before)
            if c == "committree":
                if good is None:
                    return False
                return _strict(rep, rep.run("debug", "commit-tree", *rng.choice([[args], [good, args]])), before)
            return False
        if k == "notree":
            blobs = [x for x in some if snap.Obj(before.objs[x]).type in ("FileBlob", "Commit")]
            if not blobs:
                return False
            b = rep.key(rng.choice(sorted(blobs)))
            if c == "fetch":
                return _strict(rep, rep.run("fetch", b, os.path.join(w.base, "nofetch")), before)
            if c == "compare":
                return _strict(rep, rep.run("compare", b), before)
            return False
        if k == "destfile":
            trees = [x for x in some if snap.Obj(before.objs[x]).type == "FSItemFile"]
            if c != "fetch" or not trees:
                return False
            d = os.path.join(w.base, "destfile")
            with open(d, "wb") as f:
                f.write(b"precious")
            try:
                r = _strict(rep, rep.run("fetch", rep.key(sorted(trees)[0]), d), before)
                with open(d, "rb") as f:
                    r.destok = f.read() == b"precious"
            finally:
                os.unlink(d)
            return r
        return False
    finally:
        wta = snap.read_tree(w.repo, skip=(".snapcd",))
        if wta != wtb:
            rep.wt_dirty = sorted(x for x in set(wta) | set(wtb) if wta.get(x) != wtb.get(x))[:5]
        if bad:
            import shutil
            shutil.rmtree(bad)


def _strict(rep, r, before):
    r.before = before
    return r
