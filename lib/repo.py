"""Replay of Repo.tla transitions and behaviours on the real program."""
import json, os, random, re, shutil, sqlite3, stat
import b3, listing, snap, vlib
from snap import World, Conc, Dump, Obj, R

REFPOOL = ["Master", "master ", " master", "mast", "masterr", "r1", "R1", "r1 ", "f\u00e9ature", "a/b", "x'y", 'q"z', "%", "_", "m\u0430ster",
           "dev;drop", "1", "topic/new thing", "NULL", "HEAD", "local", "*", "tab\tref", "master/1", ""]
REMPOOL = ["origin", "Origin", "origin ", "o2", "upstream", "master", "h\u00f4te", "r1", "local", "NULL", "%", "x'", ""]
MSGPOOL = ["first", "second message", "multi\nline\nmessage", "", "  spaces  ", "un\u00ef", "quote \" ' done", "-- dash inside",
           "x" * 3000, "commit: fake", "tr\u00e4iling\n", "emoji \U0001f980", "\ttab", "same", "%s %d"]


def canon(x):
    return json.dumps(x, sort_keys=True)


class Mismatch(Exception):
    pass


class Rep:
    """One real repository following one model behaviour."""

    def __init__(self, base, cli, rng, names, contents, refs, remotes, msgs, repo=None, pre=None, contentpool=None,
                 namepool=None, initcmd=False, rename_refs=True, fixed_names=None, emptymsg=False):
        self.w = World(base, cli, repo=repo, pre=pre)
        self.rng = rng
        fixed = dict(fixed_names or {})
        self.c = Conc(rng, names, contents, namepool=namepool, contentpool=contentpool, fixed=fixed)
        pool = [p for p in REFPOOL]
        rest = [r for r in refs if r != "master"]
        self.ref = {"master": "master"}
        self.ref.update(zip(rest, rng.sample(pool, len(rest)) if rename_refs else rest))
        self.rem = dict(zip(remotes, rng.sample(REMPOOL, len(remotes)) if rename_refs else remotes))
        self.msg = dict(zip(msgs, rng.sample([x for x in MSGPOOL if x or emptymsg], len(msgs))))
        self.msg[""] = ""
        self.roots, self.commits = [], []       # db keys by model index (1-based -> [i-1])
        self.wt = []
        self.treekeys = {}                       # canon(show) -> db key
        self.prev = Dump(self.w.dbfile)
        self.cwd = None
        self.opts = {}
        if not initcmd:
            r = self.w.run("init")
            if r.failed:
                raise Mismatch("init failed: %r" % r)
            self.prev = self.w.dump()

    # ---------------- snapshot / restore (for branching replay)
    def save(self, path):
        shutil.copytree(self.w.repo, path, symlinks=True)
        return (path, list(self.roots), list(self.commits), self.wt, dict(self.treekeys))

    def load(self, s):
        shutil.rmtree(self.w.repo, ignore_errors=True)
        shutil.copytree(s[0], self.w.repo, symlinks=True)
        self.roots, self.commits, self.wt, self.treekeys = list(s[1]), list(s[2]), s[3], dict(s[4])
        self.prev = self.w.dump()

    # ---------------- helpers
    def X(self, x):
        return ["**/" + glob_escape(self.c.n[n]) for n in x]

    def key(self, dbkey, form=None):
        u = snap.b3.user_key(dbkey)
        f = form or self.opts.get("keyform") or "prefix"
        if f == "full":
            return u
        # shortest unambiguous, at least 14 characters
        return u[:self.rng.choice([18, 20, 25, 30])]

    def refname(self, r):
        return self.ref[r]

    def remname(self, m):
        return None if m == "local" else self.rem[m]

    def run(self, *a, **k):
        if self.cwd and "cwd" not in k:
            k["cwd"] = self.cwd()
        return self.w.run(*a, **k)

    # ---------------- one step; returns the result of the command (or None for edits)
    def do(self, a):
        k = a["a"]
        f = getattr(self, "do_" + k)
        self.last_new = None
        return f(a)

    def do_edit(self, a):
        return None   # the caller writes the tree of the target state

    def write_wt(self, show):
        self.wt = show
        snap.write_tree(self.w.repo, self.c.tree(show), self.rng)

    def do_init(self, a):
        return self.w.run("init")

    def abs(self, p):
        q = self.c.path(p)
        return os.path.join(self.w.repo, q) if q else self.w.repo

    def spelled(self, p):
        """a way to name that path, and where to be to mean it"""
        q = self.abs(p)
        if not self.opts.get("relpaths") or self.rng.random() < .4:
            return q, {}
        if self.cwd:
            cwd = self.cwd()
        else:
            ds = [self.w.repo]
            for d, sub, fs in os.walk(self.w.repo):
                sub[:] = sorted(s for s in sub if s != ".snapcd")
                ds += [os.path.join(d, s) for s in sub if snap.text(s)]
                if len(ds) > 30:
                    break
            cwd = self.rng.choice(ds)
        rel = os.path.relpath(q, os.path.realpath(cwd))
        if rel[0] == "-" or self.rng.random() < .2:
            rel = "./" + rel
        return rel, {"cwd": cwd}

    def do_insert(self, a):
        arg, k = self.spelled(a["p"])
        r = self.run("insert", arg, excl=self.X(a["x"]), **k)
        m = re.search(rb"inserted hash (\S+)", r.out)
        r.key = snap.key_to_db(m.group(1).decode()) if m and not r.failed else None
        return r

    def do_commit(self, a):
        args = ["commit", "--message=" + self.msg[a["msg"]]]
        k = {}
        if a["p"] or self.opts.get("relpaths") and self.rng.random() < .2:
            arg, k = self.spelled(a["p"])
            args += ["-p", arg]
        if a["ref"] != "none":
            args += [self.refname(a["ref"])]
        return self.run(*args, excl=self.X(a["x"]), **k)

    def do_committree(self, a):
        t = self.treekeys[canon([sorted(a["t"]), a["f"]])]
        r = self.run("debug", "commit-tree", self.key(t), *[self.key(self.commits[p - 1]) for p in a["par"]])
        m = re.match(rb"(b[a-z2-7]{52})\n", r.out)
        r.key = snap.key_to_db(m.group(1).decode()) if m and not r.failed else None
        return r

    def do_refupdate(self, a):
        args = ["ref", "update", self.key(self.commits[a["id"] - 1])]
        if a["ref"] != "none":
            args.append(self.refname(a["ref"]))
        return self.run(*args)

    def do_reflogpush(self, a):
        args = ["debug", "reflog-push", self.key(self.commits[a["id"] - 1]), self.refname(a["ref"])]
        if a["rem"] != "local":
            args.append(self.remname(a["rem"]))
        return self.run(*args)

    def do_refbad(self, a):
        if a["kind"] == "alien":
            return self.alien(lambda k: self.do_refbad1(a, k))
        want = {"tree": "FSItemDir", "file": "FSItemFile", "blob": "FileBlob"}[a["kind"]]
        ks = [k for k, v in self.prev.objs.items() if Obj(v).type == want]
        if not ks:
            return False
        return self.do_refbad1(a, self.key(self.rng.choice(sorted(ks))))

    def alien(self, fn):
        """with an object of a kind this version does not know, which nothing can refer to; removed again unless something does"""
        rng = self.rng
        tips = [k for k, v in self.prev.objs.items() if Obj(v).type == "FSItemDir"]
        cm = [k for _, _, k in self.prev.reflog]
        raw = snap.enc_obj(b3.cbor_encode({"message": "v1", "extra": {}}) if rng.random() < .5 else rng.randbytes(20),
                           rng.sample(tips, min(1, len(tips))) + rng.sample(cm, min(len(cm), rng.randrange(2))), rng.choice(["Tag", "commit", "Commit2", ""]))
        k = b"\x01" + b3.blake3(raw)
        self.sql("insert or ignore into data values (?, ?)", k, raw)
        f = None
        try:
            f = fn(self.key(k))
            return f
        finally:
            if f is None or f.failed:
                self.sql("delete from data where key = ?", k)

    def sql(self, stmt, *args):
        con = sqlite3.connect(self.w.dbfile, isolation_level=None, timeout=60)
        try:
            con.execute("pragma synchronous=0")
            con.execute(stmt, args)
        finally:
            con.close()

    def do_refbad1(self, a, k):
        if a["via"] == "refupdate":
            return self.run("ref", "update", k, *([self.refname(a["ref"])] if a["ref"] != "none" else []))
        return self.run("debug", "reflog-push", k, self.refname(a["ref"]) if a["ref"] != "none" else "master",
                        *([self.rng.choice(list(self.rem.values()))] if self.rem and self.rng.random() < .5 else []))

    def do_sethead(self, a):
        return self.run("debug", "set-head", self.refname(a["ref"]))

    def do_gethead(self, a):
        return self.run("debug", "get-head")

    def do_checkouthead(self, a):
        r = self.run("checkout-head", self.refname(a["ref"]), excl=self.X(a["x"]))
        r.refused = b"Cannot checkout" in r.out
        return r

    def do_checkout(self, a):
        return self.run("checkout", excl=self.X(a["x"]))

    def do_status(self, a):
        return self.run("status", excl=self.X(a["x"]))

    def do_compare(self, a):
        return self.run("compare", self.key(self.roots[a["root"] - 1]), excl=self.X(a["x"]))

    def do_refget(self, a):
        rem = self.remname(a["rem"])
        if rem != "" and "/" not in (rem or "") and self.rng.random() < .4:
            r = self.run("log", (rem or "") + "/" + self.refname(a["ref"]))
            m = re.match(rb"commit: (b[a-z2-7]{52})\n", r.out)
            if m:
                r.text_ = m.group(1).decode()
            return r
        return self.run("debug", "reflog-get", self.refname(a["ref"]), *([self.remname(a["rem"])] if a["rem"] != "local" else []))

    def do_reflog(self, a):
        args = ["ref", "log"]
        if a["ref"] != "none":
            args.append(self.refname(a["ref"]))
            if a["rem"] != "local":
                args.append(self.remname(a["rem"]))
        return self.run(*args)

    def do_fetch(self, a):
        t = self.treekeys[canon([sorted(a["t"]), a["f"]])]
        self.nf = getattr(self, "nf", 0) + 1
        d = os.path.join(self.w.base, "fetch%d" % self.nf)
        r = self.run("fetch", self.key(t), d)
        r.tree = snap.read_tree(d) if os.path.exists(d) else None
        if os.path.isdir(d):
            shutil.rmtree(d)
        elif os.path.exists(d):
            os.unlink(d)
        return r

    def do_log(self, a):
        return self.run("log", *([self.key(self.commits[a["id"] - 1])] if a["id"] else []))

    def do_show(self, a):
        return self.run("show", *([self.key(self.commits[a["id"] - 1])] if a["id"] else []))

    def do_showfile(self, a):
        t = self.treekeys[canon([sorted(a["t"]), a["f"]])]
        k = self.prev.find(t, self.c.path(a["p"]))
        if self.rng.random() < .4:
            k = snap.Obj(self.prev.objs[k]).keys[0]       # the content itself
        return self.run("show", self.key(k))

    def tk(self, a):
        return self.treekeys[canon([sorted(a["t"]), a["f"]])]

    def do_walktree(self, a):
        return self.run("debug", "walk-tree", self.key(self.tk(a)))

    def do_walkfs(self, a):
        return self.run("debug", "walk-fs-tree", self.abs(a["p"]))

    def do_pretty(self, a):
        self.asked = self.commits[a["id"] - 1] if "id" in a else self.prev.find(self.tk(a), self.c.path(a["p"]))
        return self.run("debug", "pretty-print", self.key(self.asked))

    def do_fail(self, a):
        import fails
        return fails.run(self, a)

    # ---------------- comparison: list of (tag, text)
    def learn(self, a, o, d, r, dump):
        """bind new model indexes to real keys"""
        ms = []
        if a["a"] == "insert":
            if r.key is None:
                return [("outcome", "insert printed no key: %r" % r)]
            if o["root"] > len(self.roots):
                self.roots.append(r.key)
            elif self.roots[o["root"] - 1] != r.key:
                ms.append(("rekey", "re-inserting equal content gave another key: %s" % r.key.hex()))
            show = [sorted(d["rt"][o["root"] - 1]), d["rf"][o["root"] - 1]]
            ms += self.bind_tree(show, r.key)
        if a["a"] in ("commit", "committree") and o["ok"]:
            if a["a"] == "commit":
                new = dump.reflog[len(self.prev.reflog):]
                if len(new) != 1:
                    return [("commit", "commit added %d ref entries" % len(new))]
                k = new[0][2]
            else:
                k = r.key
                if k is None:
                    return [("outcome", "commit-tree printed no key: %r" % r)]
            if o["id"] > len(self.commits):
                if k in self.commits:
                    ms.append(("commit", "a different commit got an existing key"))
                self.commits.append(k)
            elif self.commits[o["id"] - 1] != k:
                ms.append(("rekey", "an identical commit got a different key"))
            if k in dump.objs:
                try:
                    rec = dump.commit(k)
                    m = d["cm"][o["id"] - 1]
                    ms += self.bind_tree([sorted(m["t"]), m["f"]], rec["tree"])
                except Exception as e:
                    ms.append(("commit", "commit object unusable: %r" % e))
            else:
                ms.append(("commit", "commit object not stored"))
        return ms

    def bind_tree(self, show, key):
        c = canon(show)
        if c in self.treekeys:
            if self.treekeys[c] != key:
                return [("rekey", "equal trees have different keys")]
        elif key in self.treekeys.values():
            return [("rekey", "different trees share a key")]
        else:
            self.treekeys[c] = key
        return []

    def real_tree(self, show, isfile):
        t = self.c.tree(show)
        return t

    def compare_state(self, d, dump):
        ms = []
        if d["hd"] == "none":
            if dump.head is not None:
                ms.append(("head", "HEAD is %r, expected none" % dump.head))
        elif dump.head != self.ref[d["hd"]]:
            ms.append(("head", "HEAD is %r, expected %r" % (dump.head, self.ref[d["hd"]])))
        want = {}
        for r, m, ids in d["lg"]:
            want[(self.ref[r], self.remname(m))] = [self.commits[i - 1] for i in ids]
        have = {}
        for r, m, k in dump.reflog:
            have.setdefault((r, m), []).append(k)
        if want != have:
            ms.append(("log", "ref histories differ: have %s want %s" % (show_logs(have), show_logs(want))))
        return ms

    def compare_commits(self, d, dump, only=None):
        ms = []
        for i, m in enumerate(d["cm"]):
            if only is not None and i + 1 != only:
                continue
            k = self.commits[i]
            try:
                rec = dump.commit(k)
            except Exception as e:
                ms.append(("commit", "commit %d unusable: %r" % (i + 1, e)))
                continue
            if rec["message"] != self.msg[m["msg"]]:
                ms.append(("commit", "message %r, expected %r" % (rec["message"], self.msg[m["msg"]])))
            if sorted(rec["parents"]) != sorted(self.commits[p - 1] for p in m["par"]):
                ms.append(("commit", "parents of commit %d: %s" % (i + 1, [p.hex()[:10] for p in rec["parents"]])))
            try:
                t = dump.tree(rec["tree"])
                if t != self.c.tree(m["t"]):
                    ms.append(("tree", "tree of commit %d: %s expected %s" % (i + 1, summ(t), summ(self.c.tree(m["t"])))))
            except Exception as e:
                ms.append(("tree", "tree of commit %d unreadable: %r" % (i + 1, e)))
        return ms

    def compare_out(self, a, o, r, d, dump):
        k = a["a"]
        ms = []
        if not o["ok"]:
            if k == "checkouthead":
                if not (r.failed or r.refused):
                    ms.append(("outcome", "checkout-head did not refuse: %r" % r))
            elif not r.failed:
                ms.append(("outcome", "%s should have failed: %r" % (a, r)))
            return ms
        if r.failed or getattr(r, "refused", False):
            return [("outcome", "%s failed: %r" % (a, r))]
        if k == "refget":
            got = getattr(r, "text_", r.text.strip())
            if got != snap.b3.user_key(self.commits[o["id"] - 1]):
                ms.append(("query", "reflog-get %s printed %s" % (a, got)))
        elif k == "reflog":
            ls = [l for l in r.text.split("\n") if re.match(r"\d+: b", l)]
            want = ["%d: %s" % (len(o["ids"]) - i, snap.b3.user_key(self.commits[c - 1])) for i, c in enumerate(o["ids"])]
            if [l.split(": ")[1] for l in ls] != [w.split(": ")[1] for w in want]:
                ms.append(("query", "ref log %s printed %s, expected %s" % (a, ls, want)))
        elif k == "gethead":
            want = "head: None" if o["head"] == "none" else None
            if want and want not in r.text:
                ms.append(("query", "get-head: %r" % r.text))
        elif k == "fetch":
            want = self.c.tree(o["t"])
            if r.tree is None or r.tree != want:
                ms.append(("fetch", "fetched %s, expected %s" % (summ(r.tree), summ(want))))
        elif k in ("status", "compare"):
            if "d" in o:
                got = snap.parse_diff(r.text)
                want = {x: sorted(self.c.path(p if isinstance(p, str) else p[0]) for p in o["d"][x])
                        for x in ("added", "deleted", "modified")}
                g = {x: sorted(got.get(x, [])) for x in want}
                if g != want or got.get("other"):
                    ms.append(("diff", "%s: reported %s, expected %s" % (a, got, want)))
            if k == "status":
                h = self.ref[o["head"]]
                line = "HEAD: %s [%s]" % (h, snap.b3.user_key(self.commits[o["tip"] - 1])[:8]) if o["tip"] else \
                    "HEAD: %s (no commits on %s)" % (h, h)
                if not r.text.startswith(line):
                    ms.append(("diff", "status line %r, expected %r" % (r.text[:100], line)))
        elif k == "showfile":
            if r.out != self.c.c[o["c"]]:
                ms.append(("show", "show %s printed %d bytes %r, expected %d bytes %r" % (a, len(r.out), r.out[:60], len(self.c.c[o["c"]]), self.c.c[o["c"]][:60])))
        elif k in ("walktree", "walkfs", "pretty"):
            try:
                ms += [("list", x) for x in getattr(self, "list_" + k)(a, o, r, dump)]
            except (listing.Unreadable, ValueError, KeyError) as e:
                ms.append(("list", "%s: %r" % (a, e)))
        elif k in ("log", "show"):
            pass   # judged separately
        return ms

    def list_walktree(self, a, o, r, dump):
        got = sorted(listing.walk_tree(r.text))
        want = sorted((p, dump.find(self.tk(a), p), c == "D") for p, c in self.c.tree(o["t"]).items())
        return [] if got == want else ["%s listed %s, expected %s" % (a, rowdiff(got, want), rowdiff(want, got))]

    def list_walkfs(self, a, o, r, dump):
        got = [x for x in sorted(listing.walk_fs(r.text)) if a["p"] or x[0].split("/")[0] != ".snapcd"]
        want = sorted((p, c == "D") for p, c in self.c.tree_below(o["t"], a["p"]).items())
        return [] if got == want else ["%s listed %s, expected %s" % (a, rowdiff(got, want), rowdiff(want, got))]

    def list_pretty(self, a, o, r, dump):
        typ, ks, data = listing.pretty(r.text)
        ob = Obj(dump.objs[self.asked])
        if typ != o["type"]:
            return ["%s: type %s, expected %s" % (a, typ, o["type"])]
        if data != ob.data or ks != ob.keys:
            return ["%s: keys %s and data %r, stored are %s and %r" % (a, [k.hex()[:9] for k in ks], data[:60], [k.hex()[:9] for k in ob.keys], ob.data[:60])]
        if typ == "Commit":
            if ks[0] != self.tk(o) or sorted(ks[1:]) != sorted(self.commits[i - 1] for i in o["par"]):
                return ["%s: keys are not the tree and the parents" % a]
        elif typ == "FSItemDir" and not self.c.ballast:
            t, p = self.tk(a), self.c.path(a["p"])
            if sorted(ks) != sorted(dump.find(t, (p + "/" if p else "") + self.c.n[n]) for n in o["names"]):
                return ["%s: keys are not those of the entries" % a]
        elif typ == "FSItemFile" and self.rng.random() < .5:
            b = listing.content(self, ks[0])
            if b != self.c.c[o["c"]]:
                return ["%s: the objects listed hold %d bytes %r, not %r" % (a, len(b), b[:60], self.c.c[o["c"]][:60])]
        return []

    # ---------------- the step
    def step(self, lab, out, dst, tags=None):
        """perform a model transition; returns mismatches. tags: which kinds to look at."""
        a, o, d = lab, out, dst
        self.before, self.last = self.prev, None
        if a["a"] in ("start",):
            return []
        if a["a"] == "edit":
            self.write_wt(d["wt"])
            return []
        before_wt = self.c.tree(self.wt)
        r = self.do(a)
        if r is False:       # not applicable in this concretisation
            return []
        dump = self.w.dump()
        ms = []
        if a["a"] not in ("log", "show", "fail"):
            ms += self.compare_out(a, o, r, d, dump)
        elif not o["ok"] and not r.failed:
            ms.append(("outcome", "%s should have failed: %r" % (a, r)))
        elif o["ok"] and r.failed:
            ms.append(("outcome", "%s failed: %r" % (a, r)))
        if o["ok"] and not any(t == "outcome" for t, _ in ms):
            ms += self.learn(a, o, d, r, dump)
            if a["a"] == "insert" and not ms:
                try:
                    t = dump.tree(self.roots[o["root"] - 1])
                    if t != self.c.tree(d["rt"][o["root"] - 1]):
                        ms.append(("tree", "inserted %s, stored %s" % (summ(self.c.tree(d["rt"][o["root"] - 1])), summ(t))))
                except Exception as e:
                    ms.append(("tree", "inserted tree unreadable: %r" % e))
        fatal = any(t in ("outcome",) for t, _ in ms)
        if not fatal:
            if len(self.commits) == len(d["cm"]):
                ms += self.compare_state(d, dump)
                if a["a"] in ("commit", "committree") and o["ok"]:
                    ms += self.compare_commits(d, dump, only=o["id"])
        if not o["ok"] and not (dump.refs_eq(self.prev) if getattr(r, "refused", False) else dump == self.prev):
            ms.append(("changed", "failing command %s changed the repository: %s" % (a, diff_dumps(self.prev, dump))))
        self.last = r
        self.before, self.prev = self.prev, dump
        if a["a"] == "checkout" and o["ok"]:
            self.wt = d["wt"]
            got = snap.read_tree(self.w.repo, skip=(".snapcd",))
            if got != self.c.tree(d["wt"]):
                ms.append(("wt", "after checkout: %s expected %s" % (summ(got), summ(self.c.tree(d["wt"])))))
        return [m for m in ms if tags is None or m[0] in tags]

    def wt_now(self):
        return snap.read_tree(self.w.repo, skip=(".snapcd",))


def rowdiff(a, b):
    """what is in a more often than in b"""
    from collections import Counter
    return [tuple(x.hex()[:12] if isinstance(x, bytes) else x for x in r) for r in (Counter(a) - Counter(b)).elements()][:6]


def glob_escape(s):
    return re.sub(r"([*?\[\]{}\\])", r"[\1]", s) if not any(c in s for c in "{}\\") else re.sub(r"([*?\[\]{}\\])", r"\\\1", s)


def show_logs(d):
    return {str(k): [x.hex()[2:10] if x else None for x in v] for k, v in d.items()}


def summ(t):
    if t is None:
        return None
    return {p: (c if c == "D" or not isinstance(c, bytes) else (c[:12] + b"..%d" % len(c) if len(c) > 16 else c)) for p, c in t.items()}


def diff_dumps(a, b):
    return {"new objects": len(set(b.objs) - set(a.objs)), "lost objects": len(set(a.objs) - set(b.objs)),
            "changed": sum(1 for k in a.objs if k in b.objs and a.objs[k] != b.objs[k]),
            "reflog": [len(a.reflog), len(b.reflog)], "head": [a.head, b.head]}


# ---------------------------------------------------------------- behaviours

def behaviours(emitted):
    """split the output of a -simulate run (one worker) into behaviours"""
    out, cur = [], None
    for e in emitted:
        if e["a"]["a"] == "start":
            cur = [e]
            out.append(cur)
        elif cur is not None and e["l"] == cur[-1]["l"] + 1:
            cur.append(e)
        else:
            raise ValueError("broken behaviour")
    return out


def lts(emitted):
    """states, initial state, edges: src -> [(label, out, dst)]"""
    ids, states, edges = {}, [], {}

    def sid(s):
        c = canon(norm(s))
        if c not in ids:
            ids[c] = len(states)
            states.append(s)
        return ids[c]
    for e in emitted:
        s, d = sid(e["s"]), sid(e["d"])
        edges.setdefault(s, []).append((e["a"], e["o"], d))
    return states, edges


def norm(s):
    s = dict(s)
    s["wt"] = sorted(s["wt"])
    s["lg"] = sorted(s["lg"])
    s["rt"] = [sorted(x) for x in s["rt"]]
    s["cm"] = [dict(c, t=sorted(c["t"])) for c in s["cm"]]
    return s


def cover(edges, root=0, rng=None, limit=None, maxlen=40):
    """walks from the root that together take every transition (greedy: go to the nearest untaken
    edge); each walk is a list of (label, out, dst)"""
    from collections import deque
    todo = {s: list(range(len(v))) for s, v in edges.items()}
    if rng:
        for v in todo.values():
            rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    walks, taken = [], 0
    while left and (limit is None or taken < limit):
        s, walk = root, []
        while len(walk) < maxlen and left:
            if todo.get(s):
                i = todo[s].pop()
                left -= 1
                taken += 1
                walk.append(edges[s][i])
                s = edges[s][i][2]
                continue
            # breadth-first search to a state with an untaken edge
            prev, q, goal = {s: None}, deque([s]), None
            while q:
                u = q.popleft()
                if todo.get(u):
                    goal = u
                    break
                for i, e in enumerate(edges.get(u, ())):
                    if e[2] not in prev:
                        prev[e[2]] = (u, i)
                        q.append(e[2])
            if goal is None:
                break
            path = []
            u = goal
            while prev[u]:
                path.append(prev[u])
                u = prev[u][0]
            path.reverse()
            if walk and len(walk) + len(path) >= maxlen:
                break
            for u, i in path:
                walk.append(edges[u][i])
            s = goal
        if not walk:
            break
        walks.append(walk)
    return walks, taken


def _initnested(self, a):
    sub = os.path.join(self.w.repo, "zz nested", "deep")
    os.makedirs(sub)
    try:
        r = self.w.run("init", cwd=sub)
        db = os.path.join(sub, ".snapcd", "snapcd.db")
        d = Dump(db)
        r.nested_ok = os.path.exists(db) and d.head == "master" and not d.objs and not d.reflog
        if r.nested_ok and not r.failed:
            with open(os.path.join(sub, "f"), "wb") as f:
                f.write(b"nested file")
            r2 = self.w.run("commit", "-m", "nested", cwd=sub)
            d = Dump(db)
            r.nested_ok = not r2.failed and len(d.reflog) == 1 and d.reflog[0][0] == "master"
    finally:
        shutil.rmtree(os.path.join(self.w.repo, "zz nested"))
    return r


Rep.do_initnested = _initnested
