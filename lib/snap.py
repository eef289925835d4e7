"""Adaptor between the models and the snapcd program: running commands, reading and writing real
trees, projecting the database to abstract state."""
import resource, os, random, re, shutil, signal, sqlite3, subprocess, sys
import b3


class R:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def failed(self):
        return self.rc != 0 or self.out.startswith(b"fatal:") or b"\nfatal:" in self.out

    @property
    def text(self):
        return self.out.decode(errors="replace")

    def __repr__(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[-600:], self.err[-600:])


class World:
    """One scratch area with a repository at <base>/repo."""

    def __init__(self, base, cli, repo=None, pre=None):
        self.base, self.cli = base, cli
        self.repo = repo or os.path.join(base, "repo")
        self.pre = pre or []
        os.makedirs(self.repo, exist_ok=True)
        self.ncache = 0
        self.cmds = 0
        self.log = []
        self.extra = {}         # environment of every command (the shim)
        self.pwd = None         # what PWD says in the environment of a command started in a directory
        self.stdout = None      # where standard output goes instead of to us
        self.noise = True       # how much is said must not change what is done

    def env(self, cache=None):
        if cache is None:  # a fresh cache for every command
            self.ncache += 1
            cache = os.path.join(self.base, "cache", str(self.ncache))
        e = {"PATH": "/usr/bin:/bin", "HOME": self.base, "XDG_CACHE_HOME": cache, "RUST_BACKTRACE": "0", "LC_ALL": "C"}
        return e, cache

    def near(self, path, rng):
        """a way to name a path from some directory inside the repository, and that directory"""
        ds = [self.repo, os.path.join(self.repo, ".snapcd")]
        for d, sub, _ in os.walk(self.repo):
            sub[:] = sorted(s for s in sub if s != ".snapcd" and text(s))
            ds += [os.path.join(d, s) for s in sub]
            if len(ds) > 30:
                break
        cwd = rng.choice(ds)
        rel = os.path.relpath(path, os.path.realpath(cwd))
        return ("./" if rel[0] == "-" or rng.random() < .2 else "") + rel, cwd

    def run(self, *args, cwd=None, cache=None, excl=(), db=None, timeout=60, extra_env=None, keepcache=False, stack=None):
        e, cd = self.env(cache)
        e.update(self.extra)
        if extra_env:
            e.update(extra_env)
        if self.pwd:
            v = self.pwd(cwd or self.repo)
            if v is not None:
                e["PWD"] = v
        cmd = self.pre + [self.cli]
        if db is not None:
            cmd += ["-d", db]
        for x in excl:
            cmd += ["--exclude=" + x]
        args = [a if isinstance(a, (str, bytes)) else str(a) for a in args]
        before, after = self.flags(e, args)
        cmd += before + args + after
        if stack:
            cmd = ["prlimit", "--stack=%d" % stack] + cmd
            timeout *= 10
        self.cmds += 1
        self.log.append((list(map(_s, args)), cwd and os.path.relpath(cwd, self.base), list(excl), before + after))
        if len(self.log) > 60:
            del self.log[0]
        to = subprocess.PIPE
        if self.stdout == "closed pipe":
            a, to = os.pipe()
            os.close(a)
        elif self.stdout:
            to = os.open(self.stdout, os.O_WRONLY)
        try:
            p = subprocess.run(cmd, cwd=cwd or self.repo, env=e, stdin=subprocess.DEVNULL,
                               stdout=to, stderr=subprocess.PIPE, timeout=timeout)
            r = R(p.returncode, p.stdout or b"", p.stderr)
        except subprocess.TimeoutExpired as t:
            r = R(-999, t.stdout or b"", b"HANG " + (t.stderr or b""))
        finally:
            if to != subprocess.PIPE:
                os.close(to)
        if cache is None and not keepcache:
            shutil.rmtree(cd, ignore_errors=True)
        return r

    def flags(self, e, args):
        """options and environment of no consequence"""
        if not self.noise:
            return [], []
        n = random.Random("%d %s" % (self.cmds, [_s(x).replace(self.base, "") for x in args]))
        if n.random() < .1:
            e.update(n.choice([{"TZ": "Asia/Kolkata"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "de_DE.UTF-8"}, {"COLUMNS": "20"}, {"TERM": "xterm"},
                               {"RUST_LOG": "trace"}, {"CI": "1"}, {"PAGER": "false", "EDITOR": "false"}]))
        if n.random() < .7:
            return [], []
        f = [n.choice(["-q", "--quiet", "-v", "-vv", "-vvv", "-qv"])]
        return (f, []) if n.random() < .7 or "--" in args else ([], f)

    # ---- commands with parsed results
    def insert(self, path, **k):
        r = self.run("insert", path, **k)
        m = re.search(rb"inserted hash (\S+)", r.out)
        r.key = m.group(1).decode() if m and not r.failed else None
        return r

    @property
    def dbfile(self):
        return os.path.join(self.repo, ".snapcd", "snapcd.db")

    copydump = False            # look at a copy, so that looking does not touch the files

    def dump(self, path=None):
        if self.copydump and path is None:
            dst = os.path.join(self.base, "dumpcopy")
            shutil.rmtree(dst, ignore_errors=True)
            if os.path.isdir(os.path.dirname(self.dbfile)):
                shutil.copytree(os.path.dirname(self.dbfile), dst)
            return Dump(os.path.join(dst, "snapcd.db"))
        return Dump(path or self.dbfile)


def _s(a):
    return a.decode(errors="replace") if isinstance(a, bytes) else str(a)


class Dump:
    """Projection of the database file: objects, reflog rows, HEAD."""

    def __init__(self, path, timeout=20):
        self.objs, self.reflog, self.head, self.bad = {}, [], None, []
        if not os.path.exists(path):
            return
        c = sqlite3.connect(path, timeout=timeout)
        try:
            names = {r[0] for r in c.execute("select name from sqlite_master where type='table'")}
            if "data" in names:
                for k, v in c.execute("select key, value from data"):
                    self.objs[bytes(k) if not isinstance(k, str) else k.encode()] = bytes(v) if not isinstance(v, str) else v.encode()
            if "reflog" in names:
                self.reflog = [(a, b, bytes(k) if k is not None else None)
                               for a, b, k in c.execute("select refname, remote, key from reflog order by id")]
            if "state" in names:
                st = dict((bytes(k) if not isinstance(k, str) else k.encode(), bytes(v) if not isinstance(v, str) else v.encode())
                          for k, v in c.execute("select key, value from state"))
                h = st.get(b"HEAD")
                self.head = h.decode() if h is not None else None
        except sqlite3.OperationalError:
            raise
        except sqlite3.DatabaseError as e:      # not a database any more: equal to no healthy state
            self.objs, self.reflog, self.head, self.bad = {}, [("broken database", None, None)], repr(e), [repr(e)]
        finally:
            c.close()

    def key(self):
        return (tuple(sorted(self.objs.items())), tuple(self.reflog), self.head)

    def __eq__(self, o):
        return self.objs == o.objs and self.reflog == o.reflog and self.head == o.head

    def refs_eq(self, o):
        return self.reflog == o.reflog and self.head == o.head

    def decode(self, k):
        return Obj(self.objs[k])

    def log_of(self, ref, remote=None):
        return [k for (r, m, k) in self.reflog if r == ref and m == remote]

    def closure_errors(self):
        """objects that do not decode, dangling keys, ref entries that are not proper commits"""
        errs, dec = [], {}
        for k, v in self.objs.items():
            try:
                dec[k] = Obj(v)
            except Exception as e:
                errs.append(["undecodable", k.hex(), repr(e)])
        for k, o in dec.items():
            for c in o.keys:
                if c not in self.objs:
                    errs.append(["dangling", k.hex(), o.type, c.hex()])
            if o.type == "Commit":
                if not o.keys:
                    errs.append(["commit without tree", k.hex()])
        for ref, rem, k in self.reflog:
            if k is None or k not in dec:
                errs.append(["ref entry not stored", ref, rem, k and k.hex()])
            elif dec[k].type != "Commit":
                errs.append(["ref entry not a commit", ref, rem, dec[k].type])
            else:
                o = dec[k]
                if o.keys and o.keys[0] in dec and dec[o.keys[0]].type not in ("FSItemDir", "FSItemFile"):
                    errs.append(["commit tree not a tree", k.hex(), dec[o.keys[0]].type])
                for p in o.keys[1:]:
                    if p in dec and dec[p].type != "Commit":
                        errs.append(["commit parent not a commit", k.hex(), dec[p].type])
        return errs

    def tree(self, k, path=""):
        """{relative path: 'D' or bytes} of the stored item"""
        o = Obj(self.objs[k])
        if o.type == "FSItemDir":
            r = {}
            if path:
                r[path] = "D"
            names = o.meta()["children_names"]
            if len(names) != len(o.keys):
                raise ValueError("names/keys mismatch")
            for n, c in zip(names, o.keys):
                p = (path + "/" if path else "") + n
                if p in r:
                    raise ValueError("duplicate name")
                r.update(self.tree(c, p))
            return r
        if o.type == "FSItemFile":
            return {path: self.blob(o.keys[0])}
        raise ValueError("not a tree: " + o.type)

    def find(self, k, path):
        """the key of the item at a path of a stored tree"""
        for n in path.split("/") if path else []:
            o = Obj(self.objs[k])
            k = o.keys[o.meta()["children_names"].index(n)]
        return k

    def blob(self, k):
        o = Obj(self.objs[k])
        if o.type == "FileBlob":
            return o.data
        if o.type == "FileBlobTree":
            return b"".join(self.blob(c) for c in o.keys)
        raise ValueError("not data: " + o.type)

    def commit(self, k):
        o = Obj(self.objs[k])
        m = b3.cbor_decode(o.data)
        return {"tree": o.keys[0], "parents": o.keys[1:], "message": m["message"]}


class Obj:
    def __init__(self, raw):
        v = b3.cbor_decode(raw)
        if not isinstance(v, dict) or not {"data", "keys", "objtype"} <= set(v):
            raise ValueError("not an object")
        self.type = v["objtype"]
        self.data = v["data"]
        if not isinstance(self.data, bytes) or not isinstance(self.type, str):
            raise ValueError("bad object fields")
        self.keys = []
        for k in v["keys"]:
            (alg, bs), = k.items()
            if alg != "Blake3B" or len(bs) != 32:
                raise ValueError("bad key")
            self.keys.append(b"\x01" + bytes(bs))

    def meta(self):
        return b3.cbor_decode(self.data)


def enc_obj(data, keys, typ):
    return b3.cbor_encode({"data": data, "keys": [{"Blake3B": list(k[1:])} for k in keys], "objtype": typ})


def key_to_db(s):
    """printed key -> db key"""
    n = 0
    for ch in s[1:].lower():
        n = n << 5 | b3.B32.index(ch)
    return b"\x01" + (n >> 4).to_bytes(32, "big")


# ------------------------------------------------------------------ real trees

def read_tree(root, skip=()):
    """{rel: 'D' | bytes | ('L', target) | ('?',)} of everything below root (names as str)."""
    out = {}

    def rec(d, rel):
        with os.scandir(d) as it:
            ents = sorted(it, key=lambda e: e.name)
        for e in ents:
            r = rel + "/" + e.name if rel else e.name
            if r in skip:
                continue
            if e.is_symlink():
                out[r] = ("L", os.readlink(e.path))
            elif e.is_dir():
                out[r] = "D"
                rec(e.path, r)
            elif e.is_file():
                with open(e.path, "rb") as f:
                    out[r] = f.read()
            else:
                out[r] = ("?",)
    if os.path.isdir(root):
        rec(root, "")
    elif os.path.exists(root):
        with open(root, "rb") as f:
            out[""] = f.read()
    return out


def clear_dir(root, skip=()):
    for n in os.listdir(root):
        if n in skip:
            continue
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def write_file(q, data, rng=None):
    """the same content in one of the forms a file system may keep it in"""
    how = rng.randrange(8) if rng else 7
    with open(q, "wb", buffering=0) as f:
        if how == 0:            # holes where it can have some
            for i in range(0, len(data), 4096):
                if data[i:i + 4096].strip(b"\0"):
                    os.pwrite(f.fileno(), data[i:i + 4096], i)
            f.truncate(len(data))
        elif how == 1 and data:  # written from the end
            k = len(data) // 2
            os.pwrite(f.fileno(), data[k:], k)
            os.pwrite(f.fileno(), data[:k], 0)
        elif how == 2:          # was longer before
            f.write(data + b"more than there will be")
            f.truncate(len(data))
        elif how == 3 and data:
            os.posix_fallocate(f.fileno(), 0, len(data))
            os.pwrite(f.fileno(), data, 0)
        else:
            f.write(data)
            return
    with open(q, "rb") as f:
        if f.read() != data:
            raise ValueError("could not write the file")


def write_tree(root, tree, rng=None, clear=True, skip=(".snapcd",), shuffle=True):
    os.makedirs(root, exist_ok=True)
    if clear:
        clear_dir(root, skip)
    ps = list(tree)
    if rng and shuffle:
        rng.shuffle(ps)
    for p in ps:
        q = os.path.join(root, p)
        if tree[p] == "D":
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            write_file(q, tree[p], rng)


# ------------------------------------------------------------------ concretisation

NAMEPOOL = ["a", "b", "foo.txt", "bar", "sp ace", "\u00fcml", "-dash", ".hidden", "UP", "x" * 60, "a.b.c", "data.o",
            "\u65e5\u672c", "tab\tname", "semi;colon", "quo'te", "50%", "q?*[x]", "zz", "0", "~", "A", "aa", "lib", "src", "a, b", "x,y", "{a, b}", "!neg", "#hash", "a=b"]
CONTENTPOOL = [b"", b"one\n", b"two\n", b"tw", b"x", b"\x00\xff\xfe binary", b"line1\nline2\nline3\n", b"no newline at end",
               b"a" * 4096, b"b" * 4097, b"c" * 32768, b"d" * 32769, bytes(range(256)) * 300, b"\r\n\r\n", b"\n",
               "\u00e9\u00e8\n".encode(), b"z" * 65536, b"y" * 70001, bytes(8192), bytes(100000), b"q" + bytes(20000) + b"q"]


# names that are hard to get right; the last few are not UTF-8 (a store may refuse those, but not change them)
HARDNAMES = ["w" * 255, "new\nline", "\x01\x7f", "back\\slash", " lead", "trail ", "dot.", "...", "caf\u00e9", "cafe\u0301", "\u00e9" * 120, "a:b", "*", "{a,b}",
             "[!x]", "\u202e", "\ufeffbom", "\ufffd", "\U0001f980", "%2e%2e", "~user", "$HOME", "`id`", "-rf", "\r", "con", "A" * 200 + "b", "A" * 200 + "c",
             "b\udcff", "\udc80", "b\udcfe"]


def text(s):
    return not any("\udc80" <= ch <= "\udcff" for ch in s)


# contents of one length that differ in one place only: at the start, in the middle, at the end
def family(n):
    b = bytearray(random.Random(n).randbytes(n))
    out = []
    for i in (0, n // 2, n - 1):
        v = bytearray(b)
        v[i] ^= 0x55
        out.append(bytes(v))
    return out


FAMILIES = [family(n) for n in (3, 100, 4096, 5000, 8192, 16384, 32768, 40000, 65536, 70001, 131072, 300000)]


def ballast(rng):
    """things that are in a directory besides what the model talks about: {relative path: content}"""
    # and fewer files can be open than there are (that many can always be open, at 1024 as well)
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (256, hard))
    t = {}
    for i in range(rng.choice([40, 70, 130])):
        t["zz-%d" % i] = b"ballast %d" % i
    d = "zz deep"
    for i in range(rng.choice([6, 20, 60, 130])):
        t[d] = "D"
        d += "/d"
    t[d] = b"at the bottom"
    t["zz" + "w" * 240] = b""
    t["zz empty"] = "D"
    t["zz.big"] = b"B" * 50000
    return t


TEXTPOOL = [c for c in CONTENTPOOL if c.decode("utf-8", "replace").encode() == c and len(c) < 40000]


class Conc:
    """random injective maps model names -> file names, model contents -> bytes"""

    def __init__(self, rng, names, contents, namepool=None, contentpool=None, fixed=None):
        np = [n for n in (namepool or NAMEPOOL)]
        self.n = dict(fixed or {})
        rest = [n for n in names if n not in self.n]
        pick = rng.sample([n for n in np if n not in self.n.values()], len(rest))
        self.n.update(zip(rest, pick))
        if contentpool is None and len(contents) > 1 and rng.random() < .3:
            contentpool = rng.choice(FAMILIES)
            contentpool = contentpool if len(contents) <= len(contentpool) else None
        cp = contentpool or CONTENTPOOL
        self.c = dict(zip(contents, rng.sample(cp, len(contents))))
        self.ballast = None      # put into every directory below the root

    def path(self, p):
        return "/".join(self.n[x] for x in p.split("/")) if p else ""

    def tree(self, rows):
        r = {}
        for p, c in rows:
            q = self.path(p)
            r[q] = "D" if c == "D" else self.c[c]
            if c == "D" and self.ballast:
                r.update((q + "/" + x, y) for x, y in self.ballast.items())
        return r


    def tree_below(self, rows, p):
        """rows are relative to the directory p of the model"""
        r = self.tree([tuple(x) for x in rows])
        if p and self.ballast:
            r.update(self.ballast)
        return r


def parse_diff(out):
    """status/compare output -> (added, deleted, modified) sets of paths (trailing / removed)"""
    res = {"added": [], "deleted": [], "modified": []}
    cur = None
    for l in out.split("\n"):
        if l in ("added:", "deleted:", "modified:"):
            cur = l[:-1]
        elif cur and l.startswith("  "):
            p = l[2:]
            res[cur].append(p[:-1] if p.endswith("/") else p)
        elif l.startswith("HEAD:") or l == "":
            pass
        else:
            cur = None
            res.setdefault("other", []).append(l)
    return res
