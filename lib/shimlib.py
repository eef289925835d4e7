"""The LD_PRELOAD shim: parsing its log, turning it into a Disk.tla trace, rebuilding crash images."""
import json, os, shutil
import vlib

WOPS = ("write", "pwrite", "trunc", "sync", "unlink", "mkdir", "rmdir", "rename")


def parse(path, start=0):
    """[(n, op, a, b, res, path, data)] and the new end offset"""
    out = []
    if not os.path.exists(path):
        return out, start
    with open(path, "rb") as f:
        f.seek(start)
        txt = f.read()
    for l in txt.split(b"\n"):
        x = l.split(b" ")
        if len(x) != 7:
            continue
        out.append((int(x[0]), x[1].decode(), int(x[2]), int(x[3]), int(x[4]),
                    os.fsdecode(bytes.fromhex(x[5].decode())), b"" if x[6] == b"-" else bytes.fromhex(x[6].decode())))
    return out, start + len(txt)


class Trace:
    """operations below one directory as Disk.tla sees them"""

    def __init__(self, root, files=None):
        self.root = root
        self.ops = []            # for TLC
        self.data = {}           # id -> (inode, kind, off, data)
        self.order = {}          # inode -> [ids]
        self.paths = {}          # rel -> path index
        self.cur = {}            # rel -> inode
        self.dirs = set()
        self.n = 0
        self.marks = {}          # op index -> label
        for rel, content in (files or {}).items():
            self._create(rel)
            i = self._w(self.cur[rel], "w", 0, content)
            self.ops.append({"k": "sync", "f": self.cur[rel]})
        if files:
            self.ops.append({"k": "dsync", "ps": list(self.paths.values())})

    def _path(self, rel):
        if rel not in self.paths:
            self.paths[rel] = len(self.paths) + 1
        return self.paths[rel]

    def _create(self, rel):
        ino = len(self.order) + 1
        self.order[ino] = []
        self.cur[rel] = ino
        self.ops.append({"k": "ent", "p": self._path(rel), "f": ino})
        return ino

    def _w(self, ino, kind, off, data):
        self.n += 1
        self.data[self.n] = (ino, kind, off, data)
        self.order[ino].append(self.n)
        self.ops.append({"k": "w", "f": ino, "id": self.n})
        return self.n

    def mark(self, label):
        self.ops.append({"k": "mark"})
        self.marks[len(self.ops)] = label

    def add(self, recs):
        for n, op, a, b, res, path, data in recs:
            if res < 0 or not path.startswith(self.root):
                continue
            rel = os.path.relpath(path, self.root)
            if op == "open":
                if b and rel not in self.cur:
                    self._create(rel)
                elif b and a & os.O_TRUNC:
                    self._w(self.cur[rel], "t", 0, b"")
            elif op in ("write", "pwrite") and res > 0:
                if rel not in self.cur:         # made by another process, empty so far
                    self._create(rel)
                self._w(self.cur[rel], "w", a, data[:res])
            elif op == "trunc":
                if rel not in self.cur:
                    self._create(rel)
                self._w(self.cur[rel], "t", a, b"")
            elif op == "sync":
                if rel in self.cur:
                    self.ops.append({"k": "sync", "f": self.cur[rel]})
                else:
                    ps = [i for r, i in self.paths.items() if os.path.dirname(r) == ("" if rel == "." else rel)]
                    self.ops.append({"k": "dsync", "ps": ps})
            elif op == "unlink" and rel in self.cur:
                del self.cur[rel]
                self.ops.append({"k": "ent", "p": self._path(rel), "f": 0})
            elif op == "rename":
                to = os.path.relpath(os.fsdecode(data), self.root)
                if rel in self.cur:
                    ino = self.cur.pop(rel)
                    self.cur[to] = ino
                    self.ops.append({"k": "ent", "p": self._path(to), "f": ino})
                    self.ops.append({"k": "ent", "p": self._path(rel), "f": 0})
            elif op == "mkdir":
                self.dirs.add(rel)

    def images(self, c, at=(), tlc_kw=None):
        """[(op index, image)] from TLC"""
        t = {"inodes": max(1, len(self.order)), "paths": max(1, len(self.paths)), "ops": self.ops, "at": sorted(at)}
        r = vlib.tlc("DiskTrace", extra_files={"trace.json": json.dumps(t)}, workers=1, **(tlc_kw or {}))
        if c:
            c.model(r)
        out = []
        for e in r.emitted:
            for im in e["ims"]:
                out.append((e["i"], im))
        return out

    def _upto(self, i):
        if not hasattr(self, "_pos"):
            self._pos = {}
            for k, o in enumerate(self.ops):
                if o["k"] == "w":
                    self._pos[o["id"]] = k + 1
        return self._pos

    def files(self, i, im):
        """{rel: bytes} of an image taken after op i"""
        pos = self._upto(i)
        ent = im["e"]
        out = {}
        for rel, p in self.paths.items():
            ino = ent[p - 1] if isinstance(ent, list) else ent[str(p)]
            if not ino:
                continue
            fc = im["f"][ino - 1] if isinstance(im["f"], list) else im["f"][str(ino)]
            drop, torn = set(fc["d"]), fc["t"]
            buf = bytearray()
            for w in self.order[ino]:
                if pos[w] > i:
                    break
                if w in drop:
                    continue
                _, kind, off, data = self.data[w]
                if w == torn:
                    data = data[:max(1, len(data) // 2)]
                    if kind == "t":
                        continue
                if kind == "w":
                    if len(buf) < off:
                        buf.extend(b"\0" * (off - len(buf)))
                    buf[off:off + len(data)] = data
                elif off <= len(buf):
                    del buf[off:]
                else:
                    buf.extend(b"\0" * (off - len(buf)))
            out[rel] = bytes(buf)
        return out

    def write(self, i, im, dst):
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for rel, b in self.files(i, im).items():
            q = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b)
