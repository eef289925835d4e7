"""Observed repository states as GraphTrace.tla reads them."""
import json, sqlite3
import snap, vlib
from snap import Obj


class Observer:
    """a sequence of observations of one repository, as differences"""

    def __init__(self):
        self.id, self.seen, self.obs, self.why, self.refs = {}, {}, [], [], None

    def num(self, k):
        if k not in self.id:
            self.id[k] = len(self.id) + 1
        return self.id[k]

    def add(self, dump, why):
        new = []
        for k, v in dump.objs.items():
            if self.seen.get(k) == v:
                continue
            try:
                o = Obj(v)
                new.append({"k": self.num(k), "ty": o.type, "ch": [self.num(c) for c in o.keys]})
            except Exception as e:
                new.append({"k": self.num(k), "ty": "?", "ch": []})
        gone = [self.num(k) for k in self.seen if k not in dump.objs]
        refs = sorted({self.num(k) if k is not None else 0 for _, _, k in dump.reflog})
        if self.obs and not new and not gone and refs == self.refs:
            return
        self.seen, self.refs = dict(dump.objs), refs
        self.obs.append({"new": new, "gone": gone, "refs": refs})
        self.why.append(why)

    def look(self, dbfile, why):
        """what another process sees now; False when it is locked out"""
        try:
            d = snap.Dump(dbfile, timeout=0)
        except sqlite3.OperationalError:
            return False
        if d.bad:
            return False
        self.add(d, why)
        return True


def judge(c, res):
    """res: [(obs, why)]"""
    recs = [o for o, _ in res if o]
    why = [w for o, w in res if o]

    def one(part):
        return part[0], vlib.tlc("GraphTrace", extra_files={"graphs.json": json.dumps(recs[part[0]:part[1]])}, workers=1, heap="2g")
    n = len(recs)
    step = max(1, (n + vlib.NCPU - 1) // vlib.NCPU)
    for off, r in vlib.pmap(one, [(i, min(n, i + step)) for i in range(0, n, step)]):
        c.model(r)
        if sum(1 for e in r.emitted if e["k"] == 0) < min(step, n - off):
            raise vlib.ToolError("the judge did not finish")
        for e in r.emitted:
            if e["k"]:
                g = off + e["t"] - 1
                what = [x for x in ("closed", "roots", "decodes") if not e[x]]
                c.violate("observed state is not %s: %s" % (what, str(why[g][e["k"] - 1])[:300]),
                          {"why": why[g][:e["k"]][-12:], "observation": recs[g][e["k"] - 1]})
    c.count("observations", sum(map(len, recs)))
