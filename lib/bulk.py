"""Large repositories, written through the store interface in one transaction."""
import b3, harness, snap


class Bulk:
    def __init__(self, binp, dbfile):
        self.h = harness.Harness(binp)
        self.h.ask("A", "open", dbfile)
        self.h.ask("A", "begin")

    def put(self, raw):
        ok, v = self.h.ask("A", "put", raw=[raw.hex()])
        if not ok:
            raise ValueError(v)
        return bytes.fromhex(v)

    def file(self, data):
        k = self.put(snap.enc_obj(data, [], "FileBlob"))
        return self.put(snap.enc_obj(b3.cbor_encode({"size": len(data), "itemtype": "File", "children_names": []}), [k], "FSItemFile"))

    def dir(self, items):
        names = sorted(items)
        return self.put(snap.enc_obj(b3.cbor_encode({"size": len(names), "itemtype": "Dir", "children_names": names}),
                                     [items[n] for n in names], "FSItemDir"))

    def commit(self, tree, parents, msg):
        return self.put(snap.enc_obj(b3.cbor_encode({"message": msg, "extra": {}}), [tree] + parents, "Commit"))

    def push(self, ref, rem, key):
        ok, v = self.h.ask("A", "push", ref, raw=["-" if rem is None else "+" + rem.encode().hex(), key.hex()])
        if not ok:
            raise ValueError(v)

    def done(self):
        ok, v = self.h.ask("A", "commit")
        self.h.stop()
        if not ok:
            raise ValueError(v)
