"""The resolved program model: merged output of the extractor."""
import json
import re


class Model:
    def __init__(self):
        self.fn = {}
        self.callee = {}
        self.rec = {}
        self.tus = []
        self.by_q = {}

    def load(self, path, tu):
        d = json.load(open(path))
        # variable ids are per TU: make function bodies self-contained by
        # qualifying nothing (frames separate functions); globals carry names.
        for k, f in d["functions"].items():
            if k not in self.fn:
                f["id"] = k
                f["tu"] = tu
                self.fn[k] = f
        for k, c in d["callees"].items():
            if k not in self.callee or (c.get("hasbody") and not self.callee[k].get("hasbody")):
                self.callee[k] = c
                c["id"] = k
        for k, r in d["records"].items():
            if k not in self.rec:
                self.rec[k] = r
        self.tus.append((tu, d["errors"]))

    def finish(self):
        self.by_q = {}
        for k, f in self.fn.items():
            self.by_q.setdefault(f["q"], []).append(f)

    def methods(self, cls):
        """defined functions that are members of record `cls` (exact name)"""
        return [f for f in self.fn.values() if f.get("cls") == cls]

    def method(self, cls, name, pred=None):
        return [f for f in self.methods(cls) if f["n"] == name and (pred is None or pred(f))]

    def all_fields(self, cls):
        """fields incl. in-model bases, list of (name, fieldrec, owner)"""
        out = []
        r = self.rec.get(cls)
        if not r:
            return out
        for b in r["bases"]:
            out += self.all_fields(b["n"])
        for f in r["fields"]:
            out.append((f["n"], f, cls))
        return out

    def bases(self, cls):
        r = self.rec.get(cls)
        out = []
        if r:
            for b in r["bases"]:
                out.append(b["n"])
                out += self.bases(b["n"])
        return out


_M = re.compile(r"Eigen::(?:Matrix|Array)<([^<>]*(?:<[^<>]*>)?), (-?\d+), (-?\d+)")


def dims(t):
    """(rows, cols) of an Eigen matrix type string, None if not one; -1 dynamic"""
    m = _M.match(t.replace("const ", "").strip())
    if not m:
        return None
    return int(m.group(2)), int(m.group(3))
