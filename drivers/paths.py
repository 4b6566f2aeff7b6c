"""Finds, creates and removes elements by paths, and reports paths"""
import os, tempfile
from common import main, limit, WORK


class Doc:
    """ The document, with its elements numbered as they come up """
    def __init__(self, l, prefixes):
        self.l, self.prefixes = l, prefixes
        self.els = []

    def name(self, x):
        for u, p in self.prefixes.items():
            if x.startswith("{%s}" % u): return p + ":" + x[len(u) + 2:]
        return x

    def num(self, e):
        for i, x in enumerate(self.els):
            if x is e: return i + 1
        return 0

    def dump(self):
        def walk(e):
            if not self.num(e): self.els.append(e)
            for c in e: walk(c)
            for x in getattr(e, "alternates", {}).values(): walk(x)
        walk(self.l.root)
        def one(e):
            return {"g": self.name(e.tag), "a": [[self.name(k), v] for k, v in e.attrib.items()], "t": e.text or "", "k": [self.num(c) for c in e],
                    "z": [{"n": n, "i": self.num(x)} for n, x in getattr(e, "alternates", {}).items()]}
        return [one(e) for e in self.els]

    def below(self):
        def walk(e):
            yield e
            for c in e: yield from walk(c)
        return list(walk(self.l.root))


def ids(d, es): return [d.num(e) for e in es]


def apply(d, o):
    l, kw = d.l, {}
    if o["base"] > 1: kw["base"] = d.els[o["base"] - 1]
    if o["md"]: kw.update(matchdraft=o["md"], draft=o["draft"] or None, alt=o["alt"] or None)
    if o["op"] == "findall" and o["md"]: r = l.ensure_path(o["p"], dontadd=True, **kw)
    elif o["op"] == "findall": r = l.findall(o["p"], *([kw["base"]] if kw else []))
    elif o["op"] == "find":
        r = l.find(o["p"], *([kw["base"]] if kw else []))
        r = [] if r is None else [r]
    elif o["op"] == "remove": r = l.remove_path(o["p"], **kw)
    else:
        for k in ("text", "draft", "before"):
            if o[k]: kw[k] = o[k]
        r = l.ensure_path(o["p"], **kw)
    doc = d.dump()
    return {"ids": ids(d, r), "doc": doc}


def run(case):
    from sldr.ldml import Ldml
    with tempfile.NamedTemporaryFile(dir=WORK, suffix=".xml") as f:
        f.write(case["xml"].encode("utf-8"))
        f.flush()
        l = Ldml(f.name, usedrafts=case["drafts"])
    d = Doc(l, case["prefixes"])
    res = {"doc": d.dump(), "got": [], "report": []}
    for o in case["ops"]:
        o["base"], o["used"] = 1, "full"
        if o["basep"]:
            b = l.find(o["basep"])
            if b is not None and d.num(b): o["base"], o["used"] = d.num(b), "path"
        o["p"] = o["ps"][o["used"]]
        x = limit(apply, d, o)
        x["base"], x["used"] = o["base"], o["used"]
        res["got"].append(x)
        if "ids" not in x: return res
    def report():
        out = []
        for e in d.below()[1:]:
            p = l.as_xpath(e, usedrafts=case["drafts"])
            first = l.find(p)
            out.append({"id": d.num(e), "p": p, "all": ids(d, l.findall(p)), "first": 0 if first is None else d.num(first)})
        return out
    res["report"] = limit(report)
    return res


if __name__ == '__main__':
    main(run)
