"""Resolves the aliases of a document"""
import contextlib, io, os
from common import main, WORK


def dump(e):
    return {"g": e.tag, "a": [list(x) for x in e.attrib.items()], "t": (e.text or "").strip() if not len(e) else "", "k": [dump(c) for c in e]}


def misplaced(root):
    """ How many elements are in several places or have another parent """
    seen, n, todo = set(), 0, [(root, None)]
    while todo:
        e, p = todo.pop()
        if id(e) in seen or (p is not None and e.parent is not p): n += 1
        if id(e) in seen: continue
        seen.add(id(e))
        todo += [(c, e) for c in e]
    return n


def run(case):
    from sldr.ldml import Ldml
    from sldr.ldml_merge import LdmlMerge, flattenlocale
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        if case["how"] == "flatten":
            d = os.path.join(WORK, "alias%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "qaa.xml")
            with open(f, "w", encoding="utf-8") as fh: fh.write(case["xml"])
            before = dump(LdmlMerge(f).root)
            try: l = flattenlocale("qaa", dirs=[d], resolveAlias=True)
            finally: os.remove(f)
        else:
            l = (LdmlMerge if case["how"] == "merge" else Ldml)(io.BytesIO(case["xml"].encode("utf-8")), usedrafts=case["drafts"])
            before = dump(l.root)
            l.resolve_aliases()
    return {"before": before, "got": dump(l.root), "reports": o.getvalue().count("loop"), "shared": misplaced(l.root)}


if __name__ == '__main__':
    main(run)
