"""Flattens and unflattens a locale of a directory of documents"""
import io, os, shutil
from common import main, WORK
from norm import write


def run(case):
    from sldr.ldml_merge import flattenlocale
    d = os.path.join(WORK, "locales%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    try:
        for f, x in case["files"].items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as fh: fh.write(x)
        dirs = [os.path.join(d, x) for x in case["dirs"]]

        def out(l):
            l.normalise()
            return write(l)
        l = case["name"]
        got = flattenlocale(l, dirs=dirs, skipstubs=case["stubs"], changed=set(case["changed"]))
        res = {"flat": out(got) if got is not None else ""}
        if case["rev"]:
            f = lambda x, rev: out(flattenlocale(io.BytesIO(x.encode("utf-8")), dirs=dirs, rev=rev, fname=l))
            res["unflat"] = f(res["flat"], 'r')
            res["again"] = f(res["unflat"], 'f')
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main(run)
