"""Reads language tags, and lists of equivalent ones"""
import json, os, tempfile
from common import main, WORK


def forked(fn, *a):
    """ The tables are kept once read, so each file is read by its own process """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try: res = fn(*a)
            except Exception as e: res = {"exc": "%s: %s" % (type(e).__name__, e)}
            os.close(r)
            with os.fdopen(w, "w") as f: json.dump(res, f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s)


def look(path, tags):
    from sldr.langtags_full import LangTags
    lts = LangTags(alltags=path) if path else LangTags()
    ids, res = [], []
    for t in tags:
        e = lts.get(t)
        if e is None: res.append([0, ""]); continue
        for n, x in enumerate(ids):
            if x is e: break
        else:
            ids.append(e)
            n = len(ids) - 1
        res.append([n + 1, repr(e)])
    return {"looked": res}


def tag(t):
    from sldr.langtags_full import LangTag
    x = LangTag(t)
    return {"lang": x.lang or "", "script": x.script or "", "region": x.region or "", "variants": list(x.variants or []),
            "exts": [[k, list(v)] for k, v in (x.extensions or {}).items()], "full": repr(x), "short": str(x)}


def run(case):
    import sldr.langtags_full
    if "tag" in case:
        a = tag(case["tag"])
        return {"got": [a, tag(a["full"])]}
    if case["file"] is None: return forked(look, None, case["tags"])
    with tempfile.NamedTemporaryFile("w", dir=WORK, suffix=".txt", encoding="utf-8") as f:
        f.write(case["file"])
        f.flush()
        return forked(look, f.name, case["tags"])


if __name__ == '__main__':
    main(run)
