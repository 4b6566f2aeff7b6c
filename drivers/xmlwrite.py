"""Reads, edits and writes documents one after another, in one process and each in its own"""
import io, json, os, sys
from xml.etree import ElementTree as et
from common import main, WORK


def memory(e):
    def qn(x):
        return x[1:].split("}", 1) if x[:1] == "{" else ["", x]
    g = qn(e.tag)
    return {"u": g[0], "l": g[1], "a": [qn(k) + [v] for k, v in e.items()], "t": e.text or "", "k": [memory(c) for c in e]}


def load(doc):
    from sldr.ldml import Ldml
    l = Ldml(io.BytesIO(doc["xml"].encode("utf-8")), usedrafts=doc["ud"])
    n = list(l.root.iter())
    for ed in doc["edits"]:
        e = n[ed[1] % len(n)]
        if ed[0] == "text": e.text = ed[2]
        elif ed[0] == "attr": e.set(ed[2], ed[3])
        elif ed[0] == "com": e.comments = getattr(e, "comments", []) + [ed[2]]
        elif ed[0] == "add": l.addnode(e, ed[2], text=ed[3])
    return l


def write(l, doc, top, save):
    if doc["mode"] == "et":
        from sldr.ldml import etwrite
        o = []
        etwrite(l, o.append, topns=top)
        return "".join(o)
    if save:
        fn = os.path.join(WORK, "out-%d.xml" % os.getpid())
        l.save_as(fn, topns=top)
        with open(fn, encoding="utf-8", newline="") as f:
            r = f.read()
        os.unlink(fn)
        return r
    o = []
    l.serialize_xml(o.append, topns=top)
    return "".join(o)


def get(doc):
    return et.fromstring(doc["xml"]) if doc["mode"] == "et" else load(doc)


def forked(fn):
    """ result of fn in a new process """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                s = json.dumps(fn())
            except Exception as e:
                s = json.dumps({"exc": repr(e)[:300]})
            with os.fdopen(w, "w") as f:
                f.write(s)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {"exc": "process died"}


def history(case):
    objs = {}
    res = []
    for i, top, again, save in case["steps"]:
        doc = case["docs"][i]
        try:
            if not again or i not in objs:
                objs[i] = get(doc)
            l = objs[i]
            m = memory(l if doc["mode"] == "et" else l.root)
            res.append({"mem": m, "out": write(l, doc, top, save)})
        except Exception as e:
            res.append({"exc": repr(e)[:300]})
    return res


def run(case):
    steps = forked(lambda: history(case))
    alone = {}
    for i, top, again, save in case["steps"]:
        if (i, top) not in alone:
            doc = case["docs"][i]
            alone[(i, top)] = forked(lambda: write(get(doc), doc, top, False))
    return {"steps": steps, "alone": [alone[(x[0], x[1])] for x in case["steps"]]}


if __name__ == '__main__':
    import sldr.ldml
    main(run)
