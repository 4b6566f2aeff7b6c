"""Reads and writes documents"""
import io
from common import main


def write(l, **k):
    o = []
    l.serialize_xml(o.append, **k)
    return "".join(o)


def run(case):
    from sldr.ldml import Ldml
    kw = {"usedrafts": case["ud"], "uparrows": case.get("up", False)}
    outs = []
    for x in case["xml"]:
        outs.append(write(Ldml(io.BytesIO(x.encode("utf-8")), **kw)))
    again = write(Ldml(io.BytesIO(outs[0].encode("utf-8")), **kw))
    # a document normalised again in memory
    l = Ldml(io.BytesIO(case["xml"][0].encode("utf-8")), **kw)
    l.normalise(l.root, usedrafts=case["ud"])
    mem = write(l)
    if mem == outs[0]: mem = write(l)       # nor does writing it change it
    return {"outs": outs, "again": again, "mem": mem}


if __name__ == '__main__':
    main(run)
