"""Reads, writes and flattens Unicode sets"""
import itertools
from common import main

UCD = []


def read(s):
    from sldr import UnicodeSets as U
    r = U.us2list(s)
    return {"neg": bool(getattr(r, "negative", False)), "members": sorted(r)[:300]}


def run(case):
    from sldr import UnicodeSets as U
    if case["what"] == "read": return {"got": read(case["text"])}
    if case["what"] == "flatten": return {"strings": sorted(set(itertools.islice(U.flatten(case["text"], normal=case["normal"]), 20000)))}
    if not UCD:
        from sldr.ldml_exemplars import UCD as X
        UCD.append(X())
    s = U.list2us(case["strings"], UCD[0])
    return {"text": s, "got": read(s)}


if __name__ == '__main__':
    main(run)
