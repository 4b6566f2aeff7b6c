"""Shared by the checks on documents"""
import copy
import ldmltree as L

CDATA = ["cr", "{%s}note" % L.SIL, "{%s}text" % L.SIL]


def group(n):
    keys = L.Ref.get().keys.get(n["g"], ())
    return (n["g"], tuple(sorted((k, v.lower()) for k, v in n["a"] if k in keys and k not in ("draft", "alt"))))


def shuffled(n, r):
    """ the same document with distinguishable siblings in another order """
    m = copy.deepcopy(n)

    def rec(x):
        for c in x["k"]: rec(c)
        slots = {}
        for c in x["k"]: slots.setdefault(group(c), []).append(c)
        order = [group(c) for c in x["k"]]
        r.shuffle(order)
        x["k"] = [slots[g].pop(0) for g in order]
    rec(m)
    return m


def noend(n):
    for x in L.walk(n):
        x["e"] = []
    return n


def asread(n):
    """ without the text mixed with elements, which isn't read """
    for x in L.walk(n):
        if x["k"]: x["t"] = ""
    return n


def failed(r):
    return "hang" if "hang" in r else "crash" if "crash" in r else "exception"


def validate(c, module, traces, trees, texts=(), chunk=400, timeout=900, more=None):
    """ Encodes the named tree fields (and fields that are lists of strings) and validates """
    out = []
    for o in range(0, len(traces), chunk):
        ts = traces[o:o + chunk]
        enc = L.Encoder()
        enc.addstr(*CDATA)
        for t in ts:
            for f in trees:
                x = t.get(f)
                if isinstance(x, list):
                    for y in x: enc.add(y)
                elif x: enc.add(x)
            for f in texts: enc.addstr(*t.get(f, []))
        enc.close()
        es = []
        for t in ts:
            e = {k: v for k, v in t.items() if not k.endswith("_")}
            if more: e.update(more(t, enc.ids))
            for f in trees:
                x = t.get(f)
                if isinstance(x, list): e[f] = [enc.tree(y) for y in x]
                elif x: e[f] = enc.tree(x)
                else: e[f] = {"g": 0}
            for f in texts: e[f] = [enc.ids[s] for s in t.get(f, [])]
            e["cdata"] = [enc.ids[s] for s in CDATA]
            es.append(e)
        out += c.validate(module, es, data=enc.data(), chunk=chunk, timeout=timeout)
    return out
