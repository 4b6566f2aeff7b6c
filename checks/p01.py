"""P01: alternates"""
import json

NAMES = ["", "x", "y", "proposed"]


def norm(case):
    """ the case with absent values as the specification has them """
    return {
        "doc": [dict(i=i, t=v["t"], d=-1 if v.get("d") is None else v["d"], alt=v.get("alt") or "") for i, v in case.get("doc", [])],
        "uid": case.get("uid") or "", "defdraft": 3 if case.get("defdraft") is None else case["defdraft"],
        "usedraft": -1 if case.get("usedraft") is None else case["usedraft"],
        "ops": [dict(op=o["op"], i=o.get("i", "i1"), t=o.get("t", ""), d=-1 if o.get("d") is None else o["d"],
                     alt=o.get("alt") or "") for o in case["ops"]]}


def random_case(r, maxlen):
    dr = r.choice([[0, 2, 3, 4], [0, 1, 2, 3, 4, 5, 6], [2, 3, 4], [3, 5]])
    texts = ["t%d" % k for k in range(r.choice([2, 3, 5]))]
    items = r.choice([["i1"], ["i1", "i2"], ["i1", "i2", "i3"]])
    def draft(): return r.choice(dr + [None])
    doc = []
    for i in items:
        if r.random() < .6:
            vals = [{"t": r.choice(texts), "d": draft()}]
            for k in range(r.choice([0, 0, 1, 2, 3])):
                vals.append({"t": r.choice(texts), "d": draft(), "alt": r.choice([None, "x", "y", "proposed", "proposed-77"])})
            prim = vals[0]
            r.shuffle(vals)
            # the specification wants the unnamed value first
            vals = [v for v in vals if not v.get("alt")] + [v for v in vals if v.get("alt")]
            doc += [(i, v) for v in vals]
    ops = []
    for k in range(r.randint(1, maxlen)):
        o = {"op": r.choice(["add", "add", "ensure", "ensure", "change", "change", "reload", "save"]), "i": r.choice(items)}
        if o["op"] in ("add", "ensure"):
            o["t"] = r.choice(texts)
        if o["op"] != "reload" and o["op"] != "save":
            o["d"] = draft() if o["op"] != "change" else r.choice(dr)
            o["alt"] = r.choice([None, None, "x", "y", "proposed"])
        ops.append(o)
    return {"doc": doc, "ops": ops, "uid": r.choice([None, None, "77"]),
            "defdraft": r.choice([None, None, 0, 2, 5]), "usedraft": r.choice([None, None, None, 1, 4])}


def run(c):
    cases = []
    for docdraft, usedraft, texts, drafts, names, maxlen in (
            [(3, -1, 2, [2, 3, 4], ["", "x"], 4)] if c.quick else
            [(3, -1, 2, [2, 3, 4], ["", "x", "y"], 5), (0, -1, 2, [0, 1], ["", "x"], 6), (3, 1, 3, [0, 1, 5], ["", "x"], 4), (3, 6, 2, [0, 3, 6], ["", "x"], 5)]):
        const = "CONSTANTS\n Texts = {%s}\n Drafts = {%s}\n Names = {%s}\n DocDraft = %d\n UseDraft_ = %d\n MaxLen = %d\n Emit = TRUE\n" % (
            ", ".join('"t%d"' % i for i in range(texts)), ", ".join(map(str, drafts)), ", ".join('"%s"' % n for n in names),
            docdraft, 7 if usedraft == -1 else usedraft, maxlen)
        got = c.model("AltsMC", const, invariants=["TypeOK"],
                      properties=["OnlyBetterDisplaces", "ProposalKept", "NothingLost", "DemotedKept", "BestIsPrimary", "Ensured"],
                      view="View", workers=1)
        limit = c.n(6000, 60000)
        if len(got) > limit:
            got = c.rng.sample(got, limit)
        for g in got:
            cases.append({"ops": [{k: (None if v == -1 or v == "" and k == "alt" else v) for k, v in o.items()} for o in g["ops"]],
                          "defdraft": docdraft, "usedraft": None if usedraft == -1 else usedraft, "src": "model"})
    nmodel = len(cases)
    for i in range(c.n(4000, 60000)):
        cases.append(random_case(c.rng, c.n(12, 30) if i % 10 else 40))
    res = c.drive("alts", cases)
    traces = []
    for case, r in zip(cases, res):
        t = norm(case)
        t["failed"] = ""
        if c.isfailure(r):
            t["failed"] = "hang" if "hang" in r else "error"
            t["obs"], t["rets"] = [], []
        else:
            t["obs"], t["rets"] = r["obs"], r["rets"]
        traces.append(t)
    c.report([(v[2], {"case": case, "failed_at_operation": v[1], "result": r})
              for case, r, v in zip(cases, res, c.validate("AltsTrace", traces)) if not v[0]])
    c.cov["model_behaviours_replayed"] = nmodel
    c.cov["random_histories"] = len(cases) - nmodel
    c.cov["operations"] = sum(len(x["ops"]) for x in cases)
    c.sample(cases[0]); c.sample(cases[-1])
    c.assumptions += ["items are leaf elements; alternates of container elements are outside the model"]
