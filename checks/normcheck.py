"""P02 and P03: documents through the code and the normal form of the specification"""
import copy, json
import ldmltree as L
import treelib as TL

WORLD = {1: "language", 2: "unknown", 3: "special"}


def modelcases(c, what):
    """ All small families of siblings, judged by the specification and then by the code """
    n = 2 if c.quick else 3
    got = c.model("NormMC", "CONSTANTS\n MaxKids = %d\n Emit = TRUE\n" % (2 if c.quick else 3),
                  invariants=["Good"])
    lim = c.n(700, 6000)
    if len(got) > lim:
        got = c.rng.sample(got, lim)
    cases = []
    names = {1: ("language", "x"), 2: ("unknown", "x"), 3: ("special", "x")}
    for g in got:
        kids = []
        for k in g["kids"]:
            a = []
            if k["ty"]: a.append(["type", ["", "aa", "Ab", "ab"][k["ty"]]])
            if k["d"]: a.append(["draft", ["", "approved", "unconfirmed", "tentative"][k["d"]]])
            if k["alt"]: a.append(["alt", ["", "x", "y"][k["alt"]]])
            kids.append(L.node(["", "language", "unknown", "special"][k["g"]], a, "t%d" % k["t"]))
        cases.append((L.node("ldml", k=[L.node("localeDisplayNames", k=[L.node("languages", k=kids)])]), True, False, [], "model"))
    return cases


def gencases(c, n):
    r = c.rng
    cases = []
    for i in range(n):
        ud = r.random() < .75
        arrows = r.random() < .25
        g = L.Gen(r, size=r.choice([6, 12, 25, 40]), parrow=.25 if arrows else 0, pdraft=r.choice([.05, .3]),
                  pdup=r.choice([.2, .5]), punk=r.choice([0, .05]))
        d = g.doc()
        if arrows: TL.noend(d)
        cases.append((d, ud, arrows and r.random() < .3, ["end"] if r.random() < .1 and not arrows else [], "random"))
    return cases


def run(c, what):
    cases = modelcases(c, what) + gencases(c, c.n(1500, 20000))
    r = c.rng
    jobs = []
    for d, ud, up, post, src in cases:
        stray = not any(x["t"] == L.ARROW for x in L.walk(d))
        xml = [L.render(d, post, r, stray=stray)]
        if what == "order":
            xml.append(L.render(d, post, r, stray=stray, breaks=True))
            xml.append(L.render(d, post))
            if not any(x["e"] for x in L.walk(d)):
                xml.append(L.render(TL.shuffled(d, r), post, r, stray=stray, breaks=True))
                xml.append(L.render(TL.shuffled(d, r), post, r, stray=stray, breaks=True))
        jobs.append({"xml": xml, "ud": ud, "up": up})
    res = c.drive("norm", jobs)
    traces = []
    for (d, ud, up, post, src), j, x in zip(cases, jobs, res):
        t = {"what": what, "in": TL.asread(L.parse(j["xml"][0])[0]), "ud": ud, "up": up, "failed": "", "same": True, "variants": [], "post": post}
        if c.isfailure(x):
            t["failed"] = TL.failed(x)
        else:
            try:
                t["out"], t["outpost"] = L.parse(x["outs"][0])
                t["same"] = x["again"] == x["outs"][0] == x["mem"]
                t["variants"] = [o == x["outs"][0] for o in x["outs"][1:]]
            except Exception as e:
                t["failed"] = "not well-formed"
        traces.append(t)
    ver = TL.validate(c, "NormTrace", traces, ["in", "out"], ["post", "outpost"])
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(jobs, res, ver) if not v[0]])
    c.cov["model_documents_replayed"] = sum(1 for x in cases if x[4] == "model")
    c.cov["random_documents"] = sum(1 for x in cases if x[4] == "random")
    c.cov["nodes"] = sum(sum(1 for y in L.walk(x[0])) for x in cases)
    c.sample(jobs[0]["xml"][0]); c.sample(jobs[-1]["xml"][0])
    c.assumptions += ["alternates (alt attributes) occur on leaf elements only, one sil:identity per document"]
