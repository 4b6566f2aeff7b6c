"""P16: paths"""
import ldmltree as L
import treelib as TL
import vf

VALUES = L.VALUES + ["America/New_York", "Africa/Abidjan", "[a-z]", "x=y", "a]b", "a/b[@c='d']", " sp ", "//", "x[1]", '["', "...", "@type", "1/2"]
PREFIXES = {L.SIL: "sil", "http://www.w3.org/XML/1998/namespace": "xml"}


def show(path, r):
    o = []
    for st in path:
        s = st["g"]
        for x in st["tests"]:
            if x["has"]: s += "[@%s]" % x["k"]
            else:
                q = r.choice([q for q in "\"'" if q not in x["v"]])
                s += "[@%s%s%s%s%s]" % (x["k"], r.choice(["=", "=", "=", " = "]), q, x["v"], q)
        o.append(s)
    return "/".join(o)


def parents(doc):
    res = {}
    def walk(n, up):
        for c in n["k"]:
            res[id(c)] = up + [c]
            walk(c, up + [c])
    walk(doc, [])
    return list(res.values())


def step(g, attrs, r, drafts, ensure):
    """ for an element with these attributes, or nearly """
    ref = L.Ref.get()
    keys = ref.keys.get(g, set()) - {"draft", "alt"}
    tests = []
    for k, v in attrs:
        if drafts and k not in keys or "'" in v and '"' in v: continue
        x = r.random()
        if x < .5: tests.append({"k": L.local(k), "v": v, "has": False})
        elif x < .6: tests.append({"k": L.local(k), "v": r.choice([v + "x", v[1:], v.upper(), "zz"] + VALUES), "has": False})
        elif x < .65 and not ensure: tests.append({"k": L.local(k), "v": "", "has": True})
    have = {x["k"] for x in tests}
    if r.random() < .15:
        more = [L.local(k) for k in sorted(keys)] if drafts else ["type", "sil:x", "xml:lang", "foo"]
        more = [k for k in more if k not in have]
        if more: tests.append({"k": r.choice(more), "v": r.choice(VALUES + [""]), "has": False})
    r.shuffle(tests)
    tests = [x for x in tests if not ("'" in x["v"] and '"' in x["v"])]
    return {"g": L.local(g), "tests": tests}


def path(chain, r, drafts, ensure):
    ref = L.Ref.get()
    res = []
    for i, n in enumerate(chain):
        g = n["g"]
        if r.random() < .05: g = r.choice(list(ref.order.get(chain[i - 1]["g"] if i else "ldml", ())) + ["new", "{%s}new" % L.SIL])
        res.append(step(g, n["a"] if g == n["g"] else [], r, drafts, ensure))
        if r.random() < .03: res.append({"g": ".", "tests": []})
    while res[-1]["g"] == ".": res.pop()
    if r.random() < .25:
        for i in range(r.randint(1, 2)):
            g = r.choice(list(ref.order.get(chain[-1]["g"], ())) + ["new", "{%s}new" % L.SIL])
            res.append(step(g, [], r, drafts, ensure))
    return res


def match(o, doc, r):
    """ wants alternates """
    ref = L.Ref.get()
    uid = any(x["g"] == "{%s}identity" % L.SIL and any(k == "uid" for k, v in x["a"]) for x in L.walk(doc))
    o["md"] = "draft" if uid else r.choice(["draft", "alt", "both"])
    chains = [x for x in parents(doc) if any(k == "alt" for k, v in x[-1]["a"])]
    a = {}
    if chains and r.random() < .8:
        chain = r.choice(chains)
        a = dict((k, v) for k, v in chain[-1]["a"])
        o["path"] = o["full"] = [{"g": L.local(x["g"]), "tests": [{"k": L.local(k), "v": v, "has": False} for k, v in x["a"] if k in ref.keys.get(x["g"], set()) - {"draft", "alt"} and not ("'" in v and '"' in v)]} for x in chain]
        o["basep"] = ""
    if o["md"] != "draft": o["alt"] = r.choice([a.get("alt", ""), r.choice(["", "proposed", "short", "x-y", "Variant"])])
    if o["md"] != "alt": o["draft"] = r.choice([a.get("draft") or "approved", r.choice(L.DRAFTS[:5])])


def ops(doc, r, drafts):
    chains = parents(doc)
    res = []
    for i in range(r.randint(3, 8)):
        if res and r.random() < .35:
            # what has been done, again or undone
            o = dict(r.choice(res))
            o["op"] = r.choice(["ensure", "ensure", "find", "findall", "remove"])
            if o["op"] == "ensure" and any(x["has"] for st in o["path"] + o["full"] for x in st["tests"]): o["op"] = "findall"
            if o["op"] in ("ensure", "find"): o["md"] = o["alt"] = ""
            if o["op"] in ("findall", "remove") and drafts and not o["md"] and r.random() < .3: match(o, doc, r)
            res.append(o)
            continue
        op = r.choice(["ensure"] * 4 + ["find", "findall", "remove"])
        chain = r.choice(chains)
        full = path(chain, r, drafts, op == "ensure")
        o = {"op": op, "full": full, "path": full, "basep": "", "text": "", "draft": "", "before": "", "md": "", "alt": ""}
        if len(chain) > 1 and r.random() < .3:
            n = r.randint(1, len(chain) - 1)
            b = [step(x["g"], x["a"], r, drafts, True) for x in chain[:n]]
            if not any(x["has"] for st in b for x in st["tests"]):
                o["basep"] = show(b, r)
                o["path"] = path(chain[n:], r, drafts, op == "ensure")
        if op in ("findall", "remove") and drafts and r.random() < .5: match(o, doc, r)
        if op == "ensure":
            if not drafts and r.random() < .3: o["text"] = r.choice(["a", "b", chain[-1]["t"]])
            if r.random() < .2 and not o["text"]: o["draft"] = r.choice(L.DRAFTS[:5])
            if r.random() < .2: o["before"] = r.choice([x["g"] for x in (chain[-2]["k"] if len(chain) > 1 else doc["k"])])
            if o["before"].startswith("{"): o["before"] = ""
            # draft can't be both tested and given
            if o["draft"] and any(x["k"] == "draft" for st in o["path"] + o["full"] for x in st["tests"]): o["draft"] = ""
        elif op == "remove" and all(st["g"] == "." for st in o["path"]): continue
        res.append(o)
    return res


def run(c):
    r = c.rng
    got = c.model("PathMC", "CONSTANTS\n MaxOps = %d\n Texts = {%s}\n Emit = TRUE\n" % c.n((2, '"", "x"'), (2, '"", "x", "y"')),
                  invariants=["Once", "Safe", "Sparing", "Gone", "Tree", "Out"])
    jobs = []
    def model(d):
        def rec(i): return L.node(d[i - 1]["g"], d[i - 1]["a"], k=[rec(x) for x in d[i - 1]["k"]])
        return rec(1)
    for g in r.sample(got, min(len(got), c.n(5000, 40000))):
        jobs.append({"tree": model(g["doc"]), "drafts": False, "xml": L.render(model(g["doc"])),
                     "ops": [{**o, "full": o["path"], "basep": ""} for o in g["ops"]]})
    nmodel = len(jobs)
    for i in range(c.n(2500, 40000)):
        drafts = r.random() < .4
        g = L.Gen(r, size=r.choice([5, 12, 25]), values=VALUES, pdraft=.3 if drafts else .15, palt=.2 if drafts else .05, pcom=0, texts=r.choice([L.TEXTS, ["a", "b"]]))
        doc = g.doc()
        jobs.append({"tree": doc, "drafts": drafts, "xml": L.render(doc), "ops": ops(doc, r, drafts)})
    for j in jobs:
        j["prefixes"] = PREFIXES
        for o in j["ops"]: o["ps"] = {"full": show(o["full"], r), "path": show(o["path"], r)}
    res = c.drive("paths", [{k: v for k, v in j.items() if k != "tree"} for j in jobs])
    ref = L.Ref.get()
    keys = {L.local(g): sorted(L.local(a) for a in ks if a != "draft") for g, ks in ref.keys.items()}
    ts = []
    for j, x in zip(jobs, res):
        if c.isfailure(x):
            ts.append({"doc": [{"g": "ldml", "a": [], "t": "", "k": [], "z": []}], "ops": [], "got": [], "report": [], "keys": [], "reportfailed": TL.failed(x)})
            continue
        os, gs = [], []
        for o, y in zip(j["ops"], x["got"]):
            os.append({**{k: o[k] for k in ("op", "text", "draft", "before", "md")}, "alt": o["alt"] or "proposed", "path": o[y["used"]], "base": y["base"]})
            bad = TL.failed(y) if c.isfailure(y) else ""
            gs.append({"failed": bad, "ids": [], "doc": []} if bad else {"failed": "", "ids": y["ids"], "doc": y["doc"]})
        last = gs[-1]["doc"] if gs else x["doc"]
        bad = TL.failed(x["report"]) if c.isfailure(x["report"]) else ""
        ts.append({"doc": x["doc"], "ops": os, "got": gs, "keys": [{"known": e["g"] in keys, "names": keys.get(e["g"], [])} for e in last],
                   "report": [] if bad else [{k: y[k] for k in ("id", "all", "first")} for y in x["report"]], "reportfailed": bad})
    ver = c.validate("PathTrace", ts, chunk=500)
    c.report([(v[2], {"case": {k: v for k, v in j.items() if k != "tree"}, "result": x, "step": v[1]}) for j, x, v in zip(jobs, res, ver) if not v[0]])
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.sample({k: jobs[0][k] for k in ("xml", "ops")}); c.sample({k: jobs[-1][k] for k in ("xml", "ops")})
    c.assumptions += ["paths name the elements of every step; those that are created say the values of their attributes, which distinguish elements if drafts are used"]
