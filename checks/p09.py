"""P09: aliases"""
import re
import ldmltree as L
import treelib as TL


def steps(path):
    return [{"up": s == "..", "g": "" if s == ".." else s[0], "a": [] if s == ".." else [list(x) for x in s[1]]} for s in path]


def text(path):
    return "/".join(s if s == ".." else s[0] + "".join("[@%s='%s']" % tuple(a) for a in s[1]) for s in path)


def alias(path):
    return L.node("alias", [["source", "locale"], ["path", text(path)]])


def untext(s):
    """ the steps of a path """
    return [x if x == ".." else (re.match(r"(?:\{.*?\})?[^[]*", x).group(0), re.findall(r"\[@(.*?)='(.*?)'\]", x)) for x in re.findall(r"(?:\[[^]]*\]|\{[^}]*\}|[^/])+", s)]


def plain(n):
    """ for the specification """
    p = dict(map(tuple, n["a"])).get("path") if n["g"] == "alias" else None
    return dict(n, p=[] if p is None else steps(untext(p)), k=[plain(k) for k in n["k"]])


def frommodel(n):
    if n["p"]: return alias([".." if s["up"] else (s["g"], []) for s in n["p"]])
    return L.node(n["g"], t=n["t"], k=[frommodel(k) for k in n["k"]])


def relative(a, b, doc, r):
    """ a path from one element to another, by child numbers """
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    if i and r.random() < .1: i -= 1
    path = [".."] * (len(a) - i)
    n = doc
    for x in b[:i]: n = n["k"][x]
    for x in b[i:]:
        n = n["k"][x]
        ats = [q for q in n["a"] if "'" not in q[1] and '"' not in q[1] and "{" not in q[0]]
        path.append((n["g"], r.sample(ats, r.randint(0, len(ats))) if r.random() < .3 else ats))
    return path


def document(r):
    if r.random() < .5:
        tags = ["calendar", "months", "monthContext", "month", "eras"]
        def rec(d):
            k = [rec(d - 1) for i in range(r.randint(0, 3) if d else 0)]
            return L.node(r.choice(tags), [["type", r.choice("abc")]] if r.random() < .7 else [], t="" if k else r.choice(["", "x", "y"]), k=k)
        doc = L.node("ldml", k=[L.node("dates", k=[rec(3) for i in range(r.randint(1, 4))])])
    else:
        doc = L.Gen(r, size=r.choice([5, 10, 20]), pdraft=r.choice([0, .2]), palt=0, pcom=0, punk=.05).doc()
        for n in L.walk(doc): n["k"] = [k for k in n["k"] if k["g"] != "alias"]
    for n in L.walk(doc):   # alike siblings are what normalising is for
        seen = set()
        n["k"] = [k for k in n["k"] if not (TL.group(k) in seen or seen.add(TL.group(k)))]
        if n["k"]: n["a"] = [a for a in n["a"] if a[0] != "draft"]
        n["a"] = [a for a in n["a"] if a[0] != "alt"]
    where = []
    def rec(n, w):
        where.append(w)
        for i, k in enumerate(n["k"]): rec(k, w + [i])
    rec(doc, [])
    todo = []
    for i in range(r.choice([1, 1, 2, 2, 3, 5])):
        a, b = r.choice(where), r.choice(where)
        if (a[:len(b)] == b or b[:len(a)] == a) and r.random() < .9: continue
        p = relative(a, b, doc, r)
        if r.random() < .1: p = p + [("nosuch", [])]
        if not p: continue
        todo.append((a, p))
    for a, p in todo:
        n = doc
        for x in a: n = n["k"][x]
        n.setdefault("new", []).append(alias(p))
    for n in L.walk(doc):
        new = n.pop("new", [])
        if new and r.random() < .7: new = new[:1]
        if new and r.random() < .5: n["k"] = []
        for a in new: n["k"].insert(r.randint(0, len(n["k"])), a)
        if n["k"]: n["t"] = ""
    if r.random() < .05: r.choice(list(L.walk(doc)))["k"].append(L.node("alias", [["source", "xx"]]))
    for n in L.walk(doc):
        if n["k"]: n["t"] = ""
    return doc


NONE = {"g": "", "a": [], "t": "", "k": [], "p": []}


def run(c):
    r = c.rng
    got = c.model("AliasMC", "CONSTANTS\n MaxX = 2\n MaxY = %d\n Emit = TRUE\n" % c.n(1, 2), invariants=["Good"], properties=["Fewer"])
    docs = [frommodel(g) for g in got]
    nmodel = len(docs)
    docs += [document(r) for i in range(c.n(3000, 40000))]
    jobs = [{"xml": L.render(d, (), r, stray=False), "how": r.choice(["ldml", "merge", "flatten"]), "drafts": r.random() < .5} for d in docs]
    res = c.drive("alias", jobs)
    traces = []
    for d, x in zip(docs, res):
        t = {"doc": NONE, "failed": "", "got": NONE, "reports": 0, "shared": 0}
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else: t.update(reports=x["reports"], shared=x["shared"], doc=plain(x["before"]), got=plain(x["got"]))
        traces.append(t)
    ver = c.validate("AliasTrace", traces)
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(jobs, res, ver) if not v[0]])
    c.cov["model_documents_replayed"] = nmodel
    c.cov["random_documents"] = len(docs) - nmodel
    c.cov["with_loops"] = sum(1 for x in res if isinstance(x, dict) and x.get("reports"))
    c.cov["only_for_termination"] = sum(1 for v in ver if v[2] == "-")
    c.sample(jobs[0]); c.sample(jobs[-1])
    c.assumptions += ["paths don't lead into what other aliases bring in, or else only termination is judged", "what depends on a loop is only judged for termination and the report"]

