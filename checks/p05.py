"""P05: three way merges"""
import copy
import ldmltree as L
import treelib as TL

WORDS = ["Clash: ", " or ", " from ", "Attribute (", ") clash: ", "None"]
TEXTS = ["a", "b", "c", "x--y", "<&>", "two\nlines", "\u0915\u094d", "\u00a0", "-"]


def unique(n):
    """ without repeated items """
    seen = set()
    ks = []
    for k in n["k"]:
        i = (TL.group(k), dict((a, v) for a, v in k["a"]).get("alt"))
        if i in seen: continue
        seen.add(i)
        ks.append(k)
    n["k"] = [k for k in ks if not isalt(k)]
    for k in n["k"]: unique(k)
    if not n["k"] and not n["t"]: n["t"] = "a"
    return n


def items(n, path=()):
    for i, k in enumerate(n["k"]):
        yield n, k
        if k["g"] not in ("identity", "special"): yield from items(k)


def isalt(k):
    return any(a == "alt" for a, v in k["a"])


def attr(k, r, gone):
    nm = r.choice(["zz", "zz", "{%s}modified" % L.SIL])
    if nm in L.Ref.get().keys.get(k["g"], ()): nm = "zz"        # would be another item
    k["a"] = [a for a in k["a"] if a[0] != nm] + ([] if r.random() < gone else [[nm, r.choice(["1", "2", "3"])]])


def edit(d, r, n, hot=(), keep=()):
    for i in range(n):
        its = [(p, k) for p, k in items(d) if k["g"] != "identity" and k["g"] not in ("special",)]
        if not its: return
        p, k = r.choice(its)
        x = r.random()
        if isalt(k): continue
        if x < .55:
            ls = [z for z in its if not z[1]["k"] and z[1]["t"] and not isalt(z[1])]
            if hot and r.random() < .6: ls = [z for z in ls if TL.group(z[1]) in hot] or ls
            if ls: r.choice(ls)[1]["t"] = r.choice(TEXTS[:4])
        elif x < .75:
            if hot and r.random() < .7: k = r.choice([z for p, z in its if TL.group(z) in hot and not isalt(z)] or [k])
            attr(k, r, .35)
        else:
            g = TL.group(k)
            if g not in keep and not any(isalt(z) and TL.group(z) == g for z in p["k"]):      # alternates go with their item
                p["k"] = [z for z in p["k"] if TL.group(z) != g]
    trim(d)


def alternates(d, r, p):
    """ gives items alternates, which without drafts are items of their own """
    for x in list(L.walk(d)):
        if x["g"] in ("identity", "special", "collation"): continue
        for k in list(x["k"]):
            if "alt" not in L.Ref.get().keys.get(k["g"], ()): continue      # isn't known to take them
            if k["k"] or not k["t"] or isalt(k) or k["g"] in L.Ref.get().serial | {"alias", "identity", "collation"}: continue
            have = [dict(map(tuple, y["a"])).get("alt") for y in x["k"] if TL.group(y) == TL.group(k)]
            for a in ["proposed", "short"]:
                if a in have or r.random() > p: continue
                k2 = copy.deepcopy(k)
                k2["t"], k2["c"] = r.choice(TEXTS[:4]), []
                k2["a"].append(["alt", a])
                x["k"].insert(r.randint(0, len(x["k"])), k2)


def changealts(d, r):
    for x in L.walk(d):
        for k in x["k"]:
            if isalt(k) and r.random() < .3: k["t"] = r.choice(TEXTS[:4])
        x["k"] = [k for k in x["k"] if not isalt(k) or r.random() > .1]
    alternates(d, r, r.choice([0, .1]))


def draftalternates(d, r, p, side, never, had=()):
    """ gives items alternates with a status of their own; what they say tells which alternate they are """
    ref = L.Ref.get()
    for x in list(L.walk(d)):
        if x["g"] in ("identity", "special", "collation"): continue
        for k in list(x["k"]):
            if k["k"] or not k["t"] or isalt(k) or k["g"] in ref.serial | {"alias", "identity", "collation"}: continue
            if TL.group(k) in never: continue
            have = [dict(map(tuple, y["a"])).get("alt") for y in x["k"] if TL.group(y) == TL.group(k)]
            for a in ["proposed", "short"]:
                if a in have or (TL.group(k), a) in had or r.random() > p: continue
                k2 = copy.deepcopy(k)
                # both may have added the same
                k2["t"], k2["c"] = (a + "3", []) if r.random() < .2 else ("%s %s %d" % (a, r.choice("ab"), side), [])
                k2["a"] = [z for z in k2["a"] if z[0] != "draft"] + [["alt", a]]
                if not k2["t"].endswith("3") and r.random() < .8: k2["a"].append(["draft", r.choice(L.DRAFTS)])
                x["k"].insert(r.randint(0, len(x["k"])), k2)


def changedraftalts(b, ds, r):
    """ changes each alternate in one of the documents, or in both alike """
    for x, *ys in zip(*[list(L.walk(d)) for d in [b] + ds]):
        for i in reversed(range(len(x["k"]))):
            if not isalt(x["k"][i]) or r.random() < .4: continue
            w = r.choice(["gone", "says", "says"])
            for y in r.choice([ys, ys[:1], ys[1:]]):
                if w == "gone": del y["k"][i]
                else: y["k"][i]["t"] = x["k"][i]["t"][:-1] + "9"
    # those walked were as many, since alternates contain nothing


def trim(d):
    """ containers emptied go too """
    for k in d["k"]: trim(k)
    d["k"] = [k for k in d["k"] if k["k"] or k["t"] or k["g"] == "alias"]


def add(d, r, pool, ud):
    for path, sub in pool:
        if r.random() < .45: continue
        n = d
        for g in path:
            n = next((k for k in n["k"] if TL.group(k) == g), None)
            if n is None: break
        if n is None or not n["k"] or any(TL.group(k) == TL.group(sub) for k in n["k"]): continue
        m = copy.deepcopy(sub)
        for x in list(L.walk(m)):
            if not x["k"]:
                if r.random() < .4: x["t"] = r.choice(TEXTS[:4])
                if ud and r.random() < .3: x["a"] = [a for a in x["a"] if a[0] != "draft"] + [["draft", r.choice(L.DRAFTS)]]
            elif len(x["k"]) > 1 and r.random() < .4: x["k"].pop(r.randrange(len(x["k"])))
            if r.random() < .25: attr(x, r, .2)
        n["k"].insert(r.randint(0, len(n["k"])), m)


def family(r, ud):
    g = L.Gen(r, size=r.choice([5, 10, 20]), pdraft=r.choice([0, .2]) if ud else 0, palt=0, pcom=r.choice([0, .08]), texts=TEXTS, punk=.03)
    b = unique(g.doc())
    TL.noend(b)
    pool = []
    cont = [([], b)]
    def rec(n, path):
        for k in n["k"]:
            if k["k"] and k["g"] not in ("identity", "special"):
                cont.append((path + [TL.group(k)], k))
                rec(k, path + [TL.group(k)])
    rec(b, [])
    for i in range(r.choice([0, 1, 3, 5])):
        path, n = r.choice(cont)
        g.left = 6
        g.punk = 0
        tags = [t for t in (L.TOPS if n is b else L.Ref.get().order.get(n["g"], {})) if t not in ("identity", "alias", "special")] or ["unknown"]
        s = TL.noend(unique(g.gen(r.choice(tags), len(path) + 1)))
        if isalt(s) or not (s["k"] or s["t"]) or any(TL.group(k) == TL.group(s) for k in n["k"]): continue
        L.fix(s)
        for x in L.walk(s):
            x["c"] = []
            x["k"] = [k for k in x["k"] if not isalt(k) and k["g"] != "{%s}identity" % L.SIL]
            if x["k"]: x["a"] = [a for a in x["a"] if a[0] != "draft"]
        trim(s)
        if not (s["k"] or s["t"]): continue
        if any(path == q and TL.group(s) == TL.group(z) for q, z in pool): continue     # which might be of another kind
        pool.append((path, s))
    alts = r.random() < (.4 if ud else .7)
    keep, never = set(), set()              # alternates go with their item: those that may have them stay
    if alts and ud:
        for i in {TL.group(k) for k in L.walk(b)}: r.choice([keep, keep, never]).add(i)
    if alts: (draftalternates(b, r, .3, 0, never) if ud else alternates(b, r, .3))
    res = [b]
    hot = []        # what is edited often
    its = [k for p, k in items(b) if k["g"] not in ("identity", "special") and not isalt(k)]
    if its and r.random() < .6:
        for k in r.sample(its, min(len(its), r.choice([1, 2, 3]))):
            hot.append(TL.group(k))
            if r.random() < .7: attr(k, r, 0)
    had = {(TL.group(k), dict(map(tuple, k["a"])).get("alt")) for k in L.walk(b)}
    ds = [copy.deepcopy(b) for i in range(2)]
    if alts and ud: changedraftalts(b, ds, r)
    for i, d in enumerate(ds):
        if alts and not ud: changealts(d, r)
        for p, k in list(items(d)):
            if TL.group(k) not in hot or (ud and isalt(k)): continue
            if r.random() < .7: attr(k, r, .35)
            if not k["k"] and k["t"] and r.random() < .5: k["t"] = r.choice(TEXTS[:4])
        edit(d, r, r.choice([0, 1, 2, 4, 4, 6] if hot else [0, 1, 2, 4]), hot, keep)
        add(d, r, pool, ud)
        if alts and ud: draftalternates(d, r, r.choice([0, .1, .3]), i + 1, never, had)
        res.append(d)
    return res


def world(w):
    def leaf(g, v): return [L.node(g, t="v%d" % v)] if v else []
    inner = leaf("decimal", w["x"]) + leaf("group", w["y"])
    return L.node("ldml", k=[L.node("identity", k=[L.node("language", [["type", "aa"]])])] + leaf("fallback", w["l"])
                  + ([L.node("numbers", k=inner)] if inner else []))


def run(c):
    r = c.rng
    cases = []
    for ud, win in ((True, False), (True, True)) if c.quick else ((True, False), (True, True), (False, False)):
        got = c.model("MergeMC", "CONSTANTS\n MaxVal = 3\n Emit = TRUE\n Drafts = %s\n TheirDels = %s\n" % (str(ud).upper(), str(win).upper()),
                      invariants=["Good"])
        if len(got) > c.n(1200, 5000): got = r.sample(got, c.n(1200, 5000))
        for g in got:
            cases.append([world(g[x]) for x in ("b", "t", "o")] + [ud, win])
    nmodel = len(cases)
    for i in range(c.n(1600, 25000)):
        ud = r.random() < .85
        cases.append(family(r, ud) + [ud, r.random() < .15])
    jobs = []
    for b, t, o, ud, win in cases:
        jobs.append({"base": L.render(b, (), r, stray=False), "this": L.render(t, (), r, stray=False), "other": L.render(o, (), r, stray=False),
                     "ud": ud, "win": win, "script": ud and any(k["g"] == "identity" for k in t["k"]) and r.random() < c.n(60, 400) / len(cases)})
    res = c.drive("merge", jobs)
    traces = []
    for (b, t, o, ud, win), j, x in zip(cases, jobs, res):
        tr = {"ud": ud, "win": win, "failed": "", "words": WORDS}
        for n in ("this", "base", "other"):
            tr[n] = TL.asread(L.parse(j[n])[0])
        if c.isfailure(x): tr["failed"] = TL.failed(x)
        else:
            try: tr["out"] = L.parse(x["out"])[0]
            except Exception: tr["failed"] = "not well-formed"
        traces.append(tr)
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(jobs, res, TL.validate(c, "MergeTrace", traces, ["this", "base", "other", "out"], ["words"])) if not v[0]])
    c.cov["model_triples_replayed"] = nmodel
    c.cov["random_triples"] = len(cases) - nmodel
    c.cov["through_the_script"] = sum(1 for j in jobs if j["script"])
    c.sample(jobs[0]); c.sample(jobs[-1])
    c.assumptions += ["no repeated items within a document; with drafts an alternate that both changed was changed alike, and one given another name says something else; an item has the same kind (value or container) in all of them; items in the base have the same draft status in the other documents"]
