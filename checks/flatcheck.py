"""P06 and P07: families of locales"""
import copy, itertools, os
import xml.etree.ElementTree as et
import ldmltree as L
import treelib as TL
import p05

S = "{%s}" % L.SIL
FAMILIES = [["zz_Abcd_YY", "zz_Abcd", "zz"], ["zz_YY", "zz"], ["zz"], ["root"], ["es_MX", "es_419", "es"], ["pt_AO", "pt_PT", "pt"],
            ["zh_Hant_MO", "zh_Hant_HK", "zh_Hant", "zh"], ["no", "nb", "nn"], ["en_AT", "en_150", "en_001", "en"],
            ["az_Arab_IR", "az_Arab", "az"], ["az_Arab", "az"], ["zz_Abcd_YY_xx", "zz_Abcd_YY", "zz_Abcd", "zz"]]
WORDS = ["alias", S + "external-resources", S + "font", "types", "collations", "collation", S + "modified", "true", "root", "script", "type", "default"]
SCRIPTS = ["Latn", "Abcd"]


def parents():
    """ From the supplemental data: locale -> parents """
    res = {}
    d = et.parse(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "lib", "sldr", "supplementalData.xml")).getroot()
    for p in d.find("parentLocales"):
        for l in p.get("locales").split(): res.setdefault(l, []).append(p.get("parent"))
    return res


def identity(r, name, r2):
    n = L.node("identity")
    if r.random() < .1: return n
    ps = name.split("_")
    n["k"].append(L.node("language", [["type", ps[0]]]))
    sc = next((p for p in ps[1:] if len(p) == 4), None)
    s = r.choice(SCRIPTS) if r.random() < .3 else sc
    if s and r.random() < .8: n["k"].append(L.node("script", [["type", s]]))
    if r.random() < .3:
        sid = L.node(S + "identity")
        if r.random() < .5: sid["a"].append(["script", r.choice(SCRIPTS)])
        if r2 and r.random() < .3: sid["a"].append(["draft", r.choice(L.DRAFTS)])
        n["k"].append(L.node("special", k=[sid]))
    return n


def fonts(r, single):
    x = L.node(S + "external-resources")
    kinds = ["default", "ui", "heading"]
    r.shuffle(kinds)
    names = r.sample("ABC", 3)
    for i in range(r.randint(1, 3)):
        a = [["name", names.pop()]]
        if single: t = [kinds.pop()]
        else: t = r.sample(["default", "ui", "heading"], r.choice([1, 1, 1, 2, 3]))
        if t != ["default"] or r.random() < .5: a.append(["types", " ".join(t)])
        f = L.node(S + "font", a, k=[L.node(S + "url", t="u%d" % r.randint(1, 2))])
        if not any(TL.group(f) == TL.group(k) for k in x["k"]): x["k"].append(f)
    if r.random() < .4: x["k"].append(L.node(S + "wordlist", [["headerlines", r.choice("12")]], k=[L.node(S + "url", t="u")]))
    return x


def family(r, rev):
    names = r.choice(FAMILIES)
    g = L.Gen(r, size=r.choice([5, 10, 20]), pdraft=r.choice([0, .15]), palt=0, pcom=0, texts=p05.TEXTS, punk=0)
    b = p05.unique(g.doc())
    for x in L.walk(b): x["k"] = [k for k in x["k"] if k["g"] not in (S + "font", "identity", "fallback")]
    if not rev: aliases(b, r)
    if r.random() < .4:
        colls = [L.node("collation", [["type", t]], k=[L.node("cr", t=r.choice(p05.TEXTS))]) for t in r.sample(["standard", "search", "phonebook"], r.randint(1, 3))]
        b["k"] = [k for k in b["k"] if k["g"] != "collations"] + [L.node("collations", k=([L.node("defaultCollation", t="standard")] if r.random() < .5 else []) + colls)]
    p05.trim(b)
    L.fix(b)
    for x in L.walk(b):
        if x["k"]: x["a"] = [a for a in x["a"] if a[0] != "draft"]
    alts = r.random() < .5
    if alts: alternates(b, r, .4)
    docs = {}
    for n in list(names) + ["root"]:
        if n in docs or (n != names[0] and r.random() < .2): continue
        d = copy.deepcopy(b)
        p05.edit(d, r, r.choice([0, 1, 2, 4, 8]))
        if alts: changealts(d, r)
        if r.random() < .3 and not rev or r.random() < .5 and n == "root": aliases(d, r, rev)
        for x in L.walk(d):         # collations that differ only in being flagged become the same
            cs = [[a for a in k["a"] if a[0] != S + "modified"] if k["g"] == "collation" else [i] for i, k in enumerate(x["k"])]
            x["k"] = [k for i, k in enumerate(x["k"]) if cs[i] not in cs[:i]]
        if r.random() < .3: d["k"] = [k for k in d["k"] if r.random() < .5]
        d["k"].insert(0, identity(r, n, not rev))
        if r.random() < .3:
            sp = next((k for k in d["k"] if k["g"] == "special"), None)
            if sp is None:
                sp = L.node("special")
                d["k"].append(sp)
            if sp["k"] or not sp["t"]:
                sp["k"] = [k for k in sp["k"] if k["g"] != S + "external-resources"] + [fonts(r, rev)]
        docs[n] = d
    if len(names) > 1 and r.random() < .08:
        docs[names[0]]["k"].append(L.node("fallback", t=r.choice([" ".join(names[1:]), "root", "zz fr_CA", names[-1]])))
    return names[0], docs


def alternates(d, r, p):
    """ Gives leaves alternates """
    serial = L.Ref.get().serial
    for x in L.walk(d):
        if x["g"] in ("collations", "collation", "identity"): continue
        ks = []
        for k in x["k"]:
            ks.append(k)
            if k["k"] or k["g"] in serial | {"alias", "identity", "collation", S + "font", S + "external-resources"} or not k["t"] or p05.isalt(k): continue
            have = [dict(map(tuple, y["a"])).get("alt") for y in x["k"] if TL.group(y) == TL.group(k)]
            for a in ["proposed", "short"]:
                if a in have or r.random() > p: continue
                k2 = copy.deepcopy(k)
                k2["t"] = r.choice(p05.TEXTS[:4])
                k2["a"] = [y for y in k2["a"] if y[0] != "draft"] + [["alt", a]]
                if r.random() < .3: k2["a"].append(["draft", r.choice(L.DRAFTS)])
                ks.append(k2)
        x["k"] = ks


def changealts(d, r):
    for x in L.walk(d):
        for k in x["k"]:
            if p05.isalt(k) and r.random() < .15: k["t"] = r.choice(p05.TEXTS[:4])
        x["k"] = [k for k in x["k"] if not p05.isalt(k) or r.random() > .15]
    alternates(d, r, r.choice([0, 0, .1]))


def aliases(d, r, alone=False):
    """ Has some containers refer to others """
    for x in L.walk(d):
        x["k"] = [k for k in x["k"] if k["g"] != "alias"]
        if x is not d and x["k"] and x["g"] not in ("identity", "special", "collations") and not x["g"].startswith("{") and r.random() < .04:
            al = L.node("alias", [["source", "locale"], ["path", r.choice(["../a", "../b"])]])
            if alone or r.random() < .6: x["k"] = [al]
            else: x["k"].append(al)


def world(w, name):
    ids = ([L.node("version", t="v%d" % w["id"])] if w["id"] else []) + ([L.node("script", [["type", "s%d" % w["s"]]])] if w["s"] else [])
    k = [L.node("identity", k=ids)]
    if w["l"]: k.append(L.node("posix", t="v%d" % w["l"]))
    inner = [L.node(n, t="v%d" % w[f]) for n, f in (("decimal", "x"), ("group", "y")) if w[f]]
    if inner: k.append(L.node("numbers", k=inner))
    cs = [L.node("defaultCollation", t="v1")] if w["d"] else []
    cs += [L.node("collation", [["type", t]], t="v%d" % w[f]) for t, f in (("a", "c1"), ("b", "c2")) if w[f]]
    if cs: k.append(L.node("collations", k=cs))
    return L.node("ldml", k=k)


def run(c, what):
    r, rev = c.rng, what == "unflat"
    got = c.model("FlattenMC", "CONSTANTS\n MaxVal = %d\n Emit = TRUE\n" % c.n(1, 2), invariants=["Good"])
    if len(got) > c.n(700, 6000): got = r.sample(got, c.n(700, 6000))
    cases = []
    for g in got:
        docs = {n: world(w, n) for n, w in (("zz_YY", g["w"]), ("zz", g["p"]), ("root", g["r"])) if w["l"] >= 0}
        cases.append(("zz_YY", docs))
    nmodel = len(cases)
    for i in range(c.n(1200, 15000)): cases.append(family(r, rev))
    sup = parents()
    jobs, traces = [], []
    for name, docs in cases:
        dirs = r.choice([["d"], ["d"], ["d", "e"]])
        files = {}
        for n, d in docs.items():
            p = r.choice(dirs)
            files[os.path.join(p, *([n[0].lower()] if r.random() < .3 else []), n + ".xml")] = L.render(d, (), r, stray=False)
        jobs.append({"name": name, "files": files, "dirs": dirs, "rev": rev, "stubs": not rev and r.random() < .2, "changed": []})
        if not rev and r.random() < .25:
            ps = sorted(docs) + sup.get(name, []) + [name[:i] for i in range(len(name)) if name[i] == "_"] + ["root", "qq"]
            jobs[-1]["changed"] = sorted(set(r.sample(ps, r.choice([1, 1, 2]))))
    res = c.drive("flatten", jobs)
    for (name, docs), j, x in zip(cases, jobs, res):
        t = {"what": what, "failed": "", "flat": None, "unflat": None, "again": None}
        xml = {os.path.basename(f)[:-4]: v for f, v in j["files"].items()}
        ns = sorted(docs)
        t["docs"] = [TL.asread(L.parse(xml[n])[0]) for n in ns]
        t["names_"] = ns
        fb = next((k["t"].split() for k in docs[name]["k"] if k["g"] == "fallback"), None)
        t["name_"] = name
        t["parents_"] = fb if fb is not None else sup.get(name, [])
        t["changed_"], t["stubs"], t["none"] = j["changed"], j["stubs"], False
        t["words"] = WORDS
        vs0 = set(dict(map(tuple, y["a"])).get("types") for d in t["docs"] for y in L.walk(d) if y["g"] == S + "font") - {None}
        vs = set(" ".join(z) for v in vs0 for k in range(1, 4) for z in itertools.combinations(v.split(), k))
        t["types_"] = [(v, v.split()) for v in sorted(vs)]
        t["strs"] = sorted(set(sum((n.split("_") for n in ns + [name] + t["parents_"] + j["changed"]), [])) | vs)
        if c.isfailure(x): t["failed"] = TL.failed(x)
        elif not x["flat"]: t["none"], t["flat"] = True, t["docs"][ns.index(name)]
        else:
            try:
                for f in ("flat", "unflat", "again"):
                    if f in x: t[f] = L.parse(x[f])[0]
            except Exception: t["failed"] = "not well-formed"
        traces.append(t)

    def more(t, ids):
        name = lambda n: [ids[p] for p in n.split("_")]
        e = {"names": [name(n) for n in t["names_"]], "name": name(t["name_"]), "parents": [name(n) for n in t["parents_"]], "changed": [name(n) for n in t["changed_"]],
             "types": [[ids[v], [ids[z] for z in l]] for v, l in t["types_"]],
             "joins": [[ids[v], [ids[z] for z in s], ids[" ".join(s)]] for v, l in t["types_"] for k in range(1, len(l)) for s in itertools.combinations(l, k)]}
        return e
    ver = TL.validate(c, "FlattenTrace", traces, ["docs", "flat", "unflat", "again"], ["words", "strs"], more=more)
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(jobs, res, ver) if not v[0]])
    c.cov["model_families_replayed"] = nmodel
    c.cov["random_families"] = len(cases) - nmodel
    c.sample(jobs[0]); c.sample(jobs[-1])
    c.assumptions += ["no repeated items nor containers with alternates in a document; an item has the same kind (value or container) in all locales",
                      "containers have only attributes that distinguish them"]
    if rev: c.assumptions += ["draft statuses aside", "only the root has aliases, instead of content", "a document has at most one font for a purpose"]
