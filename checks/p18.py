"""P18: cldrimport over directories as CLDR has them"""
import copy, itertools, os
import ldmltree as L
import treelib as TL
import flatcheck, p05

SUBDIRS = ["main", "collation", "casing", "segments"]
WORDS = flatcheck.WORDS + ["references", "source", "version", "generation", "number", "date"]
SCRIPTS = ["Latn", "Abcd", "Cyrl"]


def names(r, n):
    ls = []
    while len(ls) < n:
        l = r.choice("abqz") + r.choice("abcdefgh") + r.choice(["", "", r.choice("xyz")])
        if r.random() < .3: l += "_" + r.choice(SCRIPTS)
        if r.random() < .3: l += "_" + r.choice(["YY", "US", "419"])
        if l not in ls: ls.append(l)
    return ls


def tags(r, locales):
    res = [{"tag": "en", "full": "en-Latn-US", "tags": [], "script": "Latn", "region": "US"}]
    for l in locales:
        if r.random() < .4: continue
        ps = l.split("_")
        sc = next((p for p in ps[1:] if len(p) == 4), r.choice(SCRIPTS))
        rg = next((p for p in ps[1:] if len(p) < 4), r.choice(["YY", "US"]))
        res.append({"tag": l.replace("_", "-"), "full": "-".join([ps[0], sc, rg]), "tags": [], "script": sc, "region": rg, "regions": ["ZZ"]})
    return res


def refs(d, r, p):
    for x in L.walk(d):
        if r.random() < p and x["g"] not in ("ldml", "identity"): x["a"] = [a for a in x["a"] if a[0] != "references"] + [["references", r.choice(["R1", "R2 R3"])]]


def parts(r, name):
    """ One locale's """
    _, docs = flatcheck.family(r, False)
    ds = list(docs.values())
    res = {}
    kind = {"collation": ["collations"], "casing": ["metadata"], "segments": ["segmentations"]}
    for i, s in enumerate(SUBDIRS):
        if r.random() < (.2 if i == 0 else .5): continue
        d = copy.deepcopy(r.choice(ds))
        d["k"] = [k for k in d["k"] if k["g"] not in ("identity", "fallback")]
        if r.random() < .3:
            d["k"] = [k for k in d["k"] if (k["g"] in kind.get(s, [k["g"]])) or r.random() < .3]
        d["k"].insert(0, flatcheck.identity(r, name, False))
        if r.random() < .5: d["k"][0]["k"].insert(0, L.node("version", [["number", r.choice(["1", "2"])]]))
        refs(d, r, r.choice([0, .2, .6]))
        res[s] = d
    return res


def world(g, name):
    """ as the specification has it """
    res = {}
    for s, w in zip(["main", "casing", "segments"], g["parts"]):
        if w["l"] < 0: continue
        ref = [["references", "R1"]] if w["r"] else []
        k = []
        if w["id"]: k.append(L.node("identity", k=[L.node("version", list(ref), t="v1")]))
        if w["l"]: k.append(L.node("posix", list(ref), t="v%d" % w["l"]))
        inner = [L.node(n, list(ref), t="v%d" % w[f]) for n, f in (("decimal", "x"), ("group", "y")) if w[f]]
        if inner: k.append(L.node("numbers", list(ref), k=inner))
        res[s] = L.node("ldml", k=k)
    return res


def run(c):
    r = c.rng
    consts = "CONSTANTS\n MaxVal = %d\n Parts = %d\n Emit = %s\n"
    got = c.model("CldrImportMC", consts % (c.n(1, 2), 2, "TRUE"), invariants=["Good"], properties=["Kept"] + ([] if c.quick else ["Ends"]))
    if not c.quick: c.model("CldrImportMC", consts % (1, 3, "FALSE"), invariants=["Good"], properties=["Kept"])
    if len(got) > c.n(350, 4000): got = r.sample(got, c.n(350, 4000))
    nmodel = len(got)
    cases = []
    todo = list(got)
    for i in range(c.n(32, 500)):
        ls = names(r, r.choice([1, 3, 12, 25]) if not todo or i % 2 else 60)
        docs = {}
        for l in ls:
            if r.random() < .1: docs[l] = {}     # not in CLDR
            elif todo and i % 2 == 0: docs[l] = world(todo.pop(), l)
            else: docs[l] = parts(r, l)
        files = {os.path.join(s, l + ".xml"): L.render(d, (), r, stray=False) for l, ds in docs.items() for s, d in ds.items()}
        opts = r.choice([[], ["-s"], ["-s"]]) + r.choice([[], [], ["--seed"]]) + r.choice([[], [], ["-t"]]) + r.choice([[], ["-r"]])
        hg = r.choice([None, None, None, ["12345", "2020-01-02 03:04 +0000"]])
        if hg: opts = opts + ["--hg"]
        out = lambda l: os.path.join(l[0], l + ".xml")
        old = {out(l): "<ldml>old</ldml>\n" for l in ls if r.random() < .4}
        if r.random() < .5:
            old["notes.txt"] = "a"
            old[os.path.join("a", "README")] = "b"
        fails, block = {}, []
        if r.random() < .4:
            for l in r.sample(ls, min(len(ls), r.choice([1, 1, 2]))):
                if not docs[l]: continue
                if r.random() < .6 or out(l) in old:
                    f = r.choice([f for f in files if os.path.basename(f) == l + ".xml"])
                    files[f] = r.choice([files[f][:len(files[f]) // 2], "<ldml><a></ldml>"])
                else: block.append(out(l))
                fails[l] = True
        cases.append({"files": files, "old": old, "opts": opts, "hg": hg, "block": block, "tags": tags(r, ls), "locales": ls, "fails": fails, "seed": r.randint(0, 99)})
    res = c.drive("cldr", cases, timeout=150)
    traces, of = [], []
    for j, x in zip(cases, res):
        if c.isfailure(x) and "after" not in x: raise RuntimeError("cldr driver: %r" % x)
        for l in j["locales"]:
            t = {"hang": x["hang"], "fails": l in j["fails"], "reported": l in x["reported"], "remove": "-r" in j["opts"], "parts": [], "out": None}
            f = os.path.join(l[0], l + ".xml")
            t["before"] = f in j["old"]
            how, txt = x["after"].get(f, ["none", ""])
            t["after"] = how
            t["idents_"], t["revision_"] = [], []
            vs = set()
            if not t["fails"] and not x["hang"]:
                ds = [TL.asread(L.parse(j["files"][g])[0]) for g in (os.path.join(s, l + ".xml") for s in SUBDIRS) if g in j["files"]]
                t["parts"] = ds
                if ds and txt:
                    try: t["out"] = L.parse(txt)[0]
                    except Exception: t["after"] = "bad"
                t["idents_"] = [["source", "cldrseed"], ["draft", "unconfirmed"]] if "--seed" in j["opts"] else [["source", "cldr"]]
                k = x["known"].get(l)
                if k: t["idents_"] += [["script", k[0]], ["defaultRegion", k[1]]]
                if j["hg"]: t["revision_"] = ["$Revision: %s $" % j["hg"][0], "$Date: %s $" % j["hg"][1]]
                vs = set(dict(map(tuple, y["a"])).get("types") for d in ds for y in L.walk(d) if y["g"] == flatcheck.S + "font") - {None}
            vs = set(" ".join(z) for v in vs for k in range(1, 4) for z in itertools.combinations(v.split(), k))
            t["types_"] = [(v, v.split()) for v in sorted(vs)]
            t["words"] = WORDS
            t["strs"] = sorted(vs | set(sum(map(list, t["idents_"]), [])) | set(t["revision_"]) | {z for v in vs for z in v.split()})
            traces.append(t)
            of.append((j, x, l))

    def more(t, ids):
        return {"types": [[ids[v], [ids[z] for z in l]] for v, l in t["types_"]],
                "joins": [[ids[v], [ids[z] for z in s], ids[" ".join(s)]] for v, l in t["types_"] for k in range(1, len(l)) for s in itertools.combinations(l, k)],
                "idents": [[ids[a], ids[v]] for a, v in t["idents_"]], "revision": [ids[v] for v in t["revision_"]]}
    ver = TL.validate(c, "CldrImportTrace", traces, ["parts", "out"], ["words", "strs"], more=more)
    bad = []
    for (j, x, l), v in zip(of, ver):
        if not v[0]:
            mine = {f: y for f, y in j["files"].items() if os.path.basename(f) == l + ".xml"}
            bad.append((v[2], {"locale": l, "case": dict(j, files=mine), "after": x["after"].get(os.path.join(l[0], l + ".xml")), "end": x.get("end")}))
    for j, x in zip(cases, res):
        if x["hang"]: continue
        if not x["inputs"]: bad.append(("the input was changed", {"case": j}))
        ours = {os.path.join(l[0], l + ".xml") for l in j["locales"]}
        more_ = [f for f in x["after"] if f not in ours and f not in j["old"]]
        if more_: bad.append(("wrote something else", {"case": j, "files": more_}))
        if any(x["after"].get(f, [""])[0] != "same" for f in j["old"] if f not in ours): bad.append(("a file of no concern changed", {"case": j, "after": x["after"]}))
    c.report(bad)
    c.cov["imports"] = len(cases)
    c.cov["locales"] = len(traces)
    c.cov["locales_of_the_model"] = nmodel - len(todo)
    c.cov["in_parallel"] = sum("-s" not in j["opts"] for j in cases)
    c.cov["imports_with_failures"] = sum(bool(j["fails"]) for j in cases)
    c.sample(cases[0]["opts"]); c.sample({k: v for k, v in list(cases[-1]["files"].items())[:2]})
    c.assumptions += ["what langtag.lookup says of a locale is taken as given", "CLDR documents have no repeated items nor containers with alternates",
                      "hg is a stand-in which gives one revision for every file"]
