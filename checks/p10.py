"""P10: imports in collations"""
import os, re
import ldmltree as L
import treelib as TL

TYPES = ["standard", "search", "phonebook", "traditional", "private-kana"]
LOCS = ["zz", "zz_YY", "zz_Abcd", "yy", "root", "xx_Latn_XX"]
TEXT = ["&a<b", "\n", "  ", "[before 2]", "# x\n", "&[before 1]c<<<d", "]", "[", "[reorder Latn]", "<e/f", "\U00010000", "\\u005B", "'['", "-u-co-", "important", "&z<ʒ", "\\1", "\\g<lang>", "[alternate shifted]"]


def piece(t="", lang="", coll=""):
    return {"text": t, "lang": lang, "coll": coll}


def tag(l, r):
    return "und" if l == "root" and r.random() < .8 else l.replace("_", "-") if r.random() < .6 else l


def imp(r, names):
    l = r.choice(names if r.random() < .85 else ["qq", "zz"])
    t = r.choice(TYPES[:3] if r.random() < .8 else TYPES + ["nosuch"])
    if t == "phonebook" and r.random() < .5: t = "phonebk"
    return piece("", tag(l, r), "" if t == "standard" and r.random() < .4 else t)


def show(ps, r):
    o = ""
    for p in ps:
        if p["lang"]: o += "[import" + r.choice([" ", " ", "  ", "\n\t"]) + p["lang"] + ("-u-co-" + p["coll"] if p["coll"] else "") + r.choice(["", "", " "]) + "]"
        else: o += p["text"]
    return o


def document(name, colls, r):
    ps = name.split("_")
    n = L.node("ldml", k=[L.node("identity", k=[L.node("language", [["type", ps[0]]])])])
    cs = [L.node("collation", [["type", t]], k=[L.node("cr", t=x)]) for t, x in colls.items()]
    if cs: n["k"].append(L.node("collations", k=cs))
    return L.render(n, (), r, style="tight", stray=False)


def parse(text):
    """ pieces of a text, in which every import is well formed """
    o, at = [], 0
    for m in re.finditer(r"\[import\s+([A-Za-z_-]+?)(?:-u-co-([a-z-]+))?\s*\]", text):
        o += [piece(text[at:m.start()]), piece("", m.group(1), m.group(2) or "")]
        at = m.end()
    return [p for p in o + [piece(text[at:])] if p["lang"] or p["text"]]


def run(c):
    r = c.rng
    got = c.model("ImportsMC", "CONSTANTS\n MaxLen = %d\n Emit = TRUE\n" % c.n(2, 2), invariants=["Good"])
    worlds = []         # name, locale -> type -> pieces, whether through the script
    for g in r.sample(got, min(len(got), c.n(1500, 8000))):
        worlds.append(("zz", {"zz": {"standard": g["std"], "search": g["sea"]}, "root": {"standard": g["root"]}, "yy": {"phonebook": g["yy"]}}, False))
    nmodel = len(worlds)
    for i in range(c.n(2500, 40000)):
        names = r.sample(LOCS, r.randint(1, len(LOCS)))
        script = i % 50 == 0
        order = list(names)
        def rules(n):
            k = []
            for j in range(r.randint(0, 4)):
                # mostly what comes later in the order, so as not to have cycles
                if r.random() < .5: k.append(imp(r, order[order.index(n) + 1:] or ["qq"] if r.random() < .93 else names))
                else: k.append(piece("".join(r.choice(["&a<b", "<<c", "[before-1]", "]", "&z<ʒ"] if script else TEXT) for x in range(r.randint(1, 3)))))
            return k
        w = {n: {t: rules(n) for t in r.sample(TYPES, r.randint(0, 3))} for n in names}
        worlds.append((r.choice(names), w, script))
    jobs, traces = [], []
    for name, w, script in worlds:
        texts, files = {}, {}
        for n, cs in w.items():
            texts[n] = {t: show(ps, r) for t, ps in cs.items()}
            files[os.path.join(r.choice("ab"), *([n[0].lower()] if r.random() < .3 else []), n + ".xml")] = document(n, texts[n], r)
        jobs.append({"name": name, "files": files, "script": script})
        traces.append(texts)
    res = c.drive("imports", jobs, timeout=60)
    ts = []
    for (name, w, script), texts, x in zip(worlds, traces, res):
        t = {"failed": "", "name": name, "rules": [], "own": [], "got": [], "locales": []}
        tags = set(p["lang"] for cs in texts.values() for s in cs.values() for p in parse(s) if p["lang"])
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else:
            # white space around the rules and their line breaks isn't read
            t["rules"] = [[n, [[k, parse(re.sub(r"[ \t]*\n[ \t]*", "\n", s.strip()))] for k, s in cs.items()]] for n, cs in texts.items()]
            t["own"] = [[k, parse(s)] for k, s in x["own"].items()]
            t["got"] = [[k, s.strip() if script else s] for k, s in x["got"].items()]
            t["locales"] = [[l, "root" if l == "und" else l.replace("-", "_")] for l in tags]
        ts.append(t)
    ver = c.validate("ImportsTrace", ts)
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(jobs, res, ver) if not v[0]])
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.cov["only_for_termination"] = sum(1 for v in ver if v[2] == "-")
    c.sample(jobs[0]); c.sample(jobs[-1])
    c.assumptions += ["rules that come to import themselves are judged for termination only", "the locale's collations before imports are replaced are those the code has flattened it to (P06)"]
