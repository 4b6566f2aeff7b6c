"""P17: the registry of subtags"""
import os
import treelib as TL
import vf

NAMES = ["Type", "Subtag", "Tag", "Description", "Added", "Prefix", "Comments", "Suppress-Script", "Macrolanguage", "Preferred-Value", "Scope", "Deprecated", "File-Date"]


def lines(text):
    """ of a registry, as the specification has them """
    res = []
    for l in text.splitlines():
        if l.startswith("%%"): res.append({"k": "sep"})
        elif l.startswith(" "): res.append({"k": "fold", "v": l.strip()})
        elif ":" in l:
            f, v = l.split(":", 1)
            res.append({"k": "field", "f": f.strip().lower(), "v": v.strip()})
    return res


def show(ls, r):
    """ a file with those lines """
    o = ""
    for l in ls:
        if l["k"] == "sep": o += "%%"
        elif l["k"] == "fold": o += r.choice(["  ", "  ", " ", "    "]) + l["v"]
        else: o += r.choice([l["f"].capitalize(), l["f"].title(), l["f"]]) + ":" + r.choice([" ", " ", "", "  "]) + l["v"]
        o += r.choice(["", "", "", " "]) + "\n"
    return o


def words(r):
    w = ["Latin", "script (Roman)", "a: b", "x, y; z", "%", "%%", "N'Ko", "\u00c5land", "\u02bcPhags-pa", "Type: language", "Subtag: q", "1", ":", "und"]
    return " ".join(r.choice(w) for i in range(r.randint(1, 3)))


def registry(r):
    ls, used = [{"k": "field", "f": "file-date", "v": "2024-05-16"}, {"k": "sep"}] if r.random() < .6 else [], set()
    rs = r.randint(1, 8)
    for i in range(rs):
        t = r.choice(["language", "extlang", "script", "region", "variant", "grandfathered", "redundant"])
        s = r.choice(["aa", "bb", "Latn", "qaa..qtz", "419", "1996", "yue"])
        if (t, s) in used: continue
        used.add((t, s))
        ls += [{"k": "field", "f": "type", "v": t}, {"k": "field", "f": "tag" if t in ("grandfathered", "redundant") else "subtag", "v": s}]
        fs = [r.choice(["description", "description", "added", "prefix", "prefix", "comments", "scope", "suppress-script", "preferred-value", "macrolanguage"]) for j in range(r.randint(0, 6))]
        for f in fs if r.random() < .5 else sorted(fs):
            ls.append({"k": "field", "f": f, "v": words(r) if r.random() < .95 else ""})
            for j in range(r.choice([0, 0, 0, 1, 2])): ls.append({"k": "fold", "v": words(r)})
        ls.append({"k": "sep"})
    return ls if r.random() < .3 else ls[:-1]


def run(c):
    r = c.rng
    got = c.model("RegistryMC", "CONSTANTS\n MaxLen = %d\n Emit = TRUE\n" % c.n(8, 10), invariants=["Right", "Out"], properties=["Kept"])
    files = r.sample(got, min(len(got), c.n(6000, 60000)))
    nmodel = len(files)
    files += [registry(r) for i in range(c.n(4000, 40000))]
    jobs = [{"text": show(f, r)} for f in files]
    with open(os.path.join(vf.REPO, "lib", "sldr", "language-subtag-registry.txt"), encoding="utf-8") as f: shipped = [lines(x) for x in f.read().split("\n%%\n")]
    def val(x, f): return next((l["v"] for l in x if l.get("f") == f), None)
    records = [x for x in shipped if val(x, "subtag") is not None]
    for i in range(0, len(records), 50):
        some = records[i:i + 50]
        files.append([l for x in some for l in [{"k": "sep"}] + x])
        jobs.append({"text": None, "of": [[val(x, "type"), val(x, "subtag")] for x in some]})
    ts, bad = [], []
    res = c.drive("registry", jobs)
    for f, x in zip(files, res):
        ts.append({"failed": TL.failed(x) if c.isfailure(x) else "", "lines": f, "got": [] if c.isfailure(x) else x["got"]})
    for (l, v), j, x in zip(((t, v) for t, v in zip(ts, c.validate("RegistryTrace", ts))), jobs, res):
        if not v[0]: bad.append((v[2], {"case": {**j, "lines": l["lines"]}, "result": x}))
    if not c.isfailure(res[-1]) and sum(res[-1]["n"].values()) != len(records):
        bad.append(("there are other records in the shipped registry", {"case": jobs[-1], "result": res[-1]}))
    c.report(bad)
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.cov["shipped_records"] = len(records)
    c.sample(jobs[0]); c.sample(jobs[nmodel])
    c.assumptions += ["records have their type first and then their subtag or tag, each type and subtag once, as in the registry"]
