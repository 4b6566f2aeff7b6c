"""P08: ldmlflatten over sets of locales"""
import flatcheck
import ldmltree as L

SETS = [["zz_Abcd_YY", "zz_Abcd", "zz_YY", "zz", "root", "yy"], ["pt_AO", "pt_PT", "pt", "root", "es_MX", "es_419", "es"],
        ["en_AT", "en_150", "en_001", "en", "root"], ["az_Arab_IR", "az_Arab", "az", "zz", "zz_YY", "root", "qq"]]


def documents(r, names):
    docs = {}
    fam, d = flatcheck.family(r, False)
    base = list(d.values())
    for n in names:
        x = L.node("ldml", k=[k for k in r.choice(base)["k"] if k["g"] not in ("identity", "fallback")])
        x["k"].insert(0, flatcheck.identity(r, n, True))
        if r.random() < .1: x["k"] = x["k"][:1]
        cr = ["&a<b", "&z << y [import und-u-co-standard]", "[import zz-u-co-search]&k<l", "[import %s-u-co-standard]" % names[-1]]
        if r.random() < .5:
            x["k"] = [k for k in x["k"] if k["g"] != "collations"]
            x["k"].append(L.node("collations", k=[L.node("collation", [["type", t]], k=[L.node("cr", t=r.choice(cr[:2] if n in ("root", "zz") else cr))])
                                                  for t in r.sample(["standard", "search"], r.randint(1, 2))]))
        if r.random() < .2:
            x["k"] = [k for k in x["k"] if k["g"] not in ("dates", "numbers")]
            x["k"].append(L.node("dates", k=[L.node("calendars", k=[L.node("calendar", [["type", "a"]], k=[L.node("alias", [["source", "locale"], ["path", "../calendar[@type='b']"]])]),
                                                                    L.node("calendar", [["type", "b"]], k=[L.node("special", t="v")])])]))
        docs[n] = L.render(x, (), r, stray=False)
    return docs


def run(c):
    r = c.rng
    consts = 'CONSTANTS\n Locales = {"a", "b", "c"}\n Workers = %s\n Pieces = %d\n Emit = %s\n'
    got = c.model("BatchMC", consts % ("{1}", 1, "TRUE"), invariants=["Good", "Seen"], properties=["Own", "Ends"])
    c.model("BatchMC", consts % ("{1, 2}", c.n(1, 2), "FALSE"), invariants=["Good"], properties=["Own", "Ends"])
    if not c.quick: c.model("BatchMC", consts % ("{1, 2, 3}", 1, "FALSE"), invariants=["Good"], properties=["Own"])
    cases = []
    for i in range(c.n(40, 400)):
        names = list(r.choice(SETS))
        files = documents(r, names)
        opts = r.choice([[], [], [], ["-r"], ["-c"], ["-A"], ["--skipstubs"], ["-t"], ["--revid", "abc"]]) + r.choice([[], ["-a"]])
        fails = {n: "no" for n in names}
        orders = []
        if i % 2:       # as the specification has it
            g = r.choice(got)
            tr = dict(zip("abc", r.sample([n for n in names if n != "root"], 3)))
            for k, v in g["fails"].items(): fails[tr[k]] = v
            orders.append([tr[k] for k in g["order"]])
        elif r.random() < .4:
            fails[r.choice(names)] = r.choice(["read", "write"])
        names.append("nosuch")
        fails["nosuch"] = "read"
        for n, f in fails.items():
            if f == "read" and n in files: files[n] = r.choice([files[n][:-3], files[n][:len(files[n]) // 2], "<ldml><a></ldml>"])
        runs = []
        for k in range(c.n(3, 5)):
            o = orders.pop() if orders else r.sample(names, r.randint(2, len(names)))
            runs.append({"order": o, "single": k == 1 or (k > 1 and r.random() < .3), "all": k == 0, "seed": r.randint(0, 100), "times": 2 if k == 2 else 1,
                         "layout": {n: [r.randint(0, 1), r.random() < .5] for n in names}})
            if k == 0: runs[-1]["order"] = [n for n in names if n != "nosuch"]
        cases.append({"files": files, "names": names, "fails": fails, "opts": opts, "block": [n for n in names if fails[n] == "write"], "runs": runs})
    res = c.drive("batch", cases, timeout=300)
    traces, of = [], []
    for j, x in zip(cases, res):
        if c.isfailure(x): raise RuntimeError("batch driver: %r" % x)
        for run_, y in zip(j["runs"], x["runs"]):
            ids = {"": 0}
            n = lambda h: ids.setdefault(h, len(ids))
            traces.append({"alone": [n(x["alone"][l]) for l in j["names"]], "wrote": [n(y["wrote"][l]) for l in j["names"]],
                           "fails": [j["fails"][l] for l in j["names"]], "reported": [l in y["reported"] for l in j["names"]],
                           "asked": [j["names"].index(l) + 1 for l in run_["order"]], "others": len(y["others"]), "hang": y["hang"]})
            of.append((j, run_, x["alone"], y))
    ver = c.validate("BatchTrace", traces)
    c.report([(v[2], {"case": dict(a[0], runs=[a[1]]), "alone": a[2], "run": a[3]}) for a, v in zip(of, ver) if not v[0]])
    c.cov["batches"] = len(cases)
    c.cov["runs"] = len(traces)
    c.cov["runs_in_parallel"] = sum(1 for a in of if not a[1]["single"])
    c.cov["runs_with_failures"] = sum(1 for a in of if any(a[0]["fails"][l] != "no" for l in a[1]["order"]))
    c.sample(cases[0]["runs"]); c.sample(cases[-1]["files"])
    c.assumptions += ["the output directory isn't one of the input directories", "the operating system's scheduling of the pool's processes is sampled, not controlled"]
