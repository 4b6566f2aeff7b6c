"""P14: language tags"""
import os, string
import treelib as TL
import vf

AL, AN = string.ascii_lowercase, string.ascii_lowercase + string.digits


def wd(r, s, a, b=None): return "".join(r.choice(s) for i in range(r.randint(a, b or a)))
def lang(r): return r.choice(["en", "zh", "de", "sgn", "und", wd(r, AL, 2, 3)])
def script(r): return r.choice(["latn", "cyrl", "hant", "zyyy", wd(r, AL, 4)])
def region(r): return r.choice(["us", "419", "001", wd(r, AL, 2), wd(r, string.digits, 3)])
def variant(r): return r.choice(["1996", "fonipa", "posix", "valencia", wd(r, AN, 5, 8), wd(r, string.digits, 1) + wd(r, AN, 3)])
def sub(r): return r.choice(["nu", "co", "phonebk", wd(r, AN, 2, 8)])


def rest(r, p=.4):
    o = []
    for i in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < p * 2 else 0):
        v = variant(r)
        if v not in o: o.append(v)
    if r.random() < p:
        for s in r.sample(list("utabyz01"), r.choice([1, 1, 2, 3])): o += [s] + [sub(r) for i in range(r.choice([1, 1, 2, 3]))]
    if r.random() < p / 2: o += ["x"] + [wd(r, AN, 1, 8) for i in range(r.choice([1, 2, 3]))]
    return o


def tag(r):
    o = [lang(r)]
    if r.random() < .2: o.append(r.choice(["yue", "cmn", wd(r, AL, 3)]))
    if r.random() < .5: o.append(script(r))
    if r.random() < .5: o.append(region(r))
    return o + rest(r)


def show(ts, r):
    o = ts[0]
    for t in ts[1:]: o += r.choice("--_") + t
    return r.choice([o, o.upper(), o.title(), "".join(r.choice([x, x.upper()]) for x in o)])


def canon(ts):
    """ how the lists have it """
    o, seen = [ts[0]], False
    for t in ts[1:]:
        if len(t) == 1: seen = True
        o.append(t if seen else t.title() if len(t) == 4 and t.isalpha() else t.upper() if len(t) == 2 or len(t) == 3 and t.isdigit() else t)
    return "-".join(o)


def lists(r):
    """ lists of tags, each with all subtags in its last """
    used, res = set(), []
    for i in range(r.randint(1, 6)):
        l = r.choice(["aa", "bb", "ccc", "ddd-eee"])
        s, g, x = script(r), region(r), rest(r, .15)
        last = [l, s, g] + x
        x = [] if "x" in x or any(len(y) == 1 for y in x) and r.random() < .5 else x
        al = [[l] + x, [l, s] + x, [l, g] + x]
        if r.random() < .2: al.append([lang(r), s, g][:r.randint(2, 3)])
        al = ["-".join(canon(("-".join(y)).split("-")) for y in [y]) for y in r.sample(al, r.randint(0, len(al)))]
        al = [y for y in dict.fromkeys(al) if y not in used]
        t = canon("-".join(last).split("-"))
        if t in used or t in al: continue
        res.append(al + [t])
        used.update(al + [t])
    return res


def run(c):
    r = c.rng
    got = c.model("LangTagMC", "CONSTANTS\n MaxLen = %d\n Emit = TRUE\n" % c.n(5, 6), invariants=["Back", "Kept", "Machine", "Out"], properties=["Order"])
    code = lambda s: [ord(x) for x in s]
    jobs = []
    for g in got if len(got) <= c.n(8000, 80000) else r.sample(got, c.n(8000, 80000)):
        jobs.append({"tag": show(["".join(chr(x) for x in t) for t in g], r)})
    nmodel = len(jobs)
    for i in range(c.n(8000, 80000)): jobs.append({"tag": show(tag(r), r)})
    shipped = [[x.lstrip("*") for x in l.split() if x != "="] for l in open(os.path.join(vf.REPO, "lib", "sldr", "langtags.txt"), encoding="utf-8") if l.strip()]
    def asks(ls): return [(n, t) for n, l in enumerate(ls) for t in l]
    seen = {}
    for n, t in asks(shipped): seen.setdefault(t, []).append(n)
    # those in several lists are ambiguous
    shipped = [l for l in shipped if all(len(seen[t]) == 1 for t in l)]
    wants = [None] * len(jobs)
    for i in range(0, len(shipped), 300):
        ls = shipped[i:i + 300]
        jobs.append({"file": None, "tags": [t for n, t in asks(ls)]})
        wants.append(ls)
    for i in range(c.n(600, 6000)):
        ls = lists(r)
        r.shuffle(ls)
        text = "".join(r.choice([" = ", " = ", " ", "\t=\t"]).join(r.choice(["", "", "*"]) + t for t in l) + "\n" for l in ls)
        jobs.append({"file": text, "tags": [t for n, t in asks(ls)]})
        wants.append(ls)
    ts = []
    for j, w, x in zip(jobs, wants, c.drive("langtag", jobs, timeout=60)):
        bad = TL.failed(x) if c.isfailure(x) else ""
        if w is None:
            g = [] if bad else [{**{k: code(y[k]) for k in ("lang", "script", "region", "full", "short")}, "variants": [code(v) for v in y["variants"]],
                                 "exts": [{"s": code(k), "subs": [code(z) for z in v]} for k, v in y["exts"]]} for y in x["got"]]
            ts.append({"kind": "tag", "failed": bad, "tag": code(j["tag"]), "got": g})
        else:
            ks = [n + 1 for n, t in asks(w)]
            ts.append({"kind": "lists", "failed": bad, "lists": [[code(t) for t in l] for l in w],
                       "looked": [] if bad else [{"list": k, "entry": y[0], "full": code(y[1])} for k, y in zip(ks, x["looked"])]})
        ts[-1]["n"] = (j, x)
    ver = c.validate("LangTagTrace", [{k: v for k, v in t.items() if k != "n"} for t in ts])
    c.report([(v[2], {"case": t["n"][0], "result": t["n"][1]}) for t, v in zip(ts, ver) if not v[0]])
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.cov["not_judged"] = sum(1 for v in ver if v[2] == "-")
    c.sample(jobs[nmodel - 1]["tag"]); c.sample(jobs[nmodel]["tag"]); c.sample(jobs[-1])
    c.assumptions += ["tags that begin with a language of two or three letters"]
