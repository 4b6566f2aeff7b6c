"""P13: exemplars found in texts"""
import unicodedata
import treelib as TL
import vf

SCRIPTS = {
    "latin": ([97, 98, 99, 104, 105, 110, 115, 223, 688, 42892, 700, 65, 66, 67, 72, 73, 78, 83, 42891], [768, 769, 770, 776, 803, 817, 847, 8413]),
    "greek": ([945, 963, 962, 913, 931], [769, 776]),
    "cyril": ([1073, 1041], [769, 776]),
    "adlam": ([125218, 125219, 125184, 125185], [125258, 125252]),
    "georg": ([4304, 7312], [769]),
    "hebrew": ([1488, 1523], [1464, 1473]),
    "arabic": ([1575, 1576, 1600, 1635], [1614]),
    "deva": ([2325, 2326, 2406], [2364, 2366, 2381, 2306, 8205, 8204]),
    "thai": ([3585], [3633, 3656]),
    "khmer": ([6016, 6068], [6098, 6068]),
    "hangul": ([4447], [769]),
}
OTHER = [33, 39, 44, 45, 46, 95, 171, 8217, 49, 50, 178, 189, 43, 36, 32, 32, 173, 8203]


def nfd(t): return unicodedata.normalize("NFD", t)


def text(r, letters, marks, n):
    o, some = "", r.random()
    while len(o) < n:
        if r.random() < .15: o += chr(r.choice(OTHER))
        else: o += chr(r.choice(letters))
        while r.random() < some * .7: o += chr(r.choice(marks if r.random() < .9 else [8205, 8204]))
    return o


def case(r):
    ss = [r.choice(list(SCRIPTS))] if r.random() < .8 else r.sample(list(SCRIPTS), 2)
    letters, marks = [x for s in ss for x in r.sample(SCRIPTS[s][0], r.randint(1, len(SCRIPTS[s][0])))], [x for s in ss for x in r.sample(SCRIPTS[s][1], r.randint(1, len(SCRIPTS[s][1])))]
    texts = [text(r, letters, marks, r.choice([1, 2, 5, 10, 20])) for i in range(r.randint(1, 5))]
    given = {}
    for k in ("main", "auxiliary", "index", "punctuation"):
        if r.random() < .25:
            given[k] = []
            for i in range(r.randint(1, 3)):
                w = nfd(r.choice(texts)).replace(" ", "")
                j = r.randint(0, max(0, len(w) - 1))
                w = w[j:j + r.randint(1, 4)]
                if w and unicodedata.category(w[0])[0] not in "MNCZ" and w not in given[k] and not any(ord(x) in (173, 8203, 8204, 8205) for x in w): given[k].append(w)
    plain = r.random() < .7 or bool(given)
    form = r.choice(["NFC", "NFD"])
    return {"texts": [unicodedata.normalize(form, t) for t in texts], "given": given, "plain": plain, "many": r.choice([5, 5, 0, 1, 2, 3, 10]), "frequent": r.choice([1, 1, 100, 50, 200, 30, 0])}


def run(c):
    r = c.rng
    got = c.model("ExemplarsMC", "CONSTANTS\n Alphabet = {97, 98, 65, 769, 768, 2325, 2364, 2366, 46, 49, 8205, 8204, 43}\n MaxLen = %d\n Knowns = {0, 1, 2, 3}\n Many = 1\n Emit = TRUE\n" % c.n(4, 5),
                  invariants=["Covered", "Divisible", "PartedRight", "Out"])
    got = r.sample(got, min(len(got), c.n(6000, 60000)))
    jobs = [{"texts": ["".join(map(chr, x["text"]))], "given": {"main": ["".join(map(chr, k)) for k in x["known"]]} if x["known"] else {}, "plain": True, "many": 1, "frequent": 1} for x in got]
    nmodel = len(jobs)
    jobs += [case(r) for i in range(c.n(6000, 80000))]
    ts, bad = [], []
    for j, x in zip(jobs, c.drive("exemplars", jobs)):
        t = {"texts": [[ord(y) for y in nfd(z)] for z in j["texts"]], "known": [[ord(y) for y in z] for v in j["given"].values() for z in v], "many": j["many"], "frequent": j["frequent"]}
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else: t.update(x, failed="")
        ts.append(t)
        if t["failed"]: t.update({k: [] for k in ("main", "auxiliary", "index", "punctuation", "digits", "raw", "frequency", "onlyUpper", "onlyLower")})
    for j, t, v in zip(jobs, ts, c.validate("ExemplarsTrace", ts)):
        if not v[0]: bad.append((v[2], {"case": j, "result": t}))
    c.report(bad)
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.sample(jobs[0]); c.sample(jobs[nmodel])
    c.assumptions += ["the properties that the Unicode standard gives to the characters used (table in the specification)", "marks on an ignorable base, and nuktas that follow other marks, are not judged"]
