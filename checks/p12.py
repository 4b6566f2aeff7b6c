"""P12: collation"""
import os, re
import treelib as TL
import vf

SYNTAX = '!"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'
ODD = ["\u0300", "\u0915", "\u0916\u093c", "\u1780", "\U00010400", "\U0001f600", "\u200d", "'", "a'b", "-", "&", "<", "=", "\\", "/", "#", "[", "]", "a b", "b #", "x/y", "\\u0061", "\u4e00", "ch", "Ch", "CH", "ng", "\u00e9", "e\u0301", "\u00df", "0", "\u0254", "\u02bc", "ng\u02bc", "''", "\u0130"]


def ducet():
    """ weights of letters that have just one collation element, by an independent reading
        of the table. Those that the code can't tell from characters beyond the BMP apart """
    single, starts, beyond = {}, set(), set()
    for l in open(os.path.join(vf.REPO, "lib", "sldr", "allkeys.txt"), encoding="utf-8"):
        m = re.match(r"([0-9A-F ]+?)\s*;\s*((?:\[[.*][0-9A-F.]+\])+)", l)
        if not m: continue
        cs = [int(x, 16) for x in m.group(1).split()]
        if len(cs) > 1: starts.add(cs[0])
        for x in m.group(1).split():
            if len(x) > 4: beyond.add(int(x[:4], 16))
        ws = re.findall(r"\[([.*])([0-9A-F]+)\.([0-9A-F]+)\.([0-9A-F]+)\]", m.group(2))
        if len(cs) == 1 and len(ws) == 1 and ws[0][0] == ".":
            w = [int(x, 16) for x in ws[0][1:]]
            if all(w): single[cs[0]] = w
    good = {chr(c): w for c, w in single.items() if c < 0x10000 and c not in starts and chr(c).isalpha()}
    return {c: w for c, w in good.items() if ord(c) not in beyond}, {c: w for c, w in good.items() if ord(c) in beyond}


def char(ch, r):
    n = ord(ch)
    if r.random() < .15:
        w = ["\\U%08x" % n, "\\U%08X" % n] + (["\\u%04X" % n, "\\u%04x" % n] if n < 0x10000 else [])
        return r.choice(w)
    if ch == "'": return r.choice(["''", "\\'"])
    if ch in SYNTAX or ch == " " and r.random() < .2: return "\\" + ch
    return ch


def spell(s, r): return "".join(char(x, r) for x in s)


def show(rules, r):
    sp = lambda: r.choice(["", "", " ", " ", "  ", "\n"])
    def end():
        x = r.random()
        if x < .06: return "\n#" + r.choice([" a comment", "& z < q", " < b", "", "#", " x / y = 'z"]) + "\n"
        if x < .12: return r.choice([" ", "\t"]) + "#" + r.choice([" a comment", " z, Z", " see & z < q", " not < b", "[x]", " y/x"]) + "\n"
        return ""
    o = r.choice(["", "", "# rules\n", "\n", " "])
    for x in rules:
        o += "&" + sp() + ("[before %d]" % x["before"] + sp() if x["before"] else "") + spell(x["base"], r) + end()
        for it in x["items"]:
            o += sp() + ("=" if it["l"] == 4 else "<" * it["l"]) + sp() + spell(it["s"], r)
            if it["e"]: o += sp() + "/" + sp() + spell(it["e"], r)
            o += end()
        o += r.choice(["", "\n", " "])
    return o


def run(c):
    r = c.rng
    letters, beyond = ducet()
    latin = [x for x in letters if ord(x) < 0x180]
    others = [x for x in letters if ord(x) >= 0x180]
    got = c.model("TailorMC", "CONSTANTS\n MaxItems = %d\n MaxResets = 2\n Emit = TRUE\n" % c.n(2, 3), invariants=["Weights", "Chain", "Out"], properties=["Placed"])
    txt = lambda s: "".join(chr(x) for x in s)
    cases = []
    for g in r.sample(got, min(len(got), c.n(1500, 20000))):
        rs = [{"base": txt(x["base"]), "before": x["before"], "items": [{"l": i["l"], "s": txt(i["s"]), "e": ""} for i in x["items"]]} for x in g if x["items"]]
        cases.append((rs, list("abcAdh"), ["ach", "hc", "xa", "xA"]))
    nmodel = len(cases)
    for n in range(c.n(3000, 60000)):
        many = r.random() < .1
        ls = r.sample("abcdeghknoyz", 12 if many else 5) + r.sample(latin, 3) + r.sample(others, 2)
        ls += [x.upper() for x in ls[:2] if x.upper() in letters]
        pool = list(dict.fromkeys(ls + r.sample(ODD, 8) + ["".join(r.choice(ls) for i in range(r.randint(2, 3))) for j in range(20 if many else 4)]))
        r.shuffle(pool)
        used, rs, last = [], [], []
        starts = r.sample(ls, min(len(ls), 11 if many else 4))
        if r.random() < .9: pool = [x for x in pool if x not in starts]
        for i in range(r.randint(5, 9) if many else r.randint(1, 4)):
            base = r.choice(last if r.random() < .8 else used) if used and r.random() < .2 else "".join(starts[i:i + 1] + r.sample(ls, r.choice([0, 0, 0, 0, 0, 1, 1, 2])))
            before = r.randint(1, 3) if r.random() < (.8 if many else .15) and base not in used else 0
            if base in used and r.random() < .3: base += r.choice(ls)
            items = []
            for j in range(r.choice([1, 1, 1, 3, 4]) if many else r.randint(1, 4)):
                s = pool.pop() if pool else ""
                if not s or s == base: continue
                used.append(s)
                items.append({"l": before if before and (not items or many and r.random() < .6) else r.choice([1, 1, 1, 2, 2, 3, 3, 3, 4]), "s": s, "e": ""})
            if items and len(base) == 1 and r.random() < .3: items[-1]["e"] = r.choice(["".join(r.sample(ls, r.randint(1, 2))), r.choice(used)])
            last += [x["s"] for x in items[-1:]]
            if items: rs.append({"base": base, "before": before, "items": items})
        if rs: cases.append((rs, ls, ["".join(r.choice(ls + used) for i in range(r.randint(1, 4))) for j in range(5)]))
    # letters with codes that others begin with
    for x in "\u1d43":
        cases.append(([{"base": "a", "before": 0, "items": [{"l": 1, "s": "x", "e": ""}]}], ["a", x, "z"], [x]))
    known = len(cases) - 1
    jobs, ts = [], []
    for i, (rs, ls, words) in enumerate(cases):
        ss = [x for x in dict.fromkeys([y["base"] for y in rs] + [z["s"] for y in rs for z in y["items"]] + r.sample(ls, min(len(ls), 4)) + words) if x]
        jobs.append({"text": show(rs, r), "strings": ss, "wrap": r.choice([0, 0, 0, 8, 40]), "script": i % 60 == 7, "rules": rs, "letters": sorted(set("".join(ls)))})
    res = c.drive("tailor", [{k: v for k, v in j.items() if k not in ("rules", "letters")} for j in jobs], timeout=30)
    code = lambda s: [ord(x) for x in s]
    for j, x in zip(jobs, res):
        t = {"failed": "", "letters": [{"s": code(y), "w": {**letters, **beyond}[y]} for y in j["letters"]], "strings": [code(y) for y in j["strings"]],
             "rules": [{"base": code(y["base"]), "before": y["before"], "items": [{"l": z["l"], "s": code(z["s"]), "e": code(z["e"])} for z in y["items"]]} for y in j["rules"]],
             "got": [], "order": [], "ops": [], "sorted": []}
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else:
            t["got"] = [[[code(y[0]), y[1], y[2], y[3], y[4]] for y in z] for z in x["rules"]]
            t["order"], t["ops"], t["sorted"] = x["order"], x["ops"], x["sorted"]
        ts.append(t)
    ver = c.validate("TailorTrace", ts)
    if not ver[known][0]: c.violation(ver[known][2], {"case": jobs[known], "result": res[known]}, sig="beyond-bmp")
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in list(zip(jobs, res, ver))[:known] if not v[0]])
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.cov["not_judged"] = sum(1 for v in ver if v[2] == "-")
    c.sample(jobs[0]); c.sample(jobs[nmodel])
    c.assumptions += ["untailored text is of letters with one collation element", "strings that are put in the same place as others  or after something that is tailored later are not judged"]
