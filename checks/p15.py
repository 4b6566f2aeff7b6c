"""P15: spreadsheets that say what is where in LDML"""
import os
import re
import sys
from xml.sax.saxutils import escape, quoteattr
import treelib as TL
import vf
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "drivers"))
from sheet import grids

SIL = "urn://www.sil.org/ldml/0.1"
USED = ["Core", "Posix", "Minimal", "Basic"]
SINGLE = ["characters/exemplarCharacters", "layout/orientation/characterOrder", "delimiters/quotationStart", "numbers/defaultNumberingSystem", "dates/timeZoneNames/regionFormat",
          "localeDisplayNames/localeDisplayPattern/localeSeparator", "numbers/decimalFormats[@numberSystem=\"latn\"]/decimalFormatLength/decimalFormat/pattern",
          'characters/exemplarCharacters[@type="index"]', 'characters/exemplarCharacters[@type="auxiliary"]', 'dates/timeZoneNames/regionFormat[@type="standard"]',
          'localeDisplayNames/measurementSystemNames/measurementSystemName[@type="UK"]', 'dates/timeZoneNames/metazone[@type="Europe/x y"]/long/standard', 'numbers/symbols[@numberSystem="latn"]/group']
ATTRS = ["identity/language[@type]", "identity/script[@type]", "identity/territory[@type]", "identity/special/sil:identity[@windowsLCID]"]
D1 = ['localeDisplayNames/languages/language[@type="$row"]', 'localeDisplayNames/scripts/script[@type="$row"]', 'numbers/currencies/currency[@type="$row"]/symbol', 'dates/timeZoneNames/zone[@type="$row"]/exemplarCity']
D2 = ['dates/calendars/calendar[@type="$col"]/months/monthContext[@type="format"]/monthWidth[@type="wide"]/month[@type="$row"]', 'dates/timeZoneNames/metazone[@type="$col"]/long/$row']
D2R = ['dates/calendars/calendar[@type="generic"]/days/dayContext[@type="$row"]/dayWidth[@type="wide"]/day[@type="$col"]', 'numbers/symbols[@numberSystem="$row"]/$col']
D2X = [['localeDisplayNames/territories/territory[@type="$row"]', 'numbers/currencies/currency[@type="$row"]/displayName'], ['localeDisplayNames/variants/variant[@type="$row"]'],
       ['dates/calendars/calendar[@type="$row"]/x', 'dates/calendars/calendar[@type="$row"]/y', 'dates/calendars/calendar[@type="$row"]/z']]
HEADS = ["a", "b1", "en", "America/New_York", "x y", "a]b", "a[b", "Deva", "USD", "$", "\u0915", "P&Q", "<t>"]
TAGS = ["decimal", "group", "minusSign", "standard", "daylight", "generic"]


def parse(v):
    """ what a first cell says """
    def qs(x): return x.replace("'", '"')
    for k in ("table1d", "table2dx", "table2dr", "table2d"):
        if not v.startswith(k + "("): continue
        x = v[len(k) + 1:-1]
        if k == "table2dx": return {"v": v, "k": k, "cols": [dict(zip(("beg", "end"), map(qs, y.split("$row")))) for y in x.split(",")]}
        a, b = x.split("$row")
        if k == "table1d": return {"v": v, "k": k, "beg": qs(a), "end": qs(b)}
        if k == "table2d": return dict(zip(("beg", "mid", "end", "v", "k"), [qs(y) for y in a.split("$col")] + [qs(b), v, k]))
        return dict(zip(("beg", "mid", "end", "v", "k"), [qs(a)] + [qs(y) for y in b.split("$col")] + [v, k]))
    m = re.match(r"""(.*)\[@([^]="']+)\]$""", v)
    return {"v": v, "k": "attr", "path": qs(m.group(1)), "att": m.group(2)} if m else {"v": v, "k": "path", "path": qs(v)}


def value(r, plain):
    v = "".join(r.choice(["a", "b", "v1", "{0}", "<", "&", '"', "'", "[", "]", "/", "\u0915", "\U0001e900", " ", "."] if not plain else ["a", "b", "v1", "-", "\u0915", "Z", "&", "<"]) for i in range(r.randint(1, 5)))
    return re.sub(r"\s+", " ", v).strip() or "v"


def table(r, filling):
    """ rows of one sheet, and paths that they are about """
    rows, was = [], ""
    for i in range(r.randint(1, 5)):
        k = r.choice(["path", "path", "attr", "table1d", "table2d", "table2dr", "table2dx", "blank", "note"])
        if was and was != "table2dx" and k not in ("blank", "note"): rows.append(r.choice([[], ["", "", ""], ["", "note"]]))
        q = r.choice(['"', '"', "'"])
        cell = lambda: value(r, False) if r.random() < (.3 if filling else .75) else ""
        def label(): return r.choice(["", "label", "main"])
        if k == "blank": rows.append([] if was == "table2dx" else r.choice([[], [""], ["", "", ""]])); was = ""; continue
        if k == "note":
            if was == "table2dx": rows.append([])
            rows.append(["", "note", "x", "y"]); was = ""; continue
        if k in ("path", "attr"):
            p = r.choice(SINGLE if k == "path" else ATTRS)
            rows.append([p.replace('"', q), label(), (cell() if k == "path" else value(r, True) if r.random() < .7 else "")] + r.choice([[], ["other"]]))
            was = ""
            continue
        was = k
        n = r.randint(0, 3)
        if k == "table2dx":
            cols = r.choice(D2X)
            rows.append(["table2dx(" + ",".join(cols).replace('"', q) + ")", label()] + ["t"] * r.choice([0, len(cols)]))
            for j in range(n): rows.append(["", r.choice(HEADS + [""])] + [cell() for x in cols][:None if filling else r.choice([None, None, 1, 0])] + r.choice([[], ["extra"]]))
            continue
        if k == "table1d":
            rows.append(["table1d(" + r.choice(D1).replace('"', q) + ")"] + r.choice([[], ["l"], ["l", "x"]]))
            for j in range(n): rows.append([r.choice(HEADS), label(), cell()][:None if filling else r.choice([None, None, None, 2, 1])])
            continue
        p = r.choice(D2 if k == "table2d" else D2R)
        tag = "row" if p.endswith("/$row") else "col" if p.endswith("/$col") else ""
        hs = r.sample(TAGS if tag == "col" else HEADS, r.randint(1, 3))
        rows.append([k + "(" + p.replace('"', q) + ")", label()] + hs + r.choice([[], ["", "no heading"]]))
        for j in range(n): rows.append([r.choice(TAGS if tag == "row" else HEADS), label()] + [cell() for x in hs][:None if filling else r.choice([None, None, 1])] + ([r.choice(["", "extra"])] if not filling or r.random() < .5 else []))
    return rows


def paths(rows):
    """ in the same way as the specification, for making documents only """
    mode, res = None, []
    for row in rows:
        r = row + [""] * 20
        if mode and (mode["k"] == "table2dx" and r[0] == "" and len(row) > 1 or mode["k"] != "table2dx" and r[0]):
            if mode["k"] == "table1d": res.append((mode["beg"] + r[0] + mode["end"], None))
            elif mode["k"] == "table2dx": res += [(x["beg"] + r[1] + x["end"], None) for x in mode["cols"] if r[1]]
            else: res += [(mode["beg"] + (h + mode["mid"] + r[0] if mode["k"] == "table2d" else r[0] + mode["mid"] + h) + mode["end"], None) for h in mode["heads"]]
            continue
        mode = None
        if r[0]:
            d = parse(r[0])
            if d["k"] == "path": res.append((d["path"], None))
            elif d["k"] == "attr": res.append((d["path"], d["att"]))
            else:
                mode = d
                hs = r[2:]
                d["heads"] = hs[:hs.index("")]
    return res


def document(entries):
    """ [path, att, value or text] as LDML """
    root = ["ldml", {}, [], ""]
    for p, a, v in entries:
        e = root
        steps = re.findall(r'(?:^|/)([^/\["]+)((?:\[@[^=]+="[^"]*"\])*)', p)
        for i, (tag, tests) in enumerate(steps):
            atts = dict(re.findall(r'\[@([^=]+)="([^"]*)"\]', tests))
            last = i == len(steps) - 1
            if last and a: atts[a] = v
            for c in e[2]:
                if c[0] == tag and c[1] == atts: break
            else:
                c = [tag, atts, [], ""]
                e[2].append(c)
            e = c
        if not a: e[3] = v

    def show(e): return "<%s%s>%s%s</%s>" % (e[0], "".join(" %s=%s" % (k, quoteattr(v)) for k, v in e[1].items()), escape(e[3]), "".join(map(show, e[2])), e[0])
    root[1]["xmlns:sil"] = SIL
    return show(root)


def doc(r, covered):
    es, seen = [], set()
    want = [x for x in covered if r.random() < .6 and '=""' not in x[0]]     # those are to be completed by hand
    want += [(p, None) for p in SINGLE if r.random() < .15]
    r.shuffle(want)
    for p, a in want:
        if (p, a) in seen: continue
        seen.add((p, a))
        es.append((p, a, value(r, a is not None)))
    return es


def entry(p, a, v):
    if a: return {"path": p + '[@%s="%s"]' % (a, v), "of": p, "att": a, "value": v, "text": ""}
    return {"path": p, "of": p, "att": "", "value": "", "text": v}


def encode(r, row):
    """ cells of a row as in a file, with the first column """
    if row == []: return [[1024, ""]]
    cs = []
    for t in [r.choice(["", "x"])] + row:
        if cs and cs[-1][1] == t and cs[-1][0] < 9 and r.random() < .7: cs[-1][0] += 1
        else: cs.append([1, t])
    return cs + [[r.choice([1, 5, 1015]), ""]] * (r.random() < .9)


def sheets(r, filling, some):
    res = []
    for rows in some:
        if r.random() < .15: res.append(["Notes", [[[1, ""], [1, SINGLE[0]], [1, ""], [1, "not for here"]]]])
        res.append([r.choice(USED), [encode(r, x) + ([[1000, ""]] if filling and x else []) for x in rows]])
    return res


def run(c):
    r = c.rng
    got = c.model("SheetMC", "CONSTANTS\n MaxRows = %d\n Emit = TRUE\n" % c.n(3, 4), invariants=["Same", "Kept", "RoundTrip", "Out"])
    D = {"P": "characters/exemplarCharacters", "A": "identity/language[@type]", "1": 'table1d(localeDisplayNames/languages/language[@type="$row"])', "2": "table2d(dates/timeZoneNames/metazone[@type='$col']/long/$row)",
         "X": 'table2dx(numbers/currencies/currency[@type="$row"]/displayName,numbers/currencies/currency[@type="$row"]/symbol)'}
    cases = []
    for x in r.sample(got, min(len(got), c.n(1500, 20000))):
        rows = [[D.get(y, y) if i == 0 else y for i, y in enumerate(row)] for row in x["rows"]]
        if any(y.startswith("table") for p, a in paths(rows) for y in p.split("/")): continue
        cases.append((rows, r.random() < .5))
    jobs, ts = [], []

    def add(tables, kind, how, covered=None):
        flat = [x for t in tables for x in t + [[]]]
        ps = paths(flat)
        if any(re.search(r'\[@[^="]*\]', p) for p, a in ps): return      # tests that attributes are there
        if any('"' in re.sub(r'\[@[^=]+="[^"]*"\]', "", p) for p, a in ps) or any(re.search(r"(^|/)($|[^a-zA-Z])", re.sub(r'"[^"]*"', "", p)) for p, a in ps): return
        j = {"kind": kind, "how": how, "sheets": []}
        t = {"kind": kind, "sheets": tables, "says": [], "doc": [], "grid": [], "got": [], "failed": ""}
        for x in flat:
            if x and x[0] and x[0] not in [y["v"] for y in t["says"]]:
                try: t["says"].append(parse(x[0]))
                except (ValueError, TypeError): t["says"].append({"v": x[0], "k": "none"})
        if kind == "fill":
            es = doc(r, ps)
            j["doc"] = document(es)
            t["doc"] = [entry(*x) for x in es]
        if how == "tsv": j["sheets"] = [["", tables[0]]]
        elif how == "ods": j["sheets"] = sheets(r, kind == "fill", tables)
        jobs.append(j)
        ts.append(t)
    for rows, tsv in cases: add([rows], "make", "tsv" if tsv else "ods")
    nmodel = len(jobs)
    for i in range(c.n(3000, 30000)): add([table(r, False) for j in range(r.choice([1, 1, 2]))] if i % 2 else [table(r, False)], "make", "ods" if i % 2 else "tsv")
    for i in range(c.n(1500, 15000)): add([table(r, True) for j in range(r.choice([1, 2]))], "fill", "ods")
    shipped = [[row[1:] for row in g] for n, g in grids(os.path.join(vf.REPO, "data", "LDML_entry.ods")) if n in USED]
    shipped = [[x if any(x) else [] for x in g] for g in shipped]
    for i in range(c.n(40, 400)): add(shipped, "fill", "template")
    bad = []
    for i, (j, t, x) in enumerate(zip(jobs, ts, c.drive("sheet", jobs))):
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else:
            t["got"] = x["got"]
            used = [y for y in x["grid"] if y[0] in USED]
            for n, g in used: t["grid"] += [[]] + [row[1:] if any(row[1:]) else [] for row in g]
    for j, t, v in zip(jobs, ts, c.validate("SheetTrace", ts)):
        if not v[0]: bad.append((v[2], {"case": j, "result": t}))
    c.report(bad)
    c.cov["model_cases_replayed"] = nmodel
    c.cov["random_cases"] = len(jobs) - nmodel
    c.sample(jobs[0]); c.sample(jobs[nmodel])
    c.assumptions += ["cells have no quotes where they are used in paths, and runs of ten or more of the same cell only at the end of rows"]
