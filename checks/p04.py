"""P04: what is written is what was in memory"""
import json
from xml.parsers import expat
from xml.sax.saxutils import escape
import ldmltree as L

CHARS = list("ab <>&\"'\u00e9") + ["\u0301", "\u0915\u094d", "\U0001F600", "\u00a0", "\u2028", "\u0085", "\ufeff", "\u200d", "]]>", "--",
         "&amp;", "&#65;", "\t", "\n", "\n\n", "  ", "\r", "{x}", "%s", "\\", "\u2191"]
URIS = [L.SIL, "urn:x", "urn:y", "http://e.org/a?b&c", "urn:d"]
PREFS = ["", "sil", "x", "y", "ns1", "ns2", "a-b"]


def rtext(r, cr=True, n=6):
    return "".join(r.choice(CHARS) for i in range(r.randint(0, n))) .replace("\r", "\r" if cr else "")


def gen(r, depth=0, uris=URIS, cdata=True):
    u = r.choice(uris + ["", ""])
    l = r.choice(["a", "b", "note", "c.d", "\u00e9l"]) if u else r.choice(["characters", "b", "cr", "c", "dates"])
    if not depth: u, l = "", "ldml"
    n = {"u": u, "l": l, "a": [], "t": "", "k": [], "c": []}
    seen = set()
    for i in range(r.choice([0, 0, 1, 2, 3])):
        k = (r.choice(uris + ["", "", "", L.XML]), r.choice(["type", "b", "lang", "z"]))
        if k[0] == L.XML: k = (L.XML, "lang")
        if k not in seen:
            seen.add(k)
            n["a"].append([k[0], k[1], rtext(r)])
    if depth < 4 and r.random() < (.75 if depth else 1):
        for i in range(r.randint(1, 3)):
            n["k"].append(gen(r, depth + 1, uris, cdata))
    else:
        # a carriage return can't be written in CDATA
        n["t"] = rtext(r, cr=(l not in ("note", "cr", "text")))
    if r.random() < .1:
        n["c"].append(r.choice(["c", "two\nlines", "<&>", " \u00e9 - x"]))
    return n


def render(n, r, prefs=PREFS):
    o = []

    def rec(n, env, depth):
        env = dict(env)
        decl = []

        def pre(u, el):
            """ a prefix for u, declaring one if need be """
            if u == "":
                if el and env.get("", "") != "":
                    env[""] = ""
                    decl.append(("", ""))
                return ""
            if u == L.XML: return "xml"
            ok = [p for p, x in env.items() if x == u and (el or p)]
            taken = {p for p, x in decl} | used
            if ok and r.random() < .9: p = r.choice(ok)
            else:
                c = [p for p in prefs if (el or p) and p not in taken]
                p = r.choice(c) if c else "q%d" % len(taken)
                env[p] = u
                decl.append((p, u))
            used.add(p)
            return p
        used = set()
        for c in n["c"]: o.append("<!--%s-->" % c)
        p = pre(n["u"], True)
        if not n["u"]: used.add("")
        g = (p + ":" if p else "") + n["l"]
        ats = []
        for u, l, v in n["a"]:
            q = pre(u, False)
            ats.append(((q + ":" if q else "") + l, v))
        o.append("<" + g)
        for q, u in decl: o.append(" xmlns%s=%s" % (":" + q if q else "", L.attval(u)))
        for k, v in ats: o.append(" %s=%s" % (k, L.attval(v)))
        o.append(">")
        if n["k"]:
            for k in n["k"]: rec(k, env, depth + 1)
        else: o.append(L.textval(n["t"], r))
        o.append("</%s>" % g)
    rec(n, {"sil": L.SIL} if False else {}, 0)
    return "".join(o)


def comments(n):
    res = list(n["c"])
    for k in n["k"]: res += comments(k)
    return res


def raw(txt):
    """ a document as written, namespaces not considered """
    p = expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    stack, res, coms = [], [], []
    cd = [False]

    def q(x):
        a, b, c = x.partition(":")
        return (a, c) if b else ("", a)

    def start(g, ats):
        n = {"p": q(g)[0], "l": q(g)[1], "d": [], "a": [], "t": "", "k": [], "cdt": "", "cd": False}
        for i in range(0, len(ats), 2):
            k, v = ats[i], ats[i + 1]
            if k == "xmlns": n["d"].append(["", v])
            elif k.startswith("xmlns:"): n["d"].append([k[6:], v])
            else: n["a"].append([q(k)[0], q(k)[1], v])
        if stack: stack[-1]["k"].append(n)
        else: res.append(n)
        stack.append(n)

    def end(g):
        n = stack.pop()
        # CDATA may be split to hold its own end marker
        n["cd"] = n["t"] != "" and n.pop("cdt") == n["t"]
        n.pop("cdt", None)
        if n["k"] and not n["t"].strip(" \t\r\n"): n["t"] = ""

    def text(s):
        if stack:
            stack[-1]["t"] += s
            if cd[0]: stack[-1]["cdt"] += s

    def scd(): cd[0] = True
    def ecd(): cd[0] = False
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.StartCdataSectionHandler, p.EndCdataSectionHandler = scd, ecd
    p.CommentHandler = coms.append
    p.Parse(txt.encode("utf-8"), True)
    return res[0], coms


def encode(traces):
    ss = {L.SIL, L.XML, "xml", "sil", "note", "text", "cr"}

    def coll(x):
        if isinstance(x, str): ss.add(x)
        elif isinstance(x, dict):
            for k, v in x.items(): coll(v)
        elif isinstance(x, list):
            for v in x: coll(v)
    for t in traces:
        for s in t["steps"]:
            for f in ("mem", "raw", "com", "rawcom"): coll(s.get(f))
    ss.discard("")
    tab = sorted(ss)
    I = {s: i + 1 for i, s in enumerate(tab)}
    I[""] = 0

    def conv(x):
        if isinstance(x, str): return I[x]
        if isinstance(x, dict): return {k: conv(v) for k, v in x.items()}
        if isinstance(x, list): return [conv(v) for v in x]
        return x
    out = [{"steps": [dict(s, **{f: conv(s[f]) for f in ("mem", "raw", "com", "rawcom")}) for s in t["steps"]]} for t in traces]
    return out, {"texts": [[ord(c) for c in s] for s in tab], "xmlenv": [[I["xml"], I[L.XML]]],
                 "cdata": [[I["sil"], I["note"]], [I["sil"], I["text"]], [0, I["cr"]]]}


def run(c):
    r = c.rng
    cases = []
    got = c.model("XmlMC", "CONSTANTS\n Uris = {1, 2}\n Prefs = {11, 12}\n MaxDecl = %d\n Emit = TRUE\n" % c.n(2, 3),
                  invariants=["OnePrefixEach", "Faithful"])
    U = {1: "urn:x", 2: "urn:y", 50: L.SIL}
    P = {11: "x", 12: "ns1", 0: "", 51: "sil"}
    for g in got if len(got) < 1500 else r.sample(got, 1500):
        # one after another and one within another
        x = "".join('<%sb xmlns%s="%s" c="1"><%sd/></%sb>' % ((P[p] + ":" if p else ""), (":" + P[p] if p else ""), U[u],
                                                              (P[p] + ":" if p else ""), (P[p] + ":" if p else "")) for p, u in g["decls"])
        y = "<e/>"
        for p, u in reversed(g["decls"]):
            q = P[p] + ":" if p else ""
            y = '<%sb xmlns%s="%s" %s>%s</%sb>' % (q, ":" + P[p] if p else "", U[u], q + 'c="1"', y, q)
        docs = [{"xml": "<ldml>%s</ldml>" % z, "ud": False, "edits": [], "mode": "ldml", "com": [], "plain": False} for z in (x, y)]
        cases.append({"docs": docs, "steps": [[0, True, False, False], [1, False, False, False], [0, False, True, False], [1, True, True, False]]})
    nmodel = len(cases)
    for i in range(c.n(500, 8000)):
        docs = []
        uris = r.sample(URIS, r.randint(0, 4))
        plain = r.random() < .3           # the usual prefixes only
        if plain: uris = [L.SIL]
        for j in range(r.randint(1, 3)):
            d = gen(r, uris=uris)
            x = render(d, r, ["sil"] if plain else PREFS)
            mode = "et" if r.random() < .15 else "ldml"
            edits = []
            for k in range(r.choice([0, 0, 1, 3]) if mode == "ldml" else 0):
                ed = [r.choice(["text", "attr", "add", "com"]), r.randint(0, 40)]
                if ed[0] == "text": ed += [rtext(r, cr=False)]
                elif ed[0] == "attr": ed += [r.choice(["n", "{%s}at" % L.SIL, "{urn:new}z", "{%s}lang" % L.XML]), rtext(r)]
                elif ed[0] == "com": ed += ["".join(r.choice(["-", "-", "--", ">", "x", " ", "<!--", "&"]) for y in range(r.randint(1, 6)))]
                else: ed += [r.choice(["new", "{urn:new}b", "{%s}thing" % L.SIL]), rtext(r, cr=False)]
                edits.append(ed)
            docs.append({"xml": x, "ud": r.random() < .5, "edits": edits, "mode": mode, "com": comments(d) + [e[2] for e in edits if e[0] == "com"] if mode == "ldml" else [], "plain": plain and mode == "ldml"})
            # comments of repeated elements go with these, and values added to an item become its alternates
            if docs[-1]["com"] or any(e[0] == "add" for e in edits): docs[-1]["ud"] = False
        steps = [[r.randrange(len(docs)), r.random() < .6, r.random() < .5, r.random() < .1] for k in range(r.randint(1, 5))]
        cases.append({"docs": docs, "steps": steps})
    res = c.drive("xmlwrite", cases)
    traces = []
    for case, x in zip(cases, res):
        t = {"steps": []}
        if c.isfailure(x):
            t["steps"].append(dict(blank(), failed="the code failed"))
        else:
            for st, o, al in zip(case["steps"], x["steps"] if isinstance(x["steps"], list) else [x["steps"]], x["alone"]):
                s = dict(blank(), top=st[1], alone=True, docdata=case["docs"][st[0]]["plain"], com=case["docs"][st[0]]["com"])
                s["checkcd"] = True
                if "exc" in o:
                    s["failed"] = "the code failed"
                else:
                    s["mem"] = o["mem"]
                    s["alone"] = o["out"] == al
                    try:
                        s["raw"], s["rawcom"] = raw(o["out"])
                        if not case["docs"][st[0]]["plain"]: nocd(s["raw"])
                        expat.ParserCreate(namespace_separator="}").Parse(o["out"].encode("utf-8"), True)
                        if not o["out"].startswith('<?xml version="1.0" encoding="utf-8"?>'):
                            s["failed"] = "no XML declaration"
                    except (expat.ExpatError, UnicodeError) as e:
                        s["failed"] = "not well-formed XML"
                t["steps"].append(s)
        traces.append(t)
    verdicts = []
    for o in range(0, len(traces), 300):
        ts, data = encode(traces[o:o + 300])
        verdicts += c.validate("XmlTrace", ts, data=data)
    c.report([(v[2], {"case": case, "step": v[1], "result": x}) for case, x, v in zip(cases, res, verdicts) if not v[0]])
    c.cov["model_histories_replayed"] = nmodel
    c.cov["random_histories"] = len(cases) - nmodel
    c.cov["documents_written"] = sum(len(x["steps"]) for x in cases)
    c.sample(cases[0]); c.sample(cases[-1])
    c.assumptions += ["characters allowed in XML 1.0; no carriage return in CDATA; the document itself is in no namespace"]


def nocd(n):
    """ where the prefixes vary only plain documents are judged for CDATA """
    n["cd"] = False
    for k in n["k"]: nocd(k)


def blank():
    return {"failed": "", "mem": {"u": "", "l": "", "a": [], "t": "", "k": []},
            "raw": {"p": "", "l": "", "d": [], "a": [], "t": "", "k": [], "cd": False}, "com": [], "rawcom": [],
            "top": True, "alone": True, "docdata": False}
