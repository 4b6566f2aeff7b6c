"""P11: Unicode sets"""
import re, unicodedata
import treelib as TL

SYNTAX = "[]{}\\&-|^$:"
SIMPLE = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r"}
CHARS = list("abcxuU019'/\"#%()*+,.;<=>?@_`~!") + list(SYNTAX) * 2 + [" ", "\n", "\t", "\x07", "\x0c", "\u00a0", "\u00e9", "\u0300", "\u0301", "\u0915", "\u093c", "\u200c", "\u200d", "\u2028",
                                                     "\ufeff", "\u202e", "\ue000", "\uffff", "\U0001f600", "\U0001d16f", "\U000e0100", "\U0010ffff", "\x00", "\x7f", "\u0041\u0300"[1]]
LITERAL_NOT = set(SYNTAX + " ")


def char(ch, r, literal=True):
    """ one of the ways to write a character """
    n = ord(ch)
    w = []
    if ch not in LITERAL_NOT and literal: w += [ch] * 4
    elif not ch.isalnum() or ord(ch) > 127: w += ["\\" + ch] * 3
    if r.random() < .4 or not w:
        w = ["\\x{%x}" % n, "\\u{%X}" % n, "\\U%08X" % n]
        if n < 0x10000: w.append("\\u%04x" % n)
        if n < 0x100: w.append("\\x%02X" % n)
        if n in SIMPLE: w.append("\\" + SIMPLE[n])
        if ch not in "0123456789abtnvfrxuUNpPcek" and not ch.isspace(): w.append("\\" + ch)
    return r.choice(w)


def spell(ts, r):
    """ an expression of tokens """
    o = []
    for t in ts:
        if t["k"] == "s":
            s = t["s"]
            if len(s) == 1 and r.random() < .85: o.append(char(s, r))
            elif r.random() < .2: o.append("\\u{%s}" % " ".join("%X" % ord(x) for x in s))
            else: o.append("{" + (" " if r.random() < .1 else "").join(char(x, r) for x in s) + "}")
        elif t["k"] == "r": o += [char(t["lo"], r), "-", char(t["hi"], r)]
        else: o.append(t["k"])
    return "".join(x + (" " * r.choice([0, 0, 1, 2]) if r.random() < .3 else "") for x in o)


def codes(s): return [ord(x) for x in s]


def tok(t):
    """ for the specification """
    if t["k"] == "s": return {"k": "s", "s": codes(t["s"])}
    if t["k"] == "r": return {"k": "r", "lo": ord(t["lo"]), "hi": ord(t["hi"])}
    return {"k": t["k"]}


def item(r, chars):
    x = r.random()
    if x < .6: return {"k": "s", "s": r.choice(chars)}
    if x < .8: return {"k": "s", "s": "".join(r.choice(chars) for i in range(r.randint(2, 4)))}
    lo = r.choice(chars)
    hi = min(0x10ffff, ord(lo) + r.choice([0, 1, 2, 5, 20]))
    if 0xd800 <= hi < 0xe000 or ord(lo) < 0xd800 <= hi: hi = ord(lo)
    return {"k": "r", "lo": lo, "hi": chr(hi)}


def expr(r, chars, depth, top=True):
    ts = [{"k": "[^" if r.random() < (.1 if top else .2) else "["}]
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 4]) if not top else r.randint(1, 4)):
        if depth and r.random() < .5:
            if len(ts) > 1 and r.random() < .7: ts.append({"k": r.choice("&-")})
            ts += expr(r, chars, depth - 1, False)
        else: ts.append(item(r, chars))
    return ts + [{"k": "]"}]


def lex(s):
    """ tokens of a written set, which has no operators nor ranges """
    ts, i = [], 0
    def one(i):
        if s[i] != "\\": return s[i], i + 1
        for p, base in ((r"\\u\{([0-9a-fA-F]+)\}", 16), (r"\\x\{([0-9a-fA-F]+)\}", 16), (r"\\u([0-9a-fA-F]{4})", 16), (r"\\U([0-9a-fA-F]{8})", 16), (r"\\x([0-9a-fA-F]{2})", 16)):
            m = re.compile(p).match(s, i)
            if m: return chr(int(m.group(1), base)), m.end()
        return {v: chr(k) for k, v in SIMPLE.items()}.get(s[i + 1], s[i + 1]), i + 2
    if s[:1] != "[" or s[-1:] != "]": return None
    ts.append({"k": "["})
    i, e = 1, len(s) - 1
    while i < e:
        if s[i] == " ": i += 1
        elif s[i] == "{":
            o, i = "", i + 1
            while i < e and s[i] != "}":
                if s[i] == " ": i += 1
                elif s[i] in "[]{": return None
                else:
                    x, i = one(i)
                    o += x
            if i >= e or not o: return None
            ts.append({"k": "s", "s": o})
            i += 1
        elif s[i] in "[]}&-" or (s[i] == "^" and i == 1): return None
        else:
            x, i = one(i)
            ts.append({"k": "s", "s": x})
    return ts + [{"k": "]"}] if i == e else None


def run(c):
    r = c.rng
    got = c.model("USetMC", "CONSTANTS\n MaxLen = %d\n Emit = TRUE\n" % c.n(8, 9), invariants=["Good", "Out"])
    nmodel = c.n(4000, 40000)
    cases = []
    for g in (got if len(got) <= nmodel else r.sample(got, nmodel)):
        lo = r.choice(CHARS[:-12])
        three = [lo, chr(ord(lo) + 1), chr(ord(lo) + 2)]
        f = lambda t: {"k": "s", "s": "".join(three[x - 1] for x in t["s"])} if t["k"] == "s" else {"k": "r", "lo": three[0], "hi": three[2]} if t["k"] == "r" else t
        cases.append({"what": "read", "ts": [f(t) for t in g]})
    for i in range(c.n(4000, 60000)):
        cases.append({"what": "read", "ts": expr(r, r.choice([CHARS, r.sample(CHARS, 4), list("abcd")]), r.choice([0, 1, 2, 3]))})
    for i in range(c.n(4000, 60000)):
        chars = r.choice([CHARS, CHARS, list(SYNTAX), r.sample(CHARS, 3)])
        if i < len(CHARS): l = [CHARS[i]]
        elif r.random() < .2: l = [chr(r.choice([r.randint(1, 0xd7ff), r.randint(0xe000, 0x10ffff), r.randint(1, 0x2fff)])) for j in range(r.randint(1, 5))]
        else: l = ["".join(r.choice(chars) for k in range(r.choice([1, 1, 2, 3, 5]))) for j in range(r.randint(0, 6))]
        cases.append({"what": "write", "strings": l})
    for i in range(c.n(1500, 20000)):
        chars = r.choice([CHARS, r.sample(CHARS, 4), list("abcd")])
        sets = []
        for j in range(r.randint(1, 4)):
            if r.random() < .4: sets.append([{"k": "["}, {"k": "s", "s": r.choice(chars)}, {"k": "]"}])
            else:
                e = expr(r, chars, r.choice([0, 0, 1]))
                while sum(ord(t["hi"]) - ord(t["lo"]) for t in e if t["k"] == "r") > 6 or e[0]["k"] == "[^": e = expr(r, chars, r.choice([0, 0, 1]))
                sets.append(e)
        cases.append({"what": "flatten", "sets": sets, "normal": r.choice([None, None, "NFC", "NFD"])})
    for j in cases:
        if j["what"] == "read": j["text"] = spell(j["ts"], r)
        elif j["what"] == "flatten":    # a set of one character may be just that
            j["text"] = "".join(spell(e[1:-1] if len(e) == 3 and e[1]["k"] == "s" and r.random() < .5 else e, r) for e in j["sets"])
    res = c.drive("uset", cases)
    traces = []
    for j, x in zip(cases, res):
        t = {"what": j["what"], "failed": "", "ts": [], "got": {"neg": False, "members": []}, "strings": [], "sets": [], "normal": []}
        if j["what"] == "read": t["ts"] = [tok(k) for k in j["ts"]]
        if j["what"] == "write": t["strings"] = [codes(s) for s in j["strings"]]
        if j["what"] == "flatten":
            t["sets"] = [[tok(k) for k in e] for e in j["sets"]]
            if j["normal"]:
                every = set(k["s"] for e in j["sets"] for k in e if k["k"] == "s") | set(chr(x) for e in j["sets"] for k in e if k["k"] == "r" for x in range(ord(k["lo"]), ord(k["hi"]) + 1))
                t["normal"] = [[codes(s), codes(unicodedata.normalize(j["normal"], s))] for s in sorted(every)]
        if c.isfailure(x): t["failed"] = TL.failed(x)
        else:
            if "got" in x: t["got"] = {"neg": x["got"]["neg"], "members": [codes(s) for s in x["got"]["members"]]}
            if j["what"] == "write":
                ts = lex(x["text"])
                if ts is None: t["failed"] = "not a set of characters and strings"
                else: t["ts"] = [tok(k) for k in ts]
            if j["what"] == "flatten": t["strings"] = [codes(s) for s in x["strings"]]
        traces.append(t)
    ver = c.validate("USetTrace", traces)
    c.report([(v[2], {"case": j, "result": x}) for j, x, v in zip(cases, res, ver) if not v[0]])
    c.cov["model_expressions"] = len(got)
    c.cov["replayed_of_these"] = min(len(got), nmodel)
    for w in ("read", "write", "flatten"): c.cov["cases_" + w] = sum(1 for j in cases if j["what"] == w)
    c.cov["not_judged"] = sum(1 for v in ver if v[2] == "-")
    c.sample(cases[0]); c.sample(cases[len(cases) // 2]); c.sample(cases[-1])
    c.assumptions += ["operators have sets to their right", "at the top level the set isn't of everything", "no property sets, variables nor group references"]
