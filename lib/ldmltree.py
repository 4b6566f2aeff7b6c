"""Documents as trees, independently of the code under test: parsing, rendering in
various styles, generation from the DTD, and encoding for the specification."""

import os, re
from xml.parsers import expat
from xml.sax.saxutils import escape

REPO = os.environ.get("VERIF_REPO", "/repo")
SIL = "urn://www.sil.org/ldml/0.1"
XML = "http://www.w3.org/XML/1998/namespace"
PREFIX = {SIL: "sil", XML: "xml"}
URL = {v: k for k, v in PREFIX.items()}
DRAFTS = ['approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect']
ARROW = "\u2191\u2191\u2191"


def expand(name):
    p, s, l = name.partition(":")
    return "{%s}%s" % (URL[p], l) if s and p in URL else name


def local(name):
    if name.startswith("{"):
        u, l = name[1:].split("}")
        return (PREFIX.get(u) or "?") + ":" + l
    return name


# ---- parsing

def node(g, a=(), t="", k=(), c=(), e=()):
    return {"g": g, "a": [list(x) for x in a], "t": t, "k": list(k), "c": list(c), "e": list(e)}


def parse(data):
    """ bytes -> (root, comments after it). Tags and attributes are expanded names """
    if isinstance(data, str):
        data = data.encode("utf-8")
    p = expat.ParserCreate(namespace_separator="}")
    p.ordered_attributes = True
    p.buffer_text = True
    stack, pend, res = [], [], []

    def nm(x):
        return "{" + x if "}" in x else x

    def start(g, ats):
        n = node(nm(g), [(nm(ats[i]), ats[i + 1]) for i in range(0, len(ats), 2)], c=pend)
        pend.clear()
        if stack:
            stack[-1]["k"].append(n)
        else:
            res.append(n)
        stack.append(n)

    def end(g):
        n = stack.pop()
        n["e"] = list(pend)
        pend.clear()

    def text(s):
        if stack:
            stack[-1]["t"] += s

    def comment(s):
        pend.append(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text
    p.CommentHandler = comment
    p.Parse(data, True)
    return res[0], list(pend)


# ---- rendering

def attval(v, r=None):
    s = escape(v, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
    return '"%s"' % s


def textval(t, r=None):
    if r is not None and t and "\r" not in t:
        x = r.random()
        if x < .15 and "]]>" not in t:
            return "<![CDATA[%s]]>" % t
        if x < .3:
            return "".join("&#x%X;" % ord(ch) if r.random() < .3 else escape(ch) for ch in t)
    return escape(t, {"\r": "&#13;"})


def render(n, post=(), r=None, style=None, stray=True, breaks=False):
    """ XML of a tree. With a random source r, written in any of the ways that mean the same """
    o = ['<?xml version="1.0" encoding="utf-8"?>\n']
    style = style if style is not None else (r.choice(["tight", "tabs", "spaces"]) if r else "tabs")
    ind = {"tight": "", "tabs": "\t", "spaces": "  "}[style]
    nl = "" if style == "tight" else "\n"

    def rec(n, depth, last):
        pre = nl + ind * depth if depth else ""
        for c in n["c"]:
            o.append(pre + "<!--%s-->" % c)
            if not depth: o.append("\n")
        ats = [(local(k), v) for k, v in n["a"]]
        if not depth:
            ats += [("xmlns:" + p, u) for u, p in PREFIX.items() if p != "xml"]
        if r:
            r.shuffle(ats)
        o.append(pre + "<" + local(n["g"]))
        for k, v in ats:
            sp = r.choice([" ", " ", "\n\t", "  "]) if r else " "
            o.append(sp + k + "=" + attval(v, r))
        if n["k"] or n["e"]:
            o.append(">")
            if r and stray and n["k"] and r.random() < .05: o.append("stray")
            for i, c in enumerate(n["k"]):
                rec(c, depth + 1, i == len(n["k"]) - 1)
                if r and stray and r.random() < .03: o.append("tail")
            for c in n["e"]:
                o.append(nl + ind * (depth + 1) + "<!--%s-->" % c)
            o.append(nl + ind * depth + "</" + local(n["g"]) + ">")
        elif n["t"]:
            pad = r.random() < .2 if r else False
            if n["t"] == ARROW:
                o.append(">%s</%s>" % (n["t"], local(n["g"])))
            else:
                t = n["t"]
                if breaks and r.random() < .6:      # white space around line breaks means nothing
                    t = "\n".join(x if not i and len(t) else r.choice(["", " ", "\t", "  "]) + x for i, x in enumerate(t.split("\n")))
                    t = "\n".join(x + r.choice(["", "", " ", "\t "]) for x in t.split("\n"))
                o.append(">%s%s%s</%s>" % ("\n\t  " if pad else "", textval(t, r), " \n" if pad else "", local(n["g"])))
        else:
            o.append("/>" if not r or r.random() < .7 else "></%s>" % local(n["g"]))
    rec(n, 0, True)
    o.append("\n")
    for c in post:
        o.append("<!--%s-->\n" % c)
    return "".join(o)


# ---- reference data, read from the files with no help from the code under test

class Ref:
    _inst = None

    def __init__(self):
        d = os.path.join(REPO, "lib", "sldr")
        with open(os.path.join(d, "sil.dtd"), encoding="utf-8") as f:
            txt = f.read()
        txt = re.sub(r"<!--.*?-->", "", txt, flags=re.S)
        self.order, self.attrs, self.vals = {}, {}, {}
        for m in re.finditer(r"<!ELEMENT\s+(\S+)\s+(.*?)>", txt, re.S):
            tags = [expand(t) for t in re.findall(r"#?[A-Za-z_:][\w:.-]*", m.group(2)) if t not in ("#PCDATA", "EMPTY", "ANY")]
            self.order[expand(m.group(1))] = {t: i + 1 for i, t in enumerate(tags)}
        for m in re.finditer(r"<!ATTLIST\s+(\S+)\s+(.*?)>", txt, re.S):
            el = expand(m.group(1))
            for a in re.finditer(r"(\S+)\s+(\([^)]*\)|\S+)\s+(#REQUIRED|#IMPLIED|#FIXED\s+(?:\"[^\"]*\"|'[^']*')|\"[^\"]*\"|'[^']*')", m.group(2)):
                at = expand(a.group(1))
                t = self.attrs.setdefault(el, {})
                t.setdefault(at, len(t) + 1)
                if a.group(2).startswith("(") and at != "draft":
                    vs = [v.strip() for v in a.group(2)[1:-1].split("|")]
                    self.vals.setdefault(el, {})[at] = {v: i + 1 for i, v in enumerate(vs)}
        # what distinguishes siblings: all declared attributes, but for these
        self.keys = {e: set(a) for e, a in self.attrs.items()}
        self.keys["{%s}matched-pair" % SIL] = {"open", "close"}
        self.keys["{%s}quotation" % SIL] = {"level"}
        self.keys["{%s}punctuation-pattern" % SIL] = {"context", "pattern"}
        with open(os.path.join(d, "tzones.csv"), encoding="utf-8") as f:
            zs = [re.sub(r"#.*$", "", l.strip()).split(",")[0].strip() for l in f]
        self.vals.setdefault("zone", {})["type"] = {v: i + 1 for i, v in enumerate(zs)}
        with open(os.path.join(d, "supplementalMetadata.xml"), encoding="utf-8") as f:
            md = f.read()
        self.serial = set(re.search(r"<serialElements>(.*?)</serialElements>", md, re.S).group(1).split()) | {"special"}

    @classmethod
    def get(cls):
        if cls._inst is None:
            cls._inst = cls()
        return cls._inst


# ---- encoding for the specification

def walk(n):
    yield n
    for c in n["k"]:
        yield from walk(c)


class Encoder:
    """ Collects the strings of trees, then gives the trees in numbers, and the tables about them """
    NAMES = ["draft", "alt", "{%s}identity" % SIL, "identity", "special", ARROW, "unconfirmed", "type"]

    def __init__(self, extra=()):
        self.strings = set(self.NAMES) | set(DRAFTS) | set(extra)
        self.taga = set()
        self.ids = None

    def add(self, n):
        for x in walk(n):
            self.strings.add(x["g"])
            for k, v in x["a"]:
                self.strings.update((k, local(k), v, v.lower()))
                self.taga.add((x["g"], k, v))
            self.strings.update((x["t"],))
            self.strings.update(x["c"])
            self.strings.update(x["e"])
        return n

    def addstr(self, *s):
        self.strings.update(s)

    def close(self):
        self.strings.discard("")
        self.table = sorted(self.strings)
        self.ids = {s: i + 1 for i, s in enumerate(self.table)}
        self.ids[""] = 0

    def tree(self, n):
        I = self.ids
        # an empty attribute value is not an absent one
        return {"g": I[n["g"]], "a": [[I[k], I[v] if v else len(self.table) + 1] for k, v in n["a"]], "t": I[n["t"]],
                "k": [self.tree(c) for c in n["k"]], "c": [I[x] for x in n["c"]], "e": [I[x] for x in n["e"]], "z": []}

    def data(self):
        I, ref = self.ids, Ref.get()
        n = len(self.table) + 1
        elord = [[] for i in range(n)]
        atord = [[] for i in range(n)]
        rank = [[] for i in range(n)]
        keys = [[] for i in range(n)]
        for g in self.strings:
            elord[I[g] - 1] = [[I[t], o] for t, o in ref.order.get(g, {}).items() if t in I]
            keys[I[g] - 1] = [I[a] for a in sorted(ref.keys.get(g, ())) if a in I]
            atord[I[g] - 1] = [[I[a], o] for a, o in ref.attrs.get(g, {}).items() if a in I]
        for g, k, v in self.taga:
            if k in ref.vals.get(g, {}):
                r = ref.vals[g][k].get(v)
                rank[I[g] - 1].append([I[k], I[v] if v else n, 0 if r is not None else 1, r if r is not None else (I[v] if v else n)])
        low = [I[s.lower()] if s.lower() in I else 0 for s in self.table] + [0]
        out = [I.get(local(s), 0) for s in self.table] + [0]
        return {"n": n, "elord": elord, "atord": atord, "rank": rank, "keys": keys, "low": low, "out": out,
                "serial": [I[s] for s in ref.serial if s in I],
                "drafts": [I[d] for d in DRAFTS],
                "texts": [[ord(ch) for ch in s] for s in self.table] + [[]],
                "names": {"draft": I["draft"], "alt": I["alt"], "silidentity": I["{%s}identity" % SIL],
                          "identity": I["identity"], "special": I["special"], "arrow": I[ARROW],
                          "unconfirmed": I["unconfirmed"], "type": I["type"]}}


# ---- generation from the DTD

TEXTS = ['a', 'b', 'b & c', '<x>', '"q"', "it's", 'a\nb', '  sp  ', '\u0915\u094d', '\U0001F600', '', ']]>', 'a  b',
         '\t x', 'x\n\n y', '&amp;', 'a\n   \n b', 'a \t\n b', '\u00a0', '\u202f x', '\u2028', 'caf\u00e9', 'cafe\u0301', '0', 'draft']
VALUES = ['aa', 'AB', 'ab', 'z', 'Z', 'x"y', 'a<b', 'en_US', '1', '10', '2', 'root', "a'b", '\u00e9']
COMMENTS = [' c1 ', 'x', 'two\nlines', ' - ', '<a>&']
TOPS = ['identity', 'localeDisplayNames', 'layout', 'contextTransforms', 'characters', 'delimiters', 'measurement', 'dates',
        'numbers', 'units', 'listPatterns', 'collations', 'posix', 'characterLabels', 'segmentations', 'rbnf', 'annotations',
        'metadata', 'special', 'typographicNames', 'personNames']


class Gen:
    def __init__(self, r, size=25, pdraft=.15, palt=.12, pdup=.25, pcom=.06, parrow=0, punk=.04, texts=TEXTS, values=VALUES, root="ldml"):
        self.__dict__.update(locals())
        self.ref = Ref.get()
        self.left = size
        self.identdraft = False

    def attrs(self, tag, leaf):
        r, a = self.r, {}
        decl = self.ref.attrs.get(tag, {})
        for k in decl:
            if k.startswith("xmlns") or k in ("draft", "alt", "references", "validSubLocales", "standard"):
                continue
            if r.random() < .5:
                vs = self.ref.vals.get(tag, {}).get(k)
                if vs and r.random() < .85:
                    a[k] = r.choice(list(vs))
                    if k == "type" and tag == "zone" and r.random() < .5: a[k] = r.choice(["Africa/Abidjan", "Europe/Paris", "Etc/UTC"])
                else:
                    a[k] = r.choice(self.values)
        if tag != self.root and r.random() < self.pdraft: a["draft"] = r.choice(DRAFTS[:5])
        if tag != self.root and r.random() < (self.palt if leaf else self.palt / 3): a["alt"] = r.choice(["proposed", "short", "x-y", "Variant"])
        if r.random() < self.punk: a[r.choice(["{%s}modified" % SIL, "{%s}lang" % XML, "zz", "Aa", "references"])] = r.choice(self.values)
        its = list(a.items())
        r.shuffle(its)
        return its

    def gen(self, tag=None, depth=0):
        r = self.r
        tag = tag or self.root
        kids = [t for t in self.ref.order.get(tag, {}) if t != "alias"]
        if tag == "ldml": kids = TOPS
        leaf = not kids or (depth > 1 and (self.left <= 0 or r.random() < .2)) or depth > 6
        n = node(tag)
        if not leaf:
            m = r.randint(1 if depth else 2, 4 if depth else 6)
            pool = [r.choice(kids) for i in range(r.randint(1, 3))] if depth else kids
            for i in range(m):
                if self.left <= 0: break
                self.left -= 1
                if n["k"] and r.random() < self.pdup:
                    k = self.clone(r.choice(n["k"]))
                else:
                    t = r.choice(pool) if r.random() > self.punk else r.choice(["unknown", "{%s}thing" % SIL, "Abc"])
                    k = self.gen(t, depth + 1)
                n["k"].append(k)
        leaf = not n["k"]
        n["a"] = [list(x) for x in self.attrs(tag, leaf)]
        if leaf:
            n["t"] = ARROW if r.random() < self.parrow else r.choice(self.texts)
        if r.random() < self.pcom: n["c"] = [r.choice(COMMENTS) for i in range(r.randint(1, 2))]
        if n["k"] and r.random() < self.pcom and not self.parrow: n["e"] = [r.choice(COMMENTS)]
        return n

    def clone(self, n):
        """ a sibling much like n """
        import copy
        r = self.r
        m = copy.deepcopy(n)
        a = dict((k, v) for k, v in m["a"])
        if r.random() < .6:
            a.pop("draft", None)
            if r.random() < .7: a["draft"] = r.choice(DRAFTS[:5])
        if not m["k"]:
            if r.random() < .5:
                a.pop("alt", None)
                if r.random() < .7: a["alt"] = r.choice(["proposed", "short", "x-y", "Variant"])
            if m["t"] != ARROW: m["t"] = r.choice(self.texts)
        if r.random() < .3 and a:
            k = r.choice(sorted(a))
            if k not in ("draft", "alt"): a[k] = r.choice(self.values)
        its = list(a.items())
        r.shuffle(its)
        m["a"] = [list(x) for x in its]
        return m

    def doc(self):
        """ A document, with at most one sil:identity, in its place """
        root = self.gen()
        first = [k for k in root["k"] if k["g"] == "identity"][:1]
        root["k"] = [k for k in root["k"] if k["g"] != "identity" or k is first[0]]
        for x in walk(root):
            x["k"] = [c for c in x["k"] if c["g"] != "{%s}identity" % SIL]
        r = self.r
        if r.random() < .6:
            sid = node("{%s}identity" % SIL)
            for k, v in [("draft", r.choice(DRAFTS)), ("uid", "77"), ("revid", "abc")]:
                if r.random() < .6: sid["a"].append([k, v])
            ids = [k for k in root["k"] if k["g"] == "identity"]
            if not ids:
                ids = [node("identity")]
                root["k"].insert(r.randint(0, len(root["k"])), ids[0])
            if not ids[0]["k"]: ids[0]["t"], ids[0]["a"] = "", [x for x in ids[0]["a"] if x[0] != "alt"]
            ids[0]["k"].insert(r.randint(0, len(ids[0]["k"])), node("special", k=[sid]))
        fix(root)
        return root


def fix(n):
    for c in n["k"]:
        fix(c)
    if n["k"]:
        n["t"] = ""
        n["a"] = [x for x in n["a"] if x[0] != "alt"]
    else:
        n["c"] += n["e"]
        n["e"] = []
