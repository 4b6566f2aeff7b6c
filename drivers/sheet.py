"""Makes LDML from spreadsheets, and fills them in from it, with the script"""
import csv, os, runpy, sys, zipfile
import xml.etree.ElementTree as et
from xml.sax.saxutils import escape, quoteattr
from common import main, WORK, REPO

NS = {"office": "urn:oasis:names:tc:opendocument:xmlns:office:1.0", "table": "urn:oasis:names:tc:opendocument:xmlns:table:1.0", "text": "urn:oasis:names:tc:opendocument:xmlns:text:1.0"}
SIL = "urn://www.sil.org/ldml/0.1"


def script(*args):
    old = sys.argv
    sys.argv = ["sheetldml"] + list(args)
    try: runpy.run_path(os.path.join(REPO, "scripts", "sheetldml"), run_name="__main__")
    finally: sys.argv = old


def odsfile(path, sheets):
    """ cells are [times, text], the first column included """
    x = "<?xml version='1.0' encoding='UTF-8'?><office:document-content office:version='1.2' %s><office:body><office:spreadsheet>" % " ".join("xmlns:%s=%s" % (k, quoteattr(v)) for k, v in NS.items())
    for name, rows in sheets:
        x += "<table:table table:name=%s><table:table-column table:number-columns-repeated='9'/>" % quoteattr(name)
        for r in rows:
            x += "<table:table-row>" + "".join("<table:table-cell%s" % (" table:number-columns-repeated='%d'" % n if n > 1 else "") + ("><text:p>%s</text:p></table:table-cell>" % escape(t) if t else "/>") for n, t in r) + "</table:table-row>"
        x += "</table:table>"
    x += "</office:spreadsheet></office:body></office:document-content>"
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("mimetype", "application/vnd.oasis.opendocument.spreadsheet")
        z.writestr("META-INF/manifest.xml", "<?xml version='1.0' encoding='UTF-8'?><manifest:manifest xmlns:manifest='urn:oasis:names:tc:opendocument:xmlns:manifest:1.0'><manifest:file-entry manifest:full-path='/' manifest:media-type='application/vnd.oasis.opendocument.spreadsheet'/><manifest:file-entry manifest:full-path='content.xml' manifest:media-type='text/xml'/></manifest:manifest>")
        z.writestr("content.xml", x)


def grids(path):
    """ all sheets, with column A """
    with zipfile.ZipFile(path) as z: root = et.fromstring(z.read("content.xml"))
    T, P = "{%s}" % NS["table"], "{%s}" % NS["text"]
    res = []
    for s in root.iter(T + "table"):
        rows = []
        for r in s.iter(T + "table-row"):
            row = []
            for c in r.findall(T + "table-cell"):
                n = int(c.get(T + "number-columns-repeated", "1"))
                p = c.find(P + "p")
                row += ["" if p is None else "".join(p.itertext())] * min(n, 40)
            rows.append(row)
        res.append([s.get(T + "name"), rows])
    return res


def leaves(path):
    res = []

    def walk(e, p):
        tag = e.tag.replace("{%s}" % SIL, "sil:")
        p = p + ("/" if p else "") + tag + "".join('[@%s="%s"]' % (k.replace("{%s}" % SIL, "sil:"), v) for k, v in sorted(e.attrib.items()))
        if (e.text or "").strip() or not len(e): res.append({"path": p, "text": e.text or ""})
        for c in e: walk(c, p)
    for c in et.parse(path).getroot(): walk(c, "")
    return res


def run(case):
    at = lambda n: os.path.join(WORK, n)
    out = at("out.xml")
    if case["how"] == "template": source = os.path.join(REPO, "data", "LDML_entry.ods")
    elif case["how"] == "tsv":
        source = at("in.tsv")
        with open(source, "w", newline="", encoding="utf-8") as f: csv.writer(f, dialect="excel-tab").writerows([["x"] + r for r in case["sheets"][0][1]])
    else:
        source = at("in.ods")
        odsfile(source, case["sheets"])
    res = {"grid": []}
    if case["kind"] == "fill":
        with open(at("doc.xml"), "w", encoding="utf-8") as f: f.write(case["doc"])
        script("-o", at("filled.ods"), source, at("doc.xml"))
        res["grid"] = grids(at("filled.ods"))
        source = at("filled.ods")
    script(*(["-t"] if case["how"] == "tsv" else []), source, out)
    res["got"] = leaves(out)
    return res


if __name__ == '__main__':
    main(run)
