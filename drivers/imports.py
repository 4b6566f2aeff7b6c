"""Flattens the collations of a locale"""
import contextlib, io, os, shutil, subprocess, sys
import xml.etree.ElementTree as et
from common import main, WORK, REPO


def colls(root):
    return {c.get("type", ""): c.find("cr").text or "" for c in root.findall("collations/collation") if c.find("cr") is not None}


def run(case):
    from sldr.ldml_merge import flattenlocale
    d = os.path.join(WORK, "imports%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    try:
        for f, x in case["files"].items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as fh: fh.write(x)
        dirs = [os.path.join(d, x) for x in ("a", "b")]
        own = colls(flattenlocale(case["name"], dirs=dirs).root)
        if case["script"]:
            out = os.path.join(d, "out")
            os.makedirs(out)
            subprocess.run([sys.executable, os.path.join(REPO, "scripts", "ldmlflatten"), "-s", "-o", out, "-l", case["name"]] +
                           sum((["-i", x] for x in dirs), []), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            got = colls(et.parse(os.path.join(out, case["name"] + ".xml")).getroot())
        else: got = colls(flattenlocale(case["name"], dirs=dirs, flattencollation=True).root)
        return {"own": own, "got": got}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main(run)
