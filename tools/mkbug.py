"""mkbug.py FILE: writes seeded/<id>/ for each bug(...) called in FILE"""
import json, os, subprocess, sys, tempfile, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the repository
export PYTHONPATH="$PWD/lib" PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=en_US.UTF-8
PY=/opt/venv/bin/python
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
WORK="$w" REPO="$PWD" timeout 250 $PY "$here/demo.py"
'''
HEAD = '''import io, os, sys, json
from sldr.ldml import Ldml
W, REPO = os.environ["WORK"], os.environ["REPO"]

def read(xml, **kw):
    return Ldml(io.BytesIO(xml.encode("utf-8")), **kw)

def write(l, **kw):
    o = []
    l.serialize_xml(o.append, **kw)
    return "".join(o)

'''


def bug(id, prop, edits, needs, breaks, demo, head=True):
    """ edits: [(file, old, new)] """
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    out, files = "", {}
    for f, old, new in edits:
        if f not in files:
            with open(os.path.join("/repo", f), encoding="utf-8", newline="") as h:
                s = h.read()
            files[f] = [s, s]
        s = files[f][1]
        if s.count(old) != 1:
            sys.exit("%s: %d matches for %r in %s" % (id, s.count(old), old, f))
        files[f][1] = s.replace(old, new)
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w", newline="").write(out)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write((HEAD if head else "") + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)


exec(open(sys.argv[1]).read())
