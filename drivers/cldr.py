"""Runs cldrimport over a directory of CLDR's"""
import hashlib, json, os, re, shutil, subprocess, sys
from common import main, REPO, WORK

HG = '#!/bin/sh\nprintf "%s\\n%s"\n'


def tree(d):
    res = {}
    for dp, dns, fns in os.walk(d):
        for f in fns:
            p = os.path.join(dp, f)
            with open(p, "rb") as fh: res[os.path.relpath(p, d)] = fh.read()
    return res


def put(d, files):
    for f, x in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as fh: fh.write(x)


def run(case):
    d = os.path.join(WORK, "cldr%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    try:
        src, out = os.path.join(d, "cldr", "common"), os.path.join(d, "out")
        os.makedirs(src)
        os.makedirs(out)
        put(src, case["files"])
        put(out, case["old"])
        for b in case["block"]: os.makedirs(os.path.join(out, b))       # can't be written
        tags = os.path.join(d, "langtags.json")
        with open(tags, "w") as f: json.dump(case["tags"], f)
        e = dict(os.environ, LANGTAGSPATH=tags, PYTHONHASHSEED=str(case["seed"]))
        if case["hg"]:
            os.makedirs(os.path.join(d, "bin"))
            with open(os.path.join(d, "bin", "hg"), "w") as f: f.write(HG % tuple(case["hg"]))
            os.chmod(os.path.join(d, "bin", "hg"), 0o755)
            e["PATH"] = os.path.join(d, "bin") + os.pathsep + e["PATH"]
        known = subprocess.run([sys.executable, "-c", """
import json, sys
from langtag import lookup
def f(l):
    try: t = lookup(l.replace("_", "-"))
    except KeyError: return None
    return [t.script, t.region]
print(json.dumps({l: f(l) for l in json.load(sys.stdin)}))"""], input=json.dumps(case["locales"]), env=e, stdout=subprocess.PIPE, text=True, timeout=60)
        p = subprocess.Popen([sys.executable, os.path.join(REPO, "scripts", "cldrimport")] + case["opts"] + [src, out],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=d)
        try:
            o = p.communicate(timeout=100)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return {"hang": True, "known": {}, "reported": [], "after": {}}
        after = {}
        for f, x in tree(out).items():
            same = f in case["old"] and case["old"][f].encode("utf-8") == x
            after[f] = ["same", ""] if same and not case["files"] else ["same" if same else "new", x.decode("utf-8", "replace")]
        inputs = {f: x.decode("utf-8", "replace") for f, x in tree(src).items()}
        return {"hang": False, "known": json.loads(known.stdout), "after": after, "inputs": inputs == case["files"],
                "reported": [l for l in case["locales"] if re.search(r"(?im)^.*(error|fail).*\b" + re.escape(l) + r"\b", o)], "end": o[-1500:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main(run)
