"""Runs ldmlflatten over a set of locales, alone and together"""
import hashlib, json, os, re, shutil, subprocess, sys
from common import main, REPO, WORK


def put(d, files, layout):
    """ layout: locale -> (directory, whether in a subdirectory by letter) """
    for n, x in files.items():
        i, sub = layout.get(n, [0, False])
        p = os.path.join(d, "in%d" % i, *([n[0].lower()] if sub else []), n + ".xml")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f: f.write(x)
    for i in (0, 1): os.makedirs(os.path.join(d, "in%d" % i), exist_ok=True)


def outputs(d):
    res = {}
    for dp, dns, fns in os.walk(d):
        for f in fns:
            with open(os.path.join(dp, f), "rb") as fh: res[os.path.relpath(os.path.join(dp, f), d)] = hashlib.sha1(fh.read()).hexdigest()
    return res


def go(d, out, opts, locales, single, seed, all_):
    cmd = [sys.executable, os.path.join(REPO, "scripts", "ldmlflatten"), "-o", out, "-i", os.path.join(d, "in0"), "-i", os.path.join(d, "in1")] + opts
    if single: cmd.append("-s")
    if not all_:
        for l in locales: cmd += ["-l", l]
    e = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=d)
    try:
        o = p.communicate(timeout=60)[0].decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""
    return p.returncode, o


ALONE = """
import sys, json, codecs
from sldr.ldml_merge import flattenlocale
dirs, names, opts = json.loads(sys.argv[1])
l = names
x = flattenlocale(l, dirs=dirs, rev="r" if "-r" in opts else "c" if "-c" in opts else "f", skipstubs="--skipstubs" in opts, flattencollation=True, resolveAlias="-A" in opts)
if x is not None:
    if "--revid" in opts: x.add_silidentity(revid=opts[opts.index("--revid") + 1])
    x.normalise()
    with codecs.open(sys.argv[2], "w", encoding="utf-8") as f: x.serialize_xml(f.write, topns="-t" in opts)
"""


def alone(d, case, l):
    """ what the library makes of one locale """
    put(d, case["files"], {})
    o = os.path.join(d, "o.xml")
    p = subprocess.run([sys.executable, "-c", ALONE, json.dumps([[os.path.join(d, "in0"), os.path.join(d, "in1")], l, case["opts"]]), o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONHASHSEED="0"), cwd=d, timeout=60)
    if p.returncode != 0 or not os.path.exists(o): res = ""
    else:
        with open(o, "rb") as f: res = hashlib.sha1(f.read()).hexdigest()
    shutil.rmtree(d, ignore_errors=True)
    return res


def run(case):
    base = os.path.join(WORK, "batch%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    try:
        where = lambda l: os.path.join(*([l[0].lower()] if "-a" in case["opts"] else []), l + ".xml")
        def one(tag, locales, layout, single, seed, all_=False, times=1):
            d = os.path.join(base, tag)
            put(d, case["files"], layout)
            out = os.path.join(d, "out")
            os.makedirs(out)
            for l in case["block"]: os.makedirs(os.path.join(out, where(l)))     # the output can't be written
            for i in range(times): rc, o = go(d, out, case["opts"], locales, single, seed, all_)
            w = outputs(out)
            res = {"hang": rc is None, "wrote": {l: w.pop(where(l), "") for l in case["names"]},
                   "reported": [l for l in case["names"] if re.search(r"(?im)^.*(error|fail).*\b" + re.escape(l) + r"\b", o)]}
            res["others"] = sorted(w)
            shutil.rmtree(d, ignore_errors=True)
            return res
        each = {l: "" if l in case["block"] else alone(os.path.join(base, "alone"), case, l) for l in case["names"]}
        runs = [one("run%d" % i, r["order"], r["layout"], r["single"], r["seed"], r["all"], r["times"]) for i, r in enumerate(case["runs"])]
        return {"alone": each, "runs": runs}
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main(run)
