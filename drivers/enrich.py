"""Runs a tool that adds keyboards, fonts or names to the files of a tree, perhaps several times"""
import csv, json, os, re, shutil, subprocess, sys
from common import main, REPO, WORK
from cldr import tree, put

LOOK = """
import json, sys
from langtag import lookup
def f(l, kw):
    try: t = lookup(l, **kw)
    except KeyError: return None
    ls = getattr(t, "localnames", None) or [getattr(t, "localname", None)]
    return {"script": t.script, "region": t.region, "full": str(t.full), "name": getattr(t, "name", None), "own": ls[0], "file": t.asSldr()}
print(json.dumps({l: [f(l, {}), f(l, dict(matchRegions=True, use639=True))] for l in json.load(sys.stdin)}))"""


def run(case):
    d = os.path.join(WORK, "enrich%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    try:
        sldr = os.path.join(d, "sldr")
        os.makedirs(sldr)
        put(sldr, case["files"])
        put(d, case["data"])
        e = dict(os.environ, LANGTAGSPATH=os.path.join(d, "langtags.json"), PYTHONHASHSEED=str(case["seed"]), http_proxy="http://127.0.0.1:9", https_proxy="http://127.0.0.1:9")
        known = subprocess.run([sys.executable, "-c", LOOK], input=json.dumps(case["tags"]), env=e, stdout=subprocess.PIPE, text=True, timeout=60)
        steps = []
        for i in range(case["times"]):
            e["PYTHONHASHSEED"] = str(case["seed"] + i)
            args = [a.replace("@", d) for a in case["args"]]
            p = subprocess.Popen([sys.executable, os.path.join(REPO, "scripts", case["tool"])] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=d)
            try:
                o = p.communicate(timeout=60)[0].decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                return {"hang": True, "known": {}, "steps": []}
            report = None
            if os.path.exists(os.path.join(d, "report.csv")):
                with open(os.path.join(d, "report.csv"), newline="", encoding="utf-8") as f: report = list(csv.DictReader(f))
            steps.append({"rc": p.returncode, "end": o[-1500:], "report": report, "told": re.findall(r"(?m)^Can't find (\S+) with", o),
                          "after": {f: x.decode("utf-8", "replace") for f, x in tree(sldr).items()}})
            if p.returncode: break
        return {"hang": False, "known": json.loads(known.stdout), "steps": steps}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main(run)
