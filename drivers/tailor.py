"""Parses tailorings, sorts by them, and writes them"""
import os, subprocess, sys, shutil
from common import main, WORK, REPO


def orders(co, strings):
    from sldr.collation import diffLevel
    keys = [co.sortKey(s) for s in strings]
    return [[int(diffLevel(a, b)) for b in keys] for a in keys]


def comparisons(co, strings):
    """ What the operators say of each pair, and where each comes when sorted """
    keys = [co.sortKey(s) for s in strings]
    ops = [[[k for k, v in (("<", a < b), ("<=", a <= b), ("=", a == b), ("#", a != b), (">=", a >= b), (">", a > b)) if v] for b in keys] for a in keys]
    return ops, sorted(range(len(keys)), key=lambda i: keys[i])


def rules(co):
    return sorted([k, v.base, v.level, v.before, v.exp] for k, v in co.items())


def run(case):
    from sldr.collation import Collation
    res = {"rules": [], "order": [], "text": []}
    text = case["text"]
    for i in range(3):
        co = Collation()
        co.parse(text)
        if i == 1 and case["script"]:
            d = os.path.join(WORK, "tailor%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
            try:
                with open(os.path.join(d, "in"), "w", encoding="utf-8") as f: f.write(text)
                subprocess.run([sys.executable, os.path.join(REPO, "scripts", "icupretty"), "in", "-o", "out"], cwd=d, check=True,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                with open(os.path.join(d, "out"), encoding="utf-8") as f: text = f.read()
            finally:
                shutil.rmtree(d, ignore_errors=True)
            co.asICU()
        else: text = co.asICU(wrap=case["wrap"])
        res["rules"].append(rules(co))
        res["order"].append(orders(co, case["strings"]))
        res["text"].append(text)
        if i == 0: res["ops"], res["sorted"] = comparisons(co, case["strings"])
    return res


if __name__ == '__main__':
    main(run)
