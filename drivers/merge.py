"""Merges documents"""
import io, os, subprocess, sys
from common import main, REPO, WORK
from norm import write


def run(case):
    from sldr.ldml_merge import LdmlMerge
    if case["script"]:
        fs = []
        for n in ("this", "base", "other"):
            fs.append(os.path.join(WORK, n + ".xml"))
            with open(fs[-1], "w", encoding="utf-8") as f: f.write(case[n])
        o = os.path.join(WORK, "merged.xml")
        cmd = [sys.executable, os.path.join(REPO, "scripts", "ldmlmerge")] + fs + ["-o", o] + (["-w", "other"] if case["win"] else [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if p.returncode: return {"exc": p.stdout.decode("utf-8", "replace")[-600:]}
        with open(o, encoding="utf-8") as f: return {"out": f.read()}
    kw = {"usedrafts": case["ud"]}
    t, o, b = [LdmlMerge(io.BytesIO(case[n].encode("utf-8")), **kw) for n in ("this", "other", "base")]
    if case["win"]: t.winner = "other"
    t.merge(o, b)
    t.normalise(t.root, usedrafts=case["ud"])
    return {"out": write(t)}


if __name__ == '__main__':
    main(run)
