"""Reads a subtag registry"""
import os, tempfile
from common import main, WORK

whole = {}


def read(path):
    from sldr.iana import Iana
    x = Iana(path) if path else Iana()
    return {t: subs for t, subs in vars(x).items() if isinstance(subs, dict) and all(isinstance(y, dict) for y in subs.values())}


def run(case):
    if case["text"] is None:
        if not whole: whole.update(read(None))
        got = {t: {s: v for s, v in subs.items() if [t, s] in case["of"]} for t, subs in whole.items()}
        n = {t: len(v) for t, v in whole.items()}
    else:
        with tempfile.NamedTemporaryFile("w", dir=WORK, suffix=".txt", encoding="utf-8", newline="") as f:
            f.write(case["text"])
            f.flush()
            got = read(f.name)
        n = {}
    return {"n": n, "got": [{"type": t, "subtag": s, "fields": [{"f": k, "v": v if isinstance(v, list) else [v], "list": isinstance(v, list)} for k, v in r.items()]}
                            for t, subs in got.items() for s, r in subs.items()]}


if __name__ == '__main__':
    main(run)
