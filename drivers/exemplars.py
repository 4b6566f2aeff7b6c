"""Finds exemplars in texts"""
import unicodedata
from common import main


def cps(t): return [ord(x) for x in unicodedata.normalize("NFD", t)]


def run(case):
    from sldr.ldml_exemplars import Exemplars
    from sldr.UnicodeSets import us2list
    e = Exemplars()
    e.unittest = plain = case["plain"]
    e.many_bases, e.frequent = case["many"], case["frequent"]
    for k, v in case["given"].items(): setattr(e, k, " ".join(v) if plain else "[" + " ".join("{" + x + "}" if len(x) > 1 else x for x in v) + "]")
    for t in case["texts"]: e.process(t)
    e.analyze()

    def got(k):
        v = getattr(e, k)
        return [cps(x) for x in (v.split() if plain else us2list(v))]
    res = {k: got(k) for k in ("main", "auxiliary", "index", "punctuation", "digits")}
    res["raw"] = [{"base": cps(k.base), "trail": cps(k.trailers), "n": n} for k, n in e.raw_clusters.items()]
    res["frequency"] = [{"t": cps(x.rsplit(":", 1)[0]), "n": int(x.rsplit(":", 1)[1])} for x in e.frequency.split()] if plain else []
    if plain and [x["t"] for x in res["frequency"]] != got("graphemes"): res["frequency"] = [{"t": [-1], "n": 0}]
    for k in ("upper", "lower"): res["only" + k.capitalize()] = [cps(x) for x, v in e.non_casing_chars.items() if v == "only_" + k]
    return res


if __name__ == '__main__':
    main(run)
