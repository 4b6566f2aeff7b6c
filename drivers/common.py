"""Worker side of the checks: runs each case of the input file through a function
that exercises the code under test, with a time limit, and records the result."""

import json, os, signal, sys, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VF_WORK", "/tmp")


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def limit(fn, *a):
    """ Result of the call, or what ended it """
    t = float(os.environ.get("VF_TIMEOUT", "20"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t)
    try:
        return fn(*a)
    except Hang:
        return {"hang": True}
    except MemoryError:
        return {"exc": "MemoryError"}
    except RecursionError:
        return {"exc": "RecursionError", "tb": ""}
    except Exception as e:
        return {"exc": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": traceback.format_exc()[-1500:]}
    except SystemExit as e:
        return {"exc": "SystemExit: %s" % e}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(run):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for l in f:
            i, case = json.loads(l)
            r = limit(run, case)
            try:
                s = json.dumps([i, r])
            except (TypeError, ValueError):
                s = json.dumps([i, {"exc": "unserialisable result " + repr(r)[:300]}])
            o.write(s + "\n")
            o.flush()
