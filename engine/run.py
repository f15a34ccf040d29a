"""run.py DUMP [PREFIX...]: discharge the obligations of contract functions"""
import json, sys, time, traceback
from interp import Engine
from core import *
import models2, models3, models4


def run_contract(dump, name, fid, budget=120, timeout=20000):
    eng = Engine(dump, models4, timeout=timeout)
    eng.deadline = time.time() + budget
    t0 = time.time()
    errmsg = None
    try:
        outs = eng.call_body(State({}, ()), eng.fns[fid], [])
        if not outs:
            errmsg = "vacuous: no path reaches the end of the contract"
    except Unsupported as e:
        errmsg = "unsupported: %s [in %s]" % (e, eng.loc)
    except (NeedSplit, CannotMerge) as e:
        errmsg = "unsupported: %s" % type(e).__name__
    except RecursionError:
        errmsg = "unsupported: recursion"
    except Infeasible:
        errmsg = "vacuous"
    return {
        "name": name, "error": errmsg, "time": time.time() - t0,
        "obls": [dict(label=o.label, status=o.status, detail=o.detail, time=round(o.time, 3), model=o.model, kind=o.fn, soft=o.soft) for o in eng.obls],
        "covered": eng.covered, "assumed": sorted(eng.assumed), "solver_time": eng.solver_time, "solver_calls": eng.solver_calls,
        "backends": eng.backends, "covers": eng.covers, "abstract": eng.abstract,
    }


def summarize(r):
    n = {}
    for o in r["obls"]:
        n[o["status"]] = n.get(o["status"], 0) + 1
    return "%-48s %s %5.1fs %s" % (r["name"], n, r["time"], r["error"] or "")


if __name__ == "__main__":
    dump = json.load(open(sys.argv[1]))
    pre = sys.argv[2:]
    for n, i in dump["roots"]:
        short = n.split("::")[-1]
        if pre and not any(short.startswith(p) for p in pre):
            continue
        try:
            r = run_contract(dump, short, i)
        except Exception:
            traceback.print_exc()
            print("CRASH", short)
            continue
        print(summarize(r), flush=True)
        for o in r["obls"]:
            if o["status"] != "proved":
                print("     ", o["status"], o["label"], o["model"])
