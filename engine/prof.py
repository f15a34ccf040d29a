import cProfile, pstats, sys, json, threading
from run import *
d = json.load(open(sys.argv[1]))
nm, bud = sys.argv[2], float(sys.argv[3])
fid = dict((n.split("::")[-1], i) for n, i in d["roots"])[nm]
def go():
    pr = cProfile.Profile()
    pr.enable()
    r = run_contract(d, nm, fid, bud, 20000)
    pr.disable()
    print(summarize(r), r["solver_calls"], r["solver_time"])
    pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
threading.stack_size(512 << 20)
t = threading.Thread(target=go); t.start(); t.join()
