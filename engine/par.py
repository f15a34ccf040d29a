"""par.py DUMP [-b BUDGET] [PREFIX...]: discharge contracts in parallel processes, each under its own budget"""
import json, multiprocessing as mp, os, sys, time


def worker(dump, short, fid, budget, timeout, q):
    sys.setrecursionlimit(200000)
    import resource, threading

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = []

    def go():
        import traceback
        from run import run_contract

        try:
            out.append(run_contract(dump, short, fid, budget, timeout))
        except MemoryError:
            out.append(dict(name=short, error="unsupported: out of memory", crash=True))
        except Exception:
            out.append(dict(name=short, error="unsupported: engine: " + traceback.format_exc()[-1500:], crash=True))

    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put(out[0])
    q.close()
    q.join_thread()
    os._exit(0)


EMPTY = dict(time=0, obls=[], covered=[], assumed=[], solver_time=0, solver_calls=0, backends={}, covers={}, abstract={})


def run_all(dump, jobs, budget=60, timeout=20000, procs=8, report=None, deadline=None):
    """jobs: [(short, fid)] -> {short: result}"""
    ctx = mp.get_context("fork")
    live, res, todo = [], {}, list(jobs)
    while todo or live:
        while todo and len(live) < procs:
            n, f = todo.pop(0)
            if deadline and time.time() > deadline:
                res[n] = dict(EMPTY, name=n, error="unsupported: check budget used up")
                continue
            q = ctx.Queue()
            b = min(budget, max(5, deadline - time.time())) if deadline else budget
            p = ctx.Process(target=worker, args=(dump, n, f, b, timeout, q))
            p.start()
            live.append((n, p, q, time.time(), b))
        time.sleep(0.02)
        for it in list(live):
            n, p, q, t0, b = it
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = dict(name=n, error="unsupported: engine process died")
                elif time.time() - t0 > b + 25:
                    p.kill()
                    r = dict(name=n, error="unsupported: time budget of this contract used up")
            if r is not None:
                r = dict(EMPTY, **r)
                r["time"] = r["time"] or time.time() - t0
                res[n] = r
                live.remove(it)
                p.join(2)
                if p.is_alive():
                    p.kill()
                if report:
                    report(r)
    return res


if __name__ == "__main__":
    from run import summarize

    a = sys.argv[1:]
    budget = 60
    if "-b" in a:
        i = a.index("-b")
        budget = int(a[i + 1])
        del a[i : i + 2]
    dump = json.load(open(a[0]))
    jobs = []
    for n, i in dump["roots"]:
        s = n.split("::")[-1]
        if len(a) > 1 and not any(s.startswith(p) for p in a[1:]):
            continue
        jobs.append((s, i))

    def rep(r):
        print(summarize(r), flush=True)
        seen = set()
        for o in r["obls"]:
            if o["status"] != "proved" and (o["status"], o["label"]) not in seen:
                seen.add((o["status"], o["label"]))
                print("     ", o["status"], o["label"], o["model"], flush=True)

    run_all(dump, jobs, budget, report=rep)
