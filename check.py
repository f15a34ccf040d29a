#!/usr/bin/env python3
"""check.py PROPERTY: discharge the contracts of one property against /repo's current source.

1. builds the MIR driver, and with it the contract crates (path dependencies on /repo),
   which dumps the monomorphic MIR of every function the contracts reach;
2. the engine generates every obligation of every contract and discharges it;
3. the same contracts are executed on the compiled code (runtime assertion checking),
   and a counterexample of the solver is replayed there.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.environ.get("RQV_BUILD", os.path.join(HERE, ".build"))
from propdefs import P as PROPS
CFG = PROPS[PROP]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", PYO3_PYTHON="/usr/bin/python3", CARGO_TERM_COLOR="never")
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
BUDGET = 110 if TIER == "quick" else 900
TOTAL = 600 if TIER == "quick" else 7200
LOW = "rq_%s_" % PROP.lower(), "rqb_%s_" % PROP.lower()


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd, env, what, timeout=850):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        log("\n".join(l for l in r.stdout.splitlines() if not l.startswith("warning"))[-6000:])
        log("ERROR: %s failed" % what)
        sys.exit(2)
    return r.stdout


def executed_only(crate):
    """contracts whose body returns at once unless it is executed: nothing of them goes to the verifier"""
    d = os.path.join(HERE, "contracts", crate, "src")
    rx = re.compile(r"pub fn (rqb?_\w+)\(\) \{\s*(?:if !executed\(\) \{\s*return;\s*\}|assume\(executed\(\)\);)")
    return sorted(n for f in os.listdir(d) if f.endswith(".rs") for n in rx.findall(open(os.path.join(d, f)).read()) if n.startswith(LOW) and not n.startswith("rqb_kf_"))


def build(crate):
    drv = os.path.join(BUILD, "driver")
    sh(["cargo", "+nightly", "build", "--offline"], os.path.join(HERE, "driver"), dict(ENV, CARGO_TARGET_DIR=drv), "building the driver")
    tgt = os.path.join(BUILD, "contracts")
    out = os.path.join(BUILD, "%s.%s.json" % (crate, PROP))
    if os.path.exists(out):
        os.remove(out)
    src = os.path.join(HERE, "contracts", crate)
    os.utime(os.path.join(src, "src", "lib.rs"))  # the contract crate itself is always compiled anew
    d = os.path.join(tgt, "debug", ".fingerprint")
    for f in os.listdir(d) if os.path.isdir(d) else []:
        if re.match(r"contracts[_-]%s-" % crate, f):
            shutil.rmtree(os.path.join(d, f))
    env = dict(ENV, RQV_CRATE="contracts_" + crate, RQV_OUT=out, RQV_ROOTS=",".join(LOW), RQV_SKIP=",".join(executed_only(crate)), RUSTC_WRAPPER=os.path.join(drv, "debug", "rqv-driver"),
               RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow", CARGO_TARGET_DIR=tgt)
    sh(["cargo", "+nightly", "build", "--offline"], src, env, "building the contracts of " + crate)
    if not os.path.exists(out):
        log("ERROR: no MIR dump for " + crate)
        sys.exit(2)
    return out, os.path.join(tgt, "debug", "runner_" + crate)


def run_native(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, cwd=BUILD, env=ENV)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")


def rac_start(runner, names, ms, n, pins=()):
    """one process per slice of contracts"""
    ps = []
    k = 4
    for i in range(k):
        sl = names[i::k]
        if sl:
            f = tempfile.TemporaryFile(mode="w+")
            ps.append((subprocess.Popen([runner, "rac", str(SEED), str(n), ",".join("=" + x for x in sl), str(ms)] + list(pins), stdout=f, stderr=subprocess.DEVNULL, cwd=BUILD, env=ENV), f, sl, ms))
    return ps


def rac_wait(ps):
    fails, stats, hung = {}, {}, []
    for p, f, sl, ms in ps:
        try:
            p.wait(timeout=len(sl) * ms / 1000.0 * 1.5 + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            hung += sl
        f.seek(0)
        for l in f.read().splitlines():
            a = l.split("\t")
            if a[0] == "FAIL":
                fails.setdefault(a[1], []).append((a[2], a[3] if len(a) > 3 else ""))
            elif a[0] == "RAC":
                stats[a[1]] = (int(a[2]), int(a[3]), int(a[4]))
    return fails, stats, hung


def main():
    from par import run_all

    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [k for k in known.get("findings", []) if k["property"] == PROP]
    results, fails, stats, runners, hung, executed = {}, {}, {}, {}, [], []
    for crate in CFG["crates"]:
        dumpf, runner = build(crate)
        dump = json.load(open(dumpf))
        os.remove(dumpf)
        jobs = [(n.split("::")[-1], i) for n, i in dump["roots"]]
        jobs = [j for j in jobs if j[0].startswith(LOW)]
        slow = CFG.get("slow", [])
        jobs.sort(key=lambda j: (j[0] not in slow, j[0]))
        only = executed_only(crate)
        executed += only
        names = [n for n, _ in jobs] + only
        if not names:
            continue
        for n in names:
            runners[n] = runner
        ps = rac_start(runner, names, 1500 if TIER == "quick" else 30000, 2000 if TIER == "quick" else 10**7)
        results.update(run_all(dump, jobs, BUDGET, 20000 if TIER == "quick" else 120000, 8, None, T0 + TOTAL))
        a, b, h = rac_wait(ps)
        fails.update(a)
        stats.update(b)
        hung += h
    log("build, obligations and execution: %.0f s" % (time.time() - T0))

    violations, notes = [], []

    def replay_file(name, label, body):
        p = os.path.join(rdir, "%s.%s.txt" % (PROP, name))
        open(p, "w").write(body)
        return p

    def native_replay(name, model):
        kv = ["%s=%s" % (k, v) for k, v in (model or [])]
        rc, out = run_native([runners[name], "replay", name] + kv, 60)
        return rc == 1 and "FAILED\t" in out and "REJECTED" not in out, out

    undecided = []
    proved = bounded = total = 0
    labels, covered, assumed, backends, stime = [], {}, set(), {}, 0.0
    vacuous = []
    labels_x = ["%s: executed only" % n for n in executed]
    for name, r in sorted(results.items()):
        isb = name.startswith("rqb_")
        covered.update(r["covered"])
        assumed |= set(r["assumed"])
        stime += r["solver_time"]
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
        bad, unk = [], []
        for o in r["obls"]:
            total += not isb
            if o["status"] == "proved":
                proved += not isb
                bounded += isb
            elif o["status"] == "failed":
                bad.append(o)
            else:
                unk.append(o["label"])
        n_ok = sum(o["status"] == "proved" for o in r["obls"])
        labels.append("%s: %d/%d" % (name, n_ok, len(r["obls"])) + (" (bounded)" if isb else ""))
        if r["error"]:
            undecided.append("%s: %s" % (name, r["error"]))
            if not r["error"].startswith("unsupported"):
                vacuous.append(name)
            if not isb:
                total += 1
        if unk:
            undecided.append("%s: solver gave no answer on %s" % (name, ", ".join(sorted(set(unk)))))
        reported = False
        seen = set()
        for o in bad:
            if reported or o["label"] in seen or len(seen) > 6:
                continue
            seen.add(o["label"])
            ok, out = native_replay(name, o["model"])
            if ok:
                p = replay_file(name, o["label"], "property %s\nobligation %s / %s\nsolver counterexample, reproduced on the compiled code:\n  %s\nreplay: %s replay %s %s\n\n%s" % (
                    PROP, name, o["label"], " ".join("%s=%s" % kv for kv in o["model"]), runners[name], name, " ".join("%s=%s" % kv for kv in o["model"]), out))
                violations.append((name, o["label"], p, True))
                reported = True
        if not reported and name in fails:
            m, inp = fails[name][0]
            p = replay_file(name, m, "property %s\ncontract %s\nfailing on the compiled code: %s\ninputs: %s\nreplay: %s replay %s %s\nfailed obligations of the verifier: %s\n" % (
                PROP, name, m, inp, runners[name], name, inp, [(o["label"], o["status"]) for o in bad]))
            violations.append((name, m, p, True))
            reported = True
        if not reported and bad:
            # look harder for a concrete input before reporting the obligation alone
            f2, _, _ = rac_wait(rac_start(runners[name], [name], 15000, 10**6))
            for o in bad[:4]:
                if name not in f2 and o["model"]:
                    f2, _, _ = rac_wait(rac_start(runners[name], [name], 3000, 10**5, ["%s=%s" % kv for kv in o["model"]]))
            if name in f2:
                m, inp = f2[name][0]
                p = replay_file(name, m, "property %s\ncontract %s\nfailing on the compiled code: %s\ninputs: %s\nreplay: %s replay %s %s\n" % (PROP, name, m, inp, runners[name], name, inp))
                violations.append((name, m, p, True))
            else:
                firm = [o for o in bad if not o.get("soft")]
                if firm:
                    o = firm[0]
                    p = replay_file(name, o["label"], "property %s\nobligation not discharged: %s / %s\nsolver: %s\ncountermodel: %s\nno failing input was found by executing the contract.\n" % (PROP, name, o["label"], o["detail"], o["model"]))
                    violations.append((name, o["label"], p, False))
                else:
                    undecided.append("%s: %s (countermodel interprets an elementary function, not realised by any input tried)" % (name, ", ".join(sorted(seen))))
    for name, fl in sorted(fails.items()):
        if name not in results:
            m, inp = fl[0]
            p = replay_file(name, m, "property %s\ncontract %s (executed, outside the verifier's reach)\nfailing on the compiled code: %s\ninputs: %s\nreplay: %s replay %s %s\n" % (PROP, name, m, inp, runners[name], name, inp))
            violations.append((name, m, p, True))
    for n in hung:
        undecided.append("%s: execution did not finish in its time" % n)

    # known findings: the listed input still fails, and nothing else is excused by it
    for k in known:
        n = k["contract"]
        rn = os.path.join(BUILD, "contracts", "debug", "runner_" + k["crate"])
        rc, out = run_native([rn, "replay", n] + ["%s=%s" % kv for kv in k.get("inputs", {}).items()], 60)
        if rc == 1 and "FAILED\t" in out:
            log("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
        else:
            notes.append("listed finding no longer reproduces: " + k["what"])

    execs = sum(v[0] for v in stats.values())
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": CFG["level"], "wall_s": round(time.time() - T0, 1), "violations": len(violations),
        "assumptions": sorted(["callee contract assumed: " + a for a in assumed]) + CFG.get("assumptions", []) + [
            "f64 arithmetic is treated as exact real arithmetic (NaN, infinities and division by zero are kept); rounding is exercised only by executing the contracts",
            "machine integers are exact: every overflow, cast and index is an obligation of its own (overflow panics)",
        ],
        "coverage": {
            "obligations": total, "discharged": proved, "checker_cmd": "python3-vt check.py %s (engine/interp.py over rustc MIR; z3 %s, nlsat, cvc5)" % (PROP, z3v()),
            "trusted_base": ["rustc front end and MIR construction (nightly)", "driver/ (MIR dump)", "engine/ (symbolic execution, memory model)", "engine/models*.py: assumed contracts of std and the time crate", "z3, cvc5"],
            "functions_under_contract": sorted("%s (%s)" % kv for kv in covered.items()),
            "contracts": labels + labels_x, "bounded_obligations": bounded, "backends": backends, "solver_time_s": round(stime, 1),
            "undischarged": undecided, "evaluations": execs + sum(v[1] for v in stats.values()), "distinct_nontrivial": execs,
            "rule": "each contract executed on the compiled code with seeded random and edge-biased inputs; an execution counts when its precondition held",
            "samples": labels[:5], "explanation": CFG.get("note", ""), "notes": notes,
        },
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    for u in undecided:
        log("UNDISCHARGED %s" % u.splitlines()[0])
    log("%s: %d obligations, %d discharged (+%d bounded), %d functions under contract, %d executions, %.0f s" % (PROP, total, proved, bounded, len(covered), execs, time.time() - T0))
    seen = set()
    for name, label, p, found in violations:
        log("  %s / %s" % (name, label))
    if violations:
        found = [v for v in violations if v[3]]
        for name, label, p, f in found[:5] or violations[:1]:
            log("VIOLATION property=%s replay=%s%s" % (PROP, p, "" if f else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


def z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    main()
