"""Bounded exhaustive explorer: runner shared by every check.

A check is a module mc.checks.<id> that defines

    ID, LEVEL ('exploration' | 'fault_enumeration' | 'model_checking'), RULE, ASSUMPTIONS
    cases(tier) -> list of Case       -- the *complete* enumeration of the bounded space, simplest first
    setup()                           -- optional, in every worker
    run_group(cases) -> list of Outcome (one per case, same order)
    GROUP                             -- how many cases one run_group call may share (default 1)
    extra_coverage(stats) -> dict     -- optional

The runner shards groups of cases over forked workers, isolates crashes and hangs, compares the
outcomes with the committed lists (known findings, declared refusals) and writes the evidence file.
Nothing is sampled: VERIF_SEED only rotates the order in which the groups are visited.
"""
import collections
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

from mc import cov

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
BASE = os.path.join(VERIF, "mc", "baseline")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
BUDGET = {"quick": 780.0, "thorough": 6 * 3600.0}
HANG_S = {"quick": 200.0, "thorough": 900.0}
MAX_VIOLATIONS = 25
STOP_AFTER = 200


class Case:
    """One point of the bounded space. `id` is stable and unique; `spec` is plain data."""
    __slots__ = ("id", "spec")

    def __init__(self, cid, spec=None):
        self.id = cid
        self.spec = spec

    def __repr__(self):
        return "Case(%s)" % self.id


class Outcome:
    """kind: 'ok' | 'refused' (the converter reports it cannot) | 'unrunnable' (the runtime has no kernel)
    | 'skip' (outside the reference) | anything else is a failure of the property."""
    __slots__ = ("kind", "detail", "sig", "evals", "extra")

    def __init__(self, kind="ok", detail="", sig=None, evals=1, extra=None):
        self.kind = kind
        self.detail = detail
        self.sig = sig          # behaviour signature: counts distinct behaviours
        self.evals = evals      # executions compared
        self.extra = extra      # dict of integer counters, summed up

    def __repr__(self):
        return "Outcome(%s, %s)" % (self.kind, self.detail)


def sig_of(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:12]


def load_known(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding: property=%s " % prop):
                    continue
                rest = line.split(" ", 2)[2]
                head, _, what = rest.partition(" :: ")
                kv = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
                out[(kv["case"], kv.get("kind", "mismatch"))] = what
    except FileNotFoundError:
        pass
    return out


def load_baseline(prop):
    """cases the converter refuses / the runtime has no kernel for on the unchanged tree."""
    out = {}
    path = os.path.join(BASE, prop + ".txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip("\n")
                if line and not line.startswith("#"):
                    kind, _, cid = line.partition(" ")
                    out[cid] = kind
    return out


# ---------------------------------------------------------------- workers
def _worker(mod, groups, counter, current, started, conn, wid, nopool):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    try:
        if hasattr(mod, "setup"):
            mod.setup()
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(groups):
                break
            current[wid] = i
            started[wid] = time.time()
            try:
                res = run_one_group(mod, groups[i])
            except Exception:  # pylint: disable=broad-except
                tb = traceback.format_exc()[-1500:]
                res = [Outcome("harness-error", tb) for _ in groups[i]]
            conn.send((i, res))
        current[wid] = -1
        conn.send((-1, None))
    finally:
        conn.close()
        os._exit(0)


def run_one_group(mod, cases):
    if len(cases) == 1:
        return mod.run_group(cases)
    res = None
    try:
        res = mod.run_group(cases)
    except Exception:  # pylint: disable=broad-except
        res = None
        tb = traceback.format_exc()[-1500:]
    else:
        tb = "; ".join("%s: %s" % (o.kind, o.detail) for o in res if o.kind != "ok")[:1500]
    if res is not None and all(o.kind == "ok" for o in res):
        return res
    # isolate: every case of the group alone
    single = []
    for c in cases:
        try:
            single.extend(mod.run_group([c]))
        except Exception:  # pylint: disable=broad-except
            single.append(Outcome("harness-error", traceback.format_exc()[-1500:]))
    if all(o.kind == "ok" for o in single):
        # each case alone is fine, the combination is not: that is itself a failure of the property
        single[0] = Outcome("group", "holds for each case alone, fails for the graph that joins %s: %s"
                            % ([c.id for c in cases], tb))
    return single


def explore(mod, groups, tier, deadline, bad, stop_after):
    """runs every group; returns {case id: Outcome}, capped flag"""
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    current = ctx.Array("i", [-1] * JOBS, lock=False)
    started = ctx.Array("d", [0.0] * JOBS, lock=False)
    results = {}
    done = [False] * len(groups)
    workers = {}
    nviol = 0
    capped = False

    def spawn(wid):
        r, w = ctx.Pipe(duplex=False)
        current[wid] = -1
        p = ctx.Process(target=_worker, args=(mod, groups, counter, current, started, w, wid, False), daemon=True)
        p.start()
        w.close()
        workers[wid] = (p, r)

    def take(i, res):
        done[i] = True
        for c, o in zip(groups[i], res):
            results[c.id] = o

    def fail_group(i, kind, detail):
        if len(groups[i]) == 1:
            take(i, [Outcome(kind, detail)])
        else:
            # re-run isolated
            for c in groups[i]:
                groups.append([c])
                done.append(False)
            done[i] = True

    requeue = []
    for wid in range(min(JOBS, max(1, len(groups)))):
        spawn(wid)
    from multiprocessing.connection import wait as mpwait
    n0 = len(groups)
    while workers:
        ready = mpwait([r for _, r in workers.values()], timeout=1.0)
        now = time.time()
        for wid in list(workers):
            p, r = workers[wid]
            if r in ready:
                try:
                    i, res = r.recv()
                    if i >= 0:
                        take(i, res)
                        nviol += sum(bad(c.id, o) for c, o in zip(groups[i], res))
                    continue
                except (EOFError, OSError, pickle.UnpicklingError):
                    p.join()
                    i = current[wid]
                    del workers[wid]
                    if i >= 0 and not done[i]:
                        fail_group(i, "crash", "the process died (exit code %s)" % p.exitcode)
                        spawn(wid)
                    continue
            if current[wid] >= 0 and not done[current[wid]] and now - started[wid] > HANG_S[tier]:
                i = current[wid]
                p.kill()
                p.join()
                del workers[wid]
                fail_group(i, "hang", "no answer within %d s" % HANG_S[tier])
                spawn(wid)
        if now > deadline or nviol >= stop_after:
            capped = True
            for p, _ in workers.values():
                p.kill()
            break
    # groups appended for isolation (forked workers have the old list): run them one by one in fresh processes
    for i in range(n0, len(groups)):
        if time.time() > deadline or nviol >= stop_after:
            capped = True
            break
        r, w = ctx.Pipe(duplex=False)
        c2 = ctx.Value("i", 0)
        cur = ctx.Array("i", [-1], lock=False)
        st = ctx.Array("d", [0.0], lock=False)
        p = ctx.Process(target=_worker, args=(mod, [groups[i]], c2, cur, st, w, 0, True), daemon=True)
        p.start()
        w.close()
        if r.poll(HANG_S[tier] / 2):
            try:
                _, res = r.recv()
                take(i, res)
            except (EOFError, OSError):
                p.join()
                take(i, [Outcome("crash", "the process died (exit code %s)" % p.exitcode)])
        else:
            p.kill()
            take(i, [Outcome("hang", "no answer within %d s" % (HANG_S[tier] / 2))])
        p.join(5)
    return results, capped, all(done)


GOOD = ("ok", "skip")
# ways in which the product declines a program without giving a wrong answer; only the cases listed in
# mc/baseline/<ID>.txt may end that way
UNSUPPORTED = ("refused", "unrunnable", "invalid", "foreign-op")


def classify(cid, o, known, base):
    """-> None (fine), ('known', what), ('violation', text)"""
    if o.kind in GOOD:
        return None
    if (cid, o.kind) in known:
        return ("known", known[(cid, o.kind)])
    if o.kind in UNSUPPORTED and base.get(cid) in UNSUPPORTED:
        return None
    return ("violation", "%s: %s" % (o.kind, o.detail))


def evidence(mod, tier, seed, stats, wall, violations):
    cov = {"exhaustive": stats["exhaustive"]}
    samples = stats["samples"]
    if mod.LEVEL == "model_checking":
        cov.update(states=stats["extra"].get("states", stats["cases"]),
                   transitions=stats["extra"].get("transitions", stats["evals"]),
                   traces_validated_against_impl=stats["extra"].get("traces", stats["cases"]),
                   samples=samples)
    else:
        cov.update(evaluations=stats["evals"], distinct_nontrivial=stats["distinct"], rule=mod.RULE, samples=samples)
    cov["cases_enumerated"] = stats["enumerated"]
    cov["cases_run"] = stats["cases"]
    cov["outcomes"] = stats["outcomes"]
    cov["distinct_behaviours"] = stats["distinct"]
    cov["counters"] = dict(stats["extra"])
    cov["technique"] = getattr(mod, "TECHNIQUE", "")
    if stats["capped"]:
        cov["cap"] = "stopped early (time budget or number of violations): %d of %d cases were run" % (stats["cases"], stats["enumerated"])
    data = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
            "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(data, f, indent=1, default=str)


def main(argv):
    prop = argv[0]
    args = argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    record = False
    listing = False
    dump = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--only":
            only = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--record":   # development only: rewrite the list of refusals
            record = True
        elif a == "--dump":
            dump = args.pop(0)
        elif a == "--list":
            listing = True
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cov.start()
    mod = importlib.import_module("mc.checks." + prop.lower())
    known, base = load_known(prop), load_baseline(prop)
    cases = mod.cases(tier)
    ids = set()
    for c in cases:
        if c.id in ids:
            raise SystemExit("duplicate case id " + c.id)
        if " " in c.id:
            raise SystemExit("space in case id " + c.id)
        ids.add(c.id)
    if replay:
        with open(replay) as f:
            want = json.load(f)["case"]
        if want not in ids and tier == "quick":
            cases = mod.cases("thorough")
        cases = [c for c in cases if c.id == want]
    if only:
        cases = [c for c in cases if fnmatch.fnmatchcase(c.id, only) or only in c.id]
    if listing:
        for c in cases:
            print(c.id)
        return 0
    known_ids = {k[0] for k in known}
    gsize = getattr(mod, "GROUP", 1)
    groups, buckets = [], collections.OrderedDict()
    gkey = getattr(mod, "group_key", lambda c: 0)
    for c in cases:
        if gsize <= 1 or c.id in base or c.id in known_ids or replay:
            groups.append([c])
        else:
            b = buckets.setdefault(gkey(c), [])
            b.append(c)
            if len(b) >= gsize:
                groups.append(b)
                buckets[gkey(c)] = []
    groups.extend(b for b in buckets.values() if b)
    if groups and not replay:
        k = (seed * 7919) % len(groups)
        groups = groups[k:] + groups[:k]
    if hasattr(mod, "prefork"):
        mod.prefork()
    t1 = time.time()
    # a broken property is reported without finishing the exploration once it failed often enough
    results, capped, complete = explore(
        mod, groups, tier, t0 + BUDGET[tier],
        lambda cid, o: (classify(cid, o, known, base) or ("",))[0] == "violation",
        float("inf") if record or dump else STOP_AFTER)
    extra = collections.Counter()
    outcomes = collections.Counter()
    sigs = set()
    evals = 0
    violations, knowns = [], []
    nontrivial = 0
    order = {c.id: i for i, c in enumerate(cases)}
    for cid, o in sorted(results.items(), key=lambda kv: order[kv[0]]):
        outcomes[o.kind] += 1
        evals += o.evals
        if o.sig is not None:
            sigs.add(o.sig)
        if o.extra:
            extra.update(o.extra)
        v = classify(cid, o, known, base)
        if v is None:
            continue
        (knowns if v[0] == "known" else violations).append((cid, o, v[1]))
    if record:
        os.makedirs(BASE, exist_ok=True)
        with open(os.path.join(BASE, prop + ".txt"), "w") as f:
            f.write("# cases of %s the converter refuses (reports an error) or the runtime has no kernel for\n" % prop)
            for c in cases:
                o = results.get(c.id)
                if o and o.kind in UNSUPPORTED and (c.id, o.kind) not in known:
                    f.write("%s %s\n" % (o.kind, c.id))
        violations = [v for v in violations if v[1].kind not in UNSUPPORTED]
    if dump:
        with open(dump, "w") as f:
            json.dump([[c.id, results[c.id].kind, results[c.id].detail] for c in cases if c.id in results and results[c.id].kind != "ok"], f, indent=0)
    stats = {"evals": evals, "distinct": len(sigs) if sigs else len(results), "cases": len(results),
             "enumerated": len(cases), "outcomes": dict(outcomes), "extra": extra, "capped": capped,
             "exhaustive": complete and not capped,
             "samples": [c.id for c in cases[:: max(1, len(cases) // 8)]][:8]}
    if not (replay or only):
        evidence(mod, tier, seed, stats, time.time() - t0, len(violations))
    for cid, o, what in knowns:
        print("KNOWN-FINDING: property=%s case=%s kind=%s %s" % (prop, cid, o.kind, what))
    seen_replay = 0
    for cid, o, what in violations:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, sig_of(cid)))
        if seen_replay < MAX_VIOLATIONS:
            with open(path, "w") as f:
                json.dump({"property": prop, "case": cid, "kind": o.kind, "detail": o.detail, "tier": tier,
                           "spec": repr(next((c.spec for c in cases if c.id == cid), None))[:4000],
                           "replay": "bash run.sh %s %s --replay %s" % (prop, tier, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s" % cid)
            print("  %s" % what[:700].replace("\n", "\n  "))
        seen_replay += 1
    print("%s %s: %d/%d cases in %d groups, %d evaluations, %d distinct behaviours, %s, %.1f s (setup %.1f s)%s"
          % (prop, tier, len(results), len(cases), len(groups), evals, stats["distinct"], dict(outcomes),
             time.time() - t0, t1 - t0, " CAPPED" if capped else ""))
    if extra:
        print("  counters: %s" % dict(extra))
    if violations:
        print("%s: %d violations" % (prop, len(violations)))
        return 1
    return 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    done = getattr(sys.modules.get("mc.checks." + sys.argv[1].lower()), "done", None)
    if done:
        done()
    os._exit(rc)
