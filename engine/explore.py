"""Exploration of all paths of a harness, in parallel."""
import collections
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import shims
from . import solver
from . import sym
from .ctx import SymCtx
from .state import PathState, EPS
from .sym import Abort, PathLimit, Divergence, Unsupported, f_eval, f_vars


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise PathLimit("path wall time")


def variants(st, env, neg):
    """input assignments for the replay, tidy ones first"""
    out = []
    env = st.complete(dict(env))

    def ok(e):
        try:
            for i, vi in enumerate(st.infos):
                v = e[i]
                if vi.input and (vi.lo is not None and (v < vi.lo or vi.lo_open and v == vi.lo) or
                                 vi.hi is not None and (v > vi.hi or vi.hi_open and v == vi.hi)):
                    return False
            return all(f_eval(g, e, EPS) for g in st.pc) and f_eval(neg, e, EPS)
        except Exception:
            return False

    def grab(e):
        d = {}
        for name, kind, x in st.inputs:
            if kind == "choice":
                d[name] = x
            elif kind == "int":
                d[name] = int(e[x])
            else:
                d[name] = str(e[x])
        return d

    base = {i: env[i] for i, vi in enumerate(st.infos) if vi.input}
    for den in (1, 2, 4, 8, 16, 64, 1024, 2 ** 20):
        e = {}
        for i, v in base.items():
            vi = st.infos[i]
            e[i] = v if vi.isint else Fraction(round(v * den), den)
        try:
            st.complete(e)
        except Exception:
            continue
        if ok(e):
            out.append(grab(e))
            break
    if not out and any(vi.definition is not None and vi.definition[0] in ("round", "sig") for vi in st.infos):
        # the model chose how to round: look nearby for inputs that do round so
        for k in range(1, 60):
            e = {i: v if st.infos[i].isint else v * (1 - Fraction(k * k, 77777)) for i, v in base.items()}
            try:
                st.complete(e)
            except Exception:
                continue
            if ok(e):
                out.append(grab(e))
                break
    e = dict(base)
    try:
        st.complete(e)
        g = grab(e)
        if g not in out:
            out.append(g)
    except Exception:
        pass
    return out


def run_path(case, prefix, want_witness=False, limits=None):
    st = PathState(prefix, limits or case.get("limits") or PathState.__init__.__defaults__[0])
    sym.CUR = st
    shims.reset_hash_counter()
    ctx = SymCtx(st)
    res = {"case": case["name"], "alts": [], "violations": [], "unknown": [], "aborted": False, "error": None,
           "obl": 0, "trivial": 0, "solved": 0, "covers": [], "branches": 0, "flags": [], "witness": None,
           "unknown_branches": 0, "decisions": 0}
    limit = (limits or case.get("limits") or PathState.__init__.__defaults__[0]).path_seconds
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    exc = None
    try:
        try:
            case["fn"](ctx, **case.get("args", {}))
        except Abort:
            res["aborted"] = True
        except Exception as e:
            exc = e
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(os.path.realpath(shims.REPO))]
            st.obligations.append(("exception:%s" % type(e).__name__, sym.TRUE))
            res["exc"] = "%s: %s at %s" % (type(e).__name__, str(e)[:200],
                                           ("%s:%d" % (where[-1].filename, where[-1].lineno)) if where else
                                           "%s:%d" % (tb[-1].filename, tb[-1].lineno))
        if not res["aborted"]:
            final_checks(st, res)
            if want_witness:
                w = witness(st)
                if w:
                    res["witness"] = w
            res["covers"] = sorted(st.covers)
    except (PathLimit, Divergence, Unsupported) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        if isinstance(e, Unsupported) and st.obligations:
            try:  # what was claimed before the unsupported step still holds or fails
                st.t0 = time.time()
                final_checks(st, res)
            except PathLimit:
                pass
        if isinstance(e, Unsupported):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(os.path.realpath(shims.REPO))]
            if where:
                res["error"] += " at %s:%d" % (where[-1].filename, where[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.cleanup()
        res["alts"] = st.alts
        res["branches"] = st.branches
        res["flags"] = sorted(st.flags)
        res["unknown_branches"] = st.unknown_branches
        res["decisions"] = len(st.taken)
        sym.CUR = None
    return res


def final_checks(st, res):
    seen = {}
    batch = []
    todo = []  # (label, simplified negation)
    for label, neg in st.obligations:
        res["obl"] += 1
        if neg is sym.FALSE:
            res["trivial"] += 1  # the two sides are the same rational function
            continue
        f = st.simplify(neg)
        if f is sym.FALSE:
            # refuted by the recorded signs and bounds; confirmed by the solver in one query per path
            res["solved"] += 1
            batch.append(neg)
            continue
        todo.append((label, f))
    # several obligations in one query first: when their disjunction is unsatisfiable, all of them are discharged
    fresh = list(dict.fromkeys(f for _, f in todo if f is not sym.TRUE and
                               not any(st.holds(f, m) is True for m in st.models)))
    for k in range(0, len(fresh), CHUNK):
        part = fresh[k:k + CHUNK]
        if len(part) > 1:
            status, m = st.query(sym.f_or(*part), CHUNK_SECONDS)
            if status == "unsat":
                for f in part:
                    seen[f] = "unsat"
    for label, f in todo:
        if f in seen and (seen[f] != "sat"):
            if seen[f] == "unsat":
                res["solved"] += 1
            else:
                res["unknown"].append(label)
            continue
        if f in seen and any(v["label"] == label for v in res["violations"]):
            continue
        hit = None
        for m in st.models:
            if st.holds(f, m) is True:
                hit = m
                break
        status = "sat" if hit else None
        if not hit:
            status, m = st.query(f) if f is not sym.TRUE else ("sat", {})
            if status == "sat":
                hit = st.full_model(m or {})
                if not all(st.holds(g, hit) is True for g in st.pc):
                    # the slice left something out (definitions that link variables): the whole path condition decides
                    s2, m2 = solver.check(st.infos, st.defs, list(st.pc) + [f], st.limits.query_budget)
                    if s2 == "unsat":
                        status = s2
                    elif s2 == "sat":
                        hit = st.complete(dict(m2))
        seen[f] = status
        if status == "unsat":
            res["solved"] += 1
        elif status == "unknown":
            res["unknown"].append(label)
        else:
            if any(v["label"] == label for v in res["violations"]):
                continue
            try:
                vs = variants(st, hit, f)
            except Exception:
                vs = []
            res["violations"].append({"label": label, "inputs": vs, "exc": res.get("exc"),
                                      "formula": sym.f_show(f, st.name_of)[:1500]})
    # what the sign and interval bookkeeping refuted is put to the solver as well, within a small budget
    batch = list(dict.fromkeys(batch))
    t0 = time.time()
    for k in range(0, len(batch), 20):
        if time.time() - t0 > CONFIRM_SECONDS:
            res["bounds_only"] = res.get("bounds_only", 0) + len(batch) - k
            break
        q = sym.f_or(*batch[k:k + 20])
        lits = st.slice(q) + [q]
        status, _ = solver.check(st.infos, st.defs, lits, CONFIRM_SECONDS / 2)
        if status == "sat":
            res["error"] = "engine: the solver contradicts the sign bookkeeping on %s" % sym.f_show(q, st.name_of)[:300]
        elif status == "unknown":
            res["bounds_only"] = res.get("bounds_only", 0) + len(batch[k:k + 20])


CONFIRM_SECONDS = 1.0
CHUNK = 8
CHUNK_SECONDS = 1.0


def witness(st):
    try:
        env = None
        for m in st.models:
            env = dict(m)
        if env is None:
            env = st.full_model({})
        st.complete(env)
        v = variants(st, env, sym.TRUE)
        return v[0] if v else None
    except PathLimit:
        return None


def worker(cases, tasks, results, slice_s, seed):
    trace = shims.Trace()
    trace.start()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    known = 0
    while True:
        t = tasks.get()
        if t is None:
            return
        ci, prefix, ww = t
        stack = [(prefix, ww)]
        out = []
        t0 = time.time()
        while stack and time.time() - t0 < slice_s:
            p, w = stack.pop()
            try:
                r = run_path(cases[ci], p, w)
            except BaseException as e:
                r = {"case": cases[ci]["name"], "alts": [], "violations": [], "unknown": [], "aborted": False,
                     "error": "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), "obl": 0,
                     "trivial": 0, "solved": 0, "covers": [], "branches": 0, "flags": [], "witness": None,
                     "unknown_branches": 0, "decisions": 0}
            for a in r.pop("alts"):
                stack.append((a, False))
            out.append(r)
            if r["violations"]:
                break
        n = sum(len(v) for v in trace.lines.values())
        lines = {k: sorted(v) for k, v in trace.lines.items()} if n != known else None
        known = n
        results.put(("res", ci, out, [p for p, _ in stack], os.getpid(), dict(solver.STATS), lines))


def explore(cases, jobs=None, slice_s=0.4, deadline=None, on_violation=None, seed=1, witness_every=25):
    """Explore every path of every case. on_violation(case, violation) -> True to stop."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    mctx = mp.get_context("fork")
    tasks = mctx.Queue()
    results = mctx.Queue()
    procs = [mctx.Process(target=worker, args=(cases, tasks, results, slice_s, seed), daemon=True) for _ in range(jobs)]
    for p in procs:
        p.start()
    pending = collections.deque()
    order = list(range(len(cases)))
    for ci in order:
        pending.append((ci, [], True))
    out = {"paths": 0, "aborted": 0, "branches": 0, "decisions": 0, "obl": 0, "trivial": 0, "solved": 0, "unknown": [],
           "errors": [], "violations": [], "covers": collections.defaultdict(set), "flags": collections.Counter(),
           "witnesses": [], "unknown_branches": 0, "bounds_only": 0, "per_case": collections.Counter(), "stopped": None}
    inflight = 0
    npaths = 0
    per_worker = {}
    all_lines = collections.defaultdict(set)
    stop = False
    while (pending or inflight) and not stop:
        while pending and inflight < jobs * 2:
            ci, prefix, ww = pending.pop() if len(pending) > 4 * jobs else pending.popleft()
            tasks.put((ci, prefix, ww))
            inflight += 1
        try:
            msg = results.get(timeout=5)
        except queue.Empty:
            if not all(p.is_alive() for p in procs):
                out["errors"].append("a worker process died")
                break
            if deadline and time.time() > deadline:
                out["stopped"] = "time budget"
                break
            continue
        _, ci, rs, rest, wid, stats, lines = msg
        per_worker[wid] = stats
        for k, v in (lines or {}).items():
            all_lines[k].update(v)
        inflight -= 1
        for r in rs:
            npaths += 1
            out["paths"] += 1
            out["per_case"][r["case"]] += 1
            out["branches"] += r["branches"]
            out["decisions"] += r["decisions"]
            out["obl"] += r["obl"]
            out["trivial"] += r["trivial"]
            out["solved"] += r["solved"]
            out["unknown_branches"] += r["unknown_branches"]
            out["bounds_only"] += r.get("bounds_only", 0)
            for c in r["covers"]:
                out["covers"][r["case"]].add(c)
            for f in r["flags"]:
                out["flags"][f] += 1
            if r["aborted"]:
                out["aborted"] += 1
            if r["unknown"]:
                out["unknown"].append((r["case"], r["unknown"]))
            if r["error"]:
                out["errors"].append("%s: %s" % (r["case"], r["error"]))
            if r["witness"]:
                out["witnesses"].append((r["case"], r["witness"]))
            for v in r["violations"]:
                v["case"] = r["case"]
                out["violations"].append(v)
                if on_violation and on_violation(v):
                    stop = True
        for i, p in enumerate(rest):
            pending.append((ci, p, (npaths + i) % witness_every == 0 and len(out["witnesses"]) < 60))
        if deadline and time.time() > deadline:
            out["stopped"] = "time budget"
            break
    out["left"] = len(pending) + inflight
    finished = not stop and out["stopped"] is None and not any("worker" in e for e in out["errors"])
    tot = collections.Counter()
    for st in per_worker.values():
        for k, v in st.items():
            tot[k] = max(tot[k], v) if k == "max" else tot[k] + v
    if finished:
        for _ in procs:
            tasks.put(None)
    for p in procs:
        p.join(timeout=0.2)
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    out["solver"] = dict(tot)
    out["lines"] = all_lines
    return out
