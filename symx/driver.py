"""Check driver: runs obligations in worker processes, replays counterexamples and a
sample of path witnesses on the unmodified code, writes evidence."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import core
from .core import Control, Engine, EngineError, PathAbort, PropertyViolation
from . import values as V
from .values import deep_conc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


class Ctx:
    """Symbolic source of inputs + assertion API of one path."""

    symbolic = True
    _sx_direct = True

    def __init__(self, eng, ob):
        self.eng = eng
        self.rec: dict = {"_ob": ob}
        self.outcome = None
        self.extra = None

    def record(self):
        r = deep_conc(self.rec)
        if self.extra is not None:
            r["_extra"] = self.extra()
        return r

    # ---- inputs
    def _put(self, name, v):
        k, n = name, 1
        while k in self.rec:
            k = f"{name}#{n}"
            n += 1
        self.rec[k] = v
        return v

    def int(self, name, lo, hi):
        return self._put(name, V.new_int(name, lo, hi) if hi > lo else lo)

    def bool(self, name):
        return self._put(name, V.new_bool(name))

    def str(self, name, alphabet, lo, hi):
        return self._put(name, V.new_str(name, alphabet, lo, hi))

    def enum(self, name, table):
        return self._put(name, V.new_enum(name, table))

    def choice(self, name, n):
        return self._put(name, V.choice(name, n))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    # ---- assertions
    def check(self, cond, msg, sig=None):
        """The property assertion: forks on the condition; the solver decides
        whether its negation is feasible on this path."""
        self.eng.n_asserts += 1
        if not cond:
            m = msg() if callable(msg) else msg
            raise PropertyViolation(m, self.record())

    def fail(self, msg, sig=None):
        self.eng.n_asserts += 1
        raise PropertyViolation(msg, self.record())

    def assume(self, cond):
        if not cond:
            raise PathAbort("assumption")


class Violated(BaseException):
    def __init__(self, msg, sig):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class Skip(BaseException):
    pass


class ReplayCtx:
    """Same API, concrete values from a record, unmodified code."""

    symbolic = False

    def __init__(self, rec):
        self.rec = rec
        self.used: set = set()
        self.outcome = None
        self.missing = []

    def _get(self, name, default):
        k, n = name, 1
        while k in self.used:
            k = f"{name}#{n}"
            n += 1
        self.used.add(k)
        if k not in self.rec:
            self.missing.append(k)
            return default
        return self.rec[k]

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return self._get(name, False)

    def str(self, name, alphabet, lo, hi):
        return self._get(name, alphabet[0] * lo)

    def enum(self, name, table):
        return self._get(name, table[0])

    def choice(self, name, n):
        return self._get(name, 0)

    def pick(self, name, seq):
        return list(seq)[self.choice(name, len(seq))]

    def check(self, cond, msg, sig=None):
        if not cond:
            m = msg() if callable(msg) else msg
            raise Violated(m, sig or m)

    def fail(self, msg, sig=None):
        raise Violated(msg, sig or msg)

    def assume(self, cond):
        if not cond:
            raise Skip()


def replay_one(check, rec):
    tiers = ("thorough", "quick")
    if os.environ.get("VERIF_TIER", "quick") == "thorough":
        tiers = ("quick", "thorough")
    obs = {o["name"]: o for t in tiers for o in check.obligations(t)}
    ob = obs[rec["_ob"]]
    ctx = ReplayCtx(rec)
    try:
        ob["fn"](ctx)
    except Violated as v:
        return dict(violated=True, msg=v.msg, sig=f"{rec['_ob']}: {v.sig}")
    except Skip:
        return dict(violated=False, outcome="skip")
    return dict(violated=False, outcome=ctx.outcome)


def run_obligation(ob, deadline):
    """In a forked child."""
    kw = dict(ob.get("engine", {}))
    kw.setdefault("seed", int(os.environ.get("VERIF_SEED", "1")))
    kw.setdefault("max_time", ob.get("time", 60))
    kw["max_time"] = max(1.0, min(kw["max_time"], deadline - time.time()))
    eng = Engine(**kw)
    eng.samples = []
    eng.err_records = []
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 7919 + hash(ob["name"]) % 1000)
    nsamp = ob.get("samples", 4)
    reached = {}
    setup = ob.get("setup")
    if setup:
        setup()

    def fn():
        ctx = Ctx(eng, ob["name"])
        eng.run_state["ctx"] = ctx
        try:
            ob["fn"](ctx)
        except Control:
            raise
        except RecursionError:
            raise EngineError("RecursionError in harness")
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)[-3:]
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb)
            raise EngineError(f"harness exception {type(exc).__name__}: {str(exc)[:200]} @ {where}")
        return ctx

    def on_path(status, info, e):
        ctx = e.run_state.get("ctx")
        if ctx is None:
            return
        o = ctx.outcome if status == "ok" else status
        if isinstance(o, str):
            reached[o[:60]] = reached.get(o[:60], 0) + 1
        if status in ("ok", "violation") and nsamp:
            # reservoir sample of path witnesses, decided by the seed
            n = e.n_paths + 1
            if len(e.samples) < nsamp:
                e.samples.append(dict(rec=ctx.record(), outcome=ctx.outcome, status=status))
            else:
                k = rng.randrange(n)
                if k < nsamp:
                    e.samples[k] = dict(rec=ctx.record(), outcome=ctx.outcome, status=status)
        elif status == "error" and len(e.err_records) < 6:
            try:
                e.err_records.append(dict(rec=ctx.record(), outcome=None, status=status))
            except BaseException:
                pass

    t0 = time.time()
    eng.explore(fn, on_path=on_path, max_violations=ob.get("max_violations", 6))
    st = eng.stats()
    st.update(name=ob["name"], bounds=ob.get("bounds", ""), reached=reached,
              wall_s=round(time.time() - t0, 2))
    viol = [dict(msg=m, rec=r) for m, r in eng.violations]
    return dict(stats=st, violations=viol, samples=eng.samples, errs=eng.err_records)


def _child(ob, deadline, path):
    res = None
    try:
        res = run_obligation(ob, deadline)
    except BaseException as exc:
        res = dict(stats=dict(name=ob["name"], fatal=f"{type(exc).__name__}: {exc}",
                              tb=traceback.format_exc()[-1500:]), violations=[], samples=[], errs=[])
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=repr)
    os.replace(tmp, path)
    os._exit(0)


def run_pool(obs, workers, deadline, scratch, target=None):
    ctx = mp.get_context("fork")
    todo = list(enumerate(obs))
    running = {}
    results = [None] * len(obs)
    while todo or running:
        while todo and len(running) < workers and time.time() < deadline:
            k, ob = todo.pop(0)
            if target:
                # what is left of the wall clock, shared among the obligations left
                share = (target - time.time()) * workers / (len(todo) + 1) * 1.12
                ob = dict(ob, time=max(2.0, min(ob.get("time", 60), share, target - time.time())))
            path = os.path.join(scratch, f"ob{k}.json")
            p = ctx.Process(target=_child, args=(ob, deadline, path))
            p.start()
            limit = min(deadline, time.time() + ob.get("time", 60)) + 60
            running[k] = (p, path, ob, limit)
        if time.time() >= deadline and todo:
            for k, ob in todo:
                results[k] = dict(stats=dict(name=ob["name"], fatal="not started: time budget"),
                                  violations=[], samples=[], errs=[])
            todo = []
        for k in list(running):
            p, path, ob, limit = running[k]
            if not p.is_alive():
                p.join()
                if os.path.exists(path):
                    with open(path) as f:
                        results[k] = json.load(f)
                else:
                    results[k] = dict(stats=dict(name=ob["name"],
                                                 fatal=f"worker died, exit {p.exitcode}"),
                                      violations=[], samples=[], errs=[])
                del running[k]
            elif time.time() > limit:
                p.kill()
                p.join()
                results[k] = dict(stats=dict(name=ob["name"], fatal="worker killed: hard limit"),
                                  violations=[], samples=[], errs=[])
                del running[k]
        time.sleep(0.02)
    return results


def replay_many(prop, records, scratch, timeout=120, workers=8, env=None):
    """Run replays on the unmodified code, one process per chunk of records (violations
    one process each)."""
    out = [None] * len(records)
    jobs = []
    for k, r in enumerate(records):
        path = os.path.join(scratch, f"replay{k}_{random.getrandbits(32)}.json")
        with open(path, "w") as f:
            json.dump(r, f)
        jobs.append((k, path))
    running = {}
    while jobs or running:
        while jobs and len(running) < workers:
            k, path = jobs.pop(0)
            running[k] = (subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "checks", "replay.py"), prop, path],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/",
                env=dict(os.environ, SX_REPLAY="1", **(env or {}))), time.time())
        for k in list(running):
            p, t = running[k]
            if p.poll() is not None:
                so, se = p.communicate()
                out[k] = _parse(so, se, p.returncode)
                del running[k]
            elif time.time() - t > timeout:
                p.kill()
                p.communicate()
                out[k] = dict(timeout=True, results=None)
                del running[k]
        time.sleep(0.02)
    return out


def _parse(so, se, rc):
    for line in reversed(so.splitlines()):
        if line.startswith("REPLAY-RESULT "):
            return json.loads(line[len("REPLAY-RESULT "):])
    return dict(crash=True, rc=rc, stderr=se[-1500:], results=None)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [e for e in d.get("findings", []) if e["property"] == prop]


def main(prop, check):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    budget = getattr(check, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix=f"sx_{prop}_")
    os.chmod(scratch, 0o755)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        return _main(prop, check, t0, tier, seed, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, check, t0, tier, seed, deadline, scratch):
    obs = check.obligations(tier)
    workers = int(os.environ.get("SX_WORKERS", "8"))
    target = None
    if tier == "quick":
        target = time.time() + getattr(check, "TARGET", 60)
    results = run_pool(obs, workers, deadline, scratch, target)
    known = load_known(prop)
    # ---- replay
    viols, samples, errs = [], [], []
    seen = set()
    for r in results:
        for v in r["violations"]:
            key = json.dumps(v["rec"], sort_keys=True, default=repr)
            if key not in seen:
                seen.add(key)
                viols.append(dict(v, ob=r["stats"]["name"]))
        samples += [dict(s, ob=r["stats"]["name"]) for s in r["samples"]]
        errs += [dict(s, ob=r["stats"]["name"]) for s in r["errs"]]
    rnd = random.Random(seed)
    nsamp = getattr(check, "NSAMPLES", {}).get(tier, 40 if tier == "quick" else 160)
    if len(samples) > nsamp:
        samples = rnd.sample(samples, nsamp)
    if len(errs) > 24:
        errs = rnd.sample(errs, 24)
    jobs = []          # (kind, [items])
    for v in viols[:40]:
        jobs.append(("viol", [v]))
    for k in known:
        jobs.append(("known", [k]))
    CH = getattr(check, "REPLAY_CHUNK", 12)
    for i in range(0, len(samples), CH):
        jobs.append(("sample", samples[i:i + CH]))
    for i in range(0, len(errs), CH):
        jobs.append(("err", errs[i:i + CH]))
    recs = [[dict(rec=i.get("rec", i.get("record"))) for i in items] for _, items in jobs]
    outs = replay_many(prop, recs, scratch, timeout=getattr(check, "REPLAY_TIMEOUT", 120),
                       env=getattr(check, "REPLAY_ENV", None))
    reproduced, notrep, mism, validated, known_hit = [], [], [], 0, []
    known_sigs = {k["sig"]: k for k in known}
    replay_err = []
    for (kind, items), out in zip(jobs, outs):
        rs = out.get("results")
        if rs is None:
            # the replay process hung or died: for properties where that is itself the
            # violation the check module decides
            h = getattr(check, "replay_abnormal", None)
            if h and kind == "viol" and (r := h(items[0], out)):
                reproduced.append(dict(items[0], replay=r))
            else:
                replay_err.append(dict(kind=kind, out={k: out.get(k) for k in ("rc", "stderr", "timeout")}))
            continue
        for it, r in zip(items, rs):
            if r.get("error"):
                replay_err.append(dict(kind=kind, out=r["error"]))
                continue
            if r.get("violated"):
                if kind == "known":
                    known_hit.append(it)
                elif r.get("sig") in known_sigs:
                    pass
                else:
                    reproduced.append(dict(it, replay=r))
            elif kind == "viol":
                notrep.append(dict(it, replay=r))
            elif kind in ("sample", "err"):
                validated += 1
                if it.get("outcome") is not None and r.get("outcome") is not None \
                        and str(it["outcome"]).replace("ArgumentError", "RecursionError") != r["outcome"] \
                        and it.get("status") == "ok":
                    mism.append(dict(ob=it["ob"], sym=it["outcome"], real=r["outcome"], rec=it["rec"]))
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    sts = [r["stats"] for r in results]
    fatal = [s for s in sts if s.get("fatal")]
    tot = lambda k: sum(s.get(k, 0) or 0 for s in sts)  # noqa
    funcs = sorted({f for s in sts for f in s.get("functions", [])})
    notes = {}
    for s in sts:
        for n, c in (s.get("notes") or {}).items():
            notes[n] = notes.get(n, 0) + c
    exhaustive = all(s.get("exhaustive") for s in sts) and not fatal
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("branches"),
            traces_validated_against_impl=validated,
            exhaustive=exhaustive,
            explanation="states = symbolic execution paths explored; transitions = symbolic "
                        "branch decisions recorded on them; each path covers all values that "
                        "satisfy its path condition",
            samples=[dict(obligation=s["ob"], outcome=s["outcome"], input=_short(s["rec"]))
                     for s in samples[:8]],
            functions_encoded=funcs,
            obligations=[dict(name=s["name"], bounds=s.get("bounds"), paths=s.get("paths"),
                              aborted=s.get("aborted"), branches=s.get("branches"),
                              queries=s.get("queries"), sat=s.get("sat"), unsat=s.get("unsat"),
                              unknown=s.get("unknown"), assertions=s.get("asserts"),
                              solver_s=s.get("solver_s"), exhaustive=s.get("exhaustive"),
                              wall_s=s.get("wall_s"), reached=s.get("reached"),
                              notes=s.get("notes"), errors=s.get("errors"),
                              fatal=s.get("fatal")) for s in sts],
            queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"),
            queries_unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
            assertions_checked=tot("asserts"),
            counterexamples=len(viols), counterexamples_reproduced=len(reproduced),
            counterexamples_not_reproduced=[dict(ob=n["ob"], msg=n["msg"], real=_short(n["replay"]),
                                                 rec=_short(n["rec"])) for n in notrep[:10]],
            witness_mismatches=[_short(m) for m in mism[:10]], n_witness_mismatches=len(mism),
            replay_errors=[_short(e) for e in replay_err[:10]],
            notes=notes,
        ),
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(reproduced),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    rc = 0
    print(f"{prop} [{tier}] obligations={len(obs)} paths={tot('paths')} branches={tot('branches')} "
          f"queries={tot('queries')} asserts={tot('asserts')} solver_s={tot('solver_s'):.1f} "
          f"exhaustive={exhaustive} cex={len(viols)} reproduced={len(reproduced)} "
          f"validated={validated} mismatches={len(mism)} replay_errors={len(replay_err)} "
          f"wall={time.time() - t0:.1f}s")
    for s in fatal:
        print("  NOTE obligation", s["name"], "gave no verdict:", s["fatal"])
    for s in sts:
        for e in (s.get("errors") or [])[:2]:
            print("  NOTE engine error in", s["name"], ":", e)
    for n in notrep[:5]:
        print("  NOTE counterexample not reproduced on the real code (not reported):",
              n["ob"], n["msg"])
    for m in mism[:3]:
        print("  NOTE witness mismatch:", json.dumps(_short(m), default=repr)[:400])
    for e in replay_err[:3]:
        print("  NOTE replay error:", json.dumps(_short(e), default=repr)[:600])
    if reproduced:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        sigs = set()
        for k, v in enumerate(reproduced):
            sig = v["replay"].get("sig") or v["replay"].get("msg")
            if sig in sigs:
                continue
            sigs.add(sig)
            path = os.path.join(rdir, f"{prop}_{k}.json")
            with open(path, "w") as f:
                json.dump([dict(rec=v["rec"], msg=v.get("msg"), observed=v["replay"], ob=v["ob"])],
                          f, indent=1, default=repr)
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", v["ob"], "|", v["replay"].get("msg"), "| sig:", v["replay"].get("sig"))
            rc = 1
            if len(sigs) >= 5:
                break
    return rc


def _short(x, n=600):
    s = json.dumps(x, default=repr)
    return x if len(s) <= n else s[:n] + "..."
