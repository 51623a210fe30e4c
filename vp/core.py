"""Property runner: generated-input search with Hypothesis, sharded over processes.

A property module vp/props/<id>.py defines

    PROPERTY  = "C01"
    RULE      = text: how cases are made and what makes one non-trivial
    SUBS      = [Sub(...), ...]
    KNOWN     = optional list of Known(...)
    ASSUME    = optional list of assumptions

A Sub couples a Hypothesis strategy that yields a JSON-able case with check(case), which raises
Violation if the oracle disagrees with the code, and otherwise returns None, a bool (was the case
non-trivial) or a dict {"nt": bool, "tags": [...]}.
"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import multiprocessing as mp
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 240.0
SHRINK_BUDGET = 40.0


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the stated input space (numerically degenerate data); counted as trivial."""


class Known:
    """A recorded genuine defect: still_fails() replays exactly the listed input."""

    def __init__(self, key, text, still_fails):
        self.key, self.text, self.still_fails = key, text, still_fails


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=None, weight=1.0):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards, self.weight = shards, weight


def jcase(case):
    return json.dumps(case, sort_keys=True, default=_jd)


def _jd(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(type(o))


def _derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _in_harness(exc):
    """True if an exception was raised by harness code itself, e.g. a name it expects is gone."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    return os.path.abspath(fn).startswith(os.path.join(VERIF, "vp") + os.sep)


def evaluate(sub, case):
    """Run one case. Returns info, or raises Violation / HarnessError."""
    import numpy as np

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return sub.check(case)
        except (Violation, HarnessError):
            raise
        except Skip as e:
            return {"nt": False, "tags": ["skipped: " + str(e)]}
        except (ImportError, AttributeError, NameError, MemoryError) as e:
            if _in_harness(e) or isinstance(e, (ImportError, MemoryError)):
                raise HarnessError(traceback.format_exc()) from e
            raise Violation("the code under test raised on a valid input:\n" + traceback.format_exc()[-3000:]) from e
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            raise Violation("the code under test raised on a valid input:\n" + traceback.format_exc()[-3000:]) from e


def load(prop):
    mod = importlib.import_module("vp.props." + prop)
    return mod


def _worker(prop, sub_idx, shard, n, seed, conn, curfile):
    # own process group member; keep stdout quiet (the code under test prints progress)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        errf = os.open(curfile + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(errf, 2)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase

        mod = load(prop)
        sub = mod.SUBS[sub_idx]
        st = {"n": 0, "nt": set(), "tags": {}, "samples": [], "fail": None, "t_fail": None, "harness": None, "calls": 0, "hits": 0}
        total = 3 * n + 20
        warm = 2 * min(total // 10, 50) + 1
        held = set()  # cases that held: the generator repeats itself, evaluating them again would be wasted
        fd = os.open(curfile, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

        def note(case):
            b = jcase(case).encode()
            os.ftruncate(fd, 0)
            os.pwrite(fd, b, 0)

        def test(case):
            if st["harness"] is not None:
                raise HarnessError(st["harness"])
            key = hashlib.sha256(jcase(case).encode()).hexdigest()[:16]
            st["calls"] += 1
            if st["fail"] is not None:
                if key != st["fail"][0] and time.time() - st["t_fail"] > SHRINK_BUDGET:
                    return
            elif st["hits"] >= n or st["n"] >= 2 * n or (shard > 0 and st["calls"] <= warm):
                # enough distinct cases, or the generator's simplest cases (left to shard 0)
                return
            if key in held:
                return
            note(case)
            conn.send(("tick", None))
            st["n"] += 1
            try:
                info = evaluate(sub, case)
            except Violation as e:
                if st["t_fail"] is None:
                    st["t_fail"] = time.time()
                st["fail"] = (key, case, str(e))
                raise
            except HarnessError as e:
                st["harness"] = str(e)
                raise
            held.add(key)
            if info is None:
                info = {"nt": True}
            elif isinstance(info, bool):
                info = {"nt": info}
            for t in info.get("tags", ()):
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if info.get("nt", True):
                st["hits"] += 1
                if key not in st["nt"] and len(st["samples"]) < 3:
                    st["samples"].append({"sub": sub.name, "case": json.loads(jcase(case))})
                st["nt"].add(key)

        s = settings(
            max_examples=total, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )
        t = hypothesis.seed(_derive(seed, sub.name, shard))(s(given(sub.strategy)(test)))
        err = None
        try:
            t()
        except Violation:
            pass
        except HarnessError as e:
            err = str(e)
        except BaseException as e:  # e.g. hypothesis.errors.Flaky
            if st["fail"] is None:
                err = traceback.format_exc()
            else:
                st["fail"] = (st["fail"][0], st["fail"][1], st["fail"][2] + "\n[also: %r]" % (e,))
        conn.send(("done", {
            "n": st["n"], "nt": list(st["nt"]), "tags": st["tags"], "samples": st["samples"],
            "fail": None if st["fail"] is None else {"case": json.loads(jcase(st["fail"][1])), "msg": st["fail"][2]},
            "err": err,
        }))
    except BaseException:
        conn.send(("done", {"n": 0, "nt": [], "tags": {}, "samples": [], "fail": None,
                            "err": traceback.format_exc()}))
    finally:
        conn.close()
        os._exit(0)


def replay_file(prop, name, case, msg, seed, tier):
    d = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(jcase(case).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s_%s_%s.json" % (prop, name, h))
    with open(p, "w") as f:
        json.dump({"property": prop, "sub": name, "case": json.loads(jcase(case)), "message": msg,
                   "seed": seed, "tier": tier,
                   "how": "python3 vp/run.py %s --replay %s" % (prop, p)}, f, indent=1)
    return p


def write_evidence(prop, tier, seed, mod, st, wall, nviol):
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["n"], "distinct_nontrivial": len(st["nt"]), "rule": mod.RULE,
            "samples": st["samples"][:12],
            "per_sub": st["per_sub"], "classes": dict(sorted(st["tags"].items())),
            "known_findings_replayed": st["known"], "regressions_replayed": st["regress"],
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=_jd)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def check_paths():
    import mssm

    src = os.path.realpath(os.path.join(REPO, "src"))
    assert os.path.realpath(mssm.__file__).startswith(src + os.sep), mssm.__file__
    lib = os.environ.get("VP_LIB")
    for m in ("eigen_solvers", "davies", "dChol", "mcmc", "hsmm", "hazard"):
        f = importlib.import_module(m).__file__
        assert os.path.realpath(f).startswith(os.path.realpath(lib) + os.sep), f


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 1
    scale = float(os.environ.get("VP_SCALE", "1"))
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] in ("quick", "thorough"):
            tier = argv[i]
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    warnings.simplefilter("ignore")
    check_paths()
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}

    if replay is not None:
        rec = json.load(open(replay))
        try:
            info = evaluate(subs[rec["sub"]], rec["case"])
            print("replay held:", info)
            return 0
        except Violation as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1

    st = {"n": 0, "nt": set(), "tags": {}, "samples": [], "per_sub": {}, "known": [], "regress": 0}
    viol = []

    # recorded findings: exactly the listed inputs
    listed = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == prop and e["status"] == "known":
                listed[e["key"]] = e
    for k in getattr(mod, "KNOWN", []):
        if k.key not in listed:
            raise HarnessError("known finding %s is not listed in known_findings.json" % k.key)
        bad = k.still_fails()
        st["known"].append({"key": k.key, "still_fails": bool(bad)})
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k.key]["text"]))

    work = os.environ.get("VP_SCRATCH", "/tmp")
    ctx = mp.get_context("fork")
    tasks = []
    ncpu = int(os.environ.get("VP_JOBS", "8"))
    for si, s in enumerate(mod.SUBS):
        if only is not None and s.name != only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        sh = s.shards or (2 * ncpu if n >= 8 * ncpu else ncpu if n >= 2 * ncpu else max(1, min(n, ncpu)))
        if tier == "thorough":
            sh = max(sh, min(2 * ncpu, n)) if n >= 4 * ncpu else sh
        base, rem = divmod(n, sh)
        for k in range(sh):
            m = base + (1 if k < rem else 0)
            if m:
                tasks.append((m * s.weight, si, k, m))
    # saved regressions first
    rdir = os.path.join(VERIF, "regress", prop)
    if os.path.isdir(rdir) and only is None:
        for f in sorted(os.listdir(rdir)):
            rec = json.load(open(os.path.join(rdir, f)))
            st["regress"] += 1
            try:
                # in a child: a crash or hang of the code under test must not take the check down
                res = _isolated(subs[rec["sub"]], rec["case"])
            except Violation as e:
                viol.append((rec["sub"], rec["case"], str(e)))
                break
            if res is not None:
                raise HarnessError(res)
    tasks.sort(reverse=True)
    running = {}
    errs = []
    subtime = {}
    try:
        while (tasks or running) and not viol and not errs:
            while tasks and len(running) < ncpu:
                _, si, k, m = tasks.pop(0)
                a, b = ctx.Pipe(duplex=False)
                cur = os.path.join(work, "cur_%d_%d" % (si, k))
                p = ctx.Process(target=_worker, args=(prop, si, k, m, seed, b, cur))
                p.start()
                b.close()
                running[a] = {"p": p, "si": si, "k": k, "t": time.time(), "cur": cur, "t0": time.time()}
            for c in mpwait(list(running), timeout=1.0):
                r = running[c]
                try:
                    kind, val = c.recv()
                except EOFError:
                    kind, val = "dead", None
                if kind == "tick":
                    r["t"] = time.time()
                    continue
                r["p"].join(10)
                del running[c]
                c.close()
                s = mod.SUBS[r["si"]]
                if kind == "dead":
                    case = _read_cur(r["cur"])
                    if case is None:
                        errs.append("worker for %s died before its first case (exit %s)\n%s"
                                    % (s.name, r["p"].exitcode, _tail(r["cur"] + ".err")))
                    elif r["p"].exitcode == -signal.SIGKILL:
                        errs.append("worker for %s was killed (out of memory?)" % s.name)
                    else:
                        viol.append((s.name, case, "the process died (exit %s) on this input\n%s"
                                     % (r["p"].exitcode, _tail(r["cur"] + ".err"))))
                    continue
                ps = st["per_sub"].setdefault(s.name, {"evaluations": 0, "distinct_nontrivial": 0, "cpu_s": 0.0})
                ps["evaluations"] += val["n"]
                ps["cpu_s"] = round(ps["cpu_s"] + time.time() - r["t0"], 2)
                st["n"] += val["n"]
                before = len(st["nt"])
                st["nt"].update(s.name + ":" + h for h in val["nt"])
                ps["distinct_nontrivial"] += len(st["nt"]) - before
                for t, v in val["tags"].items():
                    t = s.name + ":" + t
                    st["tags"][t] = st["tags"].get(t, 0) + v
                if sum(1 for x in st["samples"] if x["sub"] == s.name) == 0:
                    st["samples"].extend(val["samples"][:2])
                if val["fail"]:
                    viol.append((s.name, val["fail"]["case"], val["fail"]["msg"]))
                elif val["err"]:
                    errs.append("[%s] %s" % (s.name, val["err"]))
            now = time.time()
            for c, r in list(running.items()):
                if now - r["t"] > CASE_TIMEOUT:
                    case = _read_cur(r["cur"])
                    viol.append((mod.SUBS[r["si"]].name, case,
                                 "no result after %d s on an input that takes well under a second" % CASE_TIMEOUT))
    finally:
        for r in running.values():
            try:
                r["p"].kill()
            except Exception:
                pass
        for r in running.values():
            r["p"].join(5)
    wall = time.time() - t0
    if viol:
        write_evidence(prop, tier, seed, mod, st, wall, len(viol))
        for name, case, msg in viol[:1]:
            p = replay_file(prop, name, case, msg, seed, tier)
            print("--- %s / %s ---" % (prop, name))
            print(msg[-3500:])
            print("case:", jcase(case)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errs:
        sys.stderr.write("ERROR in the check %s:\n%s\n" % (prop, "\n".join(errs)[-6000:]))
        return 2
    write_evidence(prop, tier, seed, mod, st, wall, 0)
    print("OK %s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
          % (prop, tier, seed, st["n"], len(st["nt"]), wall))
    if os.environ.get("VP_VERBOSE"):
        print(json.dumps(st["per_sub"], indent=1))
        print(json.dumps(st["tags"], indent=1))
    return 0


def _isolated(sub, case):
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)

    def run():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        try:
            evaluate(sub, case)
            b.send(("ok", None))
        except Violation as e:
            b.send(("viol", str(e)))
        except BaseException:
            b.send(("err", traceback.format_exc()))
        os._exit(0)

    p = ctx.Process(target=run)
    p.start()
    b.close()
    if not a.poll(CASE_TIMEOUT):
        p.kill()
        raise Violation("no result after %d s" % CASE_TIMEOUT)
    try:
        kind, val = a.recv()
    except EOFError:
        p.join()
        raise Violation("the process died (exit %s) on this input" % p.exitcode)
    p.join()
    if kind == "viol":
        raise Violation(val)
    return val if kind == "err" else None


def _read_cur(f):
    try:
        return json.load(open(f))
    except Exception:
        return None


def _tail(f):
    try:
        return open(f).read()[-1500:]
    except Exception:
        return ""


if __name__ == "__main__":
    # the module is imported by property modules as vp.core; make both names the same object
    sys.modules["vp.core"] = sys.modules["__main__"]
    try:
        rc = main(sys.argv[1:])
    except Violation:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
