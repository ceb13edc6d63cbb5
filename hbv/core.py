"""Driver of the checks: seeds, tiers, traces, counters, replay files, evidence."""
import collections
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The monitor saw the code under test break the property."""


class Refused(Exception):
    """The code under test raised an exception where the workload permits it to."""


class Hang(BaseException):
    """A case, which takes far less than a second, has not ended in CASE_SECONDS."""


CASE_SECONDS = 150
MEMORY = 4 << 30
WORKERS = int(os.environ.get("HBV_WORKERS", "6"))


def onalarm(signum, frame):
    raise Hang("did not end within {0} s".format(CASE_SECONDS))


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counters = collections.Counter()
        self.signatures = set()
        self.samples = []
        self.trace = []
        self.quick = tier == "quick"

    # ------------------------------------------------ recording
    def log(self, text, *args):
        self.trace.append(text.format(*args) if args else text)

    def seen(self, name, n=1):
        self.counters[name] += n

    def signature(self, *sig):
        self.signatures.add(sig)

    # ------------------------------------------------ running the code under test
    def do(self, text, fcn, *args, **kwargs):
        """An operation that must succeed."""
        self.log(text)
        try:
            return fcn(*args, **kwargs)
        except Exception as err:
            self.fail("{0} raised {1}: {2}\n{3}".format(text, type(err).__name__, err, traceback.format_exc()))

    def may(self, text, errors, fcn, *args, **kwargs):
        """An operation that may be refused with one of the errors."""
        self.log(text)
        try:
            return fcn(*args, **kwargs)
        except errors as err:
            self.log("  refused: {0}: {1}", type(err).__name__, str(err).replace("\n", " ")[:200])
            raise Refused(err)
        except Exception as err:
            self.fail("{0} raised {1} (only {2} allowed): {3}\n{4}".format(text, type(err).__name__, errors, err, traceback.format_exc()))

    def must_refuse(self, text, errors, fcn, *args, **kwargs):
        self.log(text)
        try:
            out = fcn(*args, **kwargs)
        except errors:
            return
        except Exception as err:
            self.fail("{0} raised {1}, not {2}: {3}\n{4}".format(text, type(err).__name__, errors, err, traceback.format_exc()))
        self.fail("{0} did not raise an error; returned {1!r}".format(text, out))

    def fail(self, message):
        raise Violation(message)

    def check(self, cond, message, *args):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(message.format(*args) if args else message)


# an exception of these kinds while reading a result: the result is not of the shape or type it must have
READING = (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, AssertionError)


def case_rng(pid, seed, index):
    return random.Random("{0}:{1}:{2}".format(pid, seed, index))


def known_findings(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [x for x in json.load(f)["findings"] if x.get("property") == pid and x.get("status") == "known"]


def explore(job, indexes):
    """Run the cases, up to the first one that is not in order."""
    ctx = Ctx(job["pid"], job["tier"], job["seed"])
    out = dict(code=0, index=None, message="", trace=[], evaluated=0, kf=set(), counters=ctx.counters, signatures=ctx.signatures, samples=ctx.samples)
    signal.signal(signal.SIGALRM, onalarm)

    def stop(code, index, message):
        out.update(code=code, index=index, message=message, trace=ctx.trace)
        return out

    for index in indexes:
        if time.time() > job["deadline"]:
            ctx.counters["stopped_by_time_cap"] = 1
            break
        rng = case_rng(job["pid"], job["seed"], index)
        ctx.trace = []
        out["evaluated"] += 1
        try:
            signal.alarm(CASE_SECONDS)
            try:
                job["module"].run_case(ctx, rng, index)
            finally:
                signal.alarm(0)
        except Refused:
            ctx.counters["cases_ended_by_permitted_refusal"] += 1
        except Violation as err:
            message = str(err)
            hit = [k for k in job["known"] if k["match"] in message]
            if hit:
                out["kf"].update(k["what"] for k in hit)
                continue
            return stop(1, index, message)
        except (Exception, Hang) as err:
            frames = traceback.extract_tb(err.__traceback__)
            if any(os.path.realpath(f.filename).startswith(job["src"]) for f in frames):
                return stop(1, index, "the code under test raised {0} where it must not: {1}\n{2}".format(type(err).__name__, err, traceback.format_exc()))
            if isinstance(err, READING):
                return stop(1, index, "what the code under test returned can't be read: {0}: {1}\n{2}".format(type(err).__name__, err, traceback.format_exc()))
            return stop(2, index, traceback.format_exc())
        if len(ctx.samples) < 3 and len(ctx.trace) > 2 and (index % max(1, job["total"] // 3)) < 8:
            ctx.samples.append([x[:300] for x in ctx.trace[:25]])
    return out


def spread(job, total, workers):
    """Share the cases among processes; all end when one has seen something that is not in order."""
    folder = tempfile.mkdtemp(prefix="hbv-")
    sys.stdout.flush()
    sys.stderr.flush()
    children, results, stopped = {}, [], False
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(max(0, job["deadline"] - time.time()) + CASE_SECONDS + 30))
    try:
        for k in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    out = explore(job, range(k, total, workers))
                    with open(os.path.join(folder, str(k)), "wb") as f:
                        pickle.dump(out, f, 2)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            children[pid] = k
        while children:
            pid, status = os.wait()
            if pid not in children:
                continue
            k = children.pop(pid)
            try:
                with open(os.path.join(folder, str(k)), "rb") as f:
                    out = pickle.load(f)
            except Exception:
                if stopped:
                    continue       # ended by us
                out = dict(code=2, index=-1, message="worker {0} ended with status {1}".format(k, status), trace=[], evaluated=0, kf=set(), counters={}, signatures=set(), samples=[])
            results.append(out)
            if out["code"] == 1 and not stopped:
                stopped = True
                for other in children:
                    os.kill(other, signal.SIGKILL)
    except Hang as err:
        results.append(dict(code=1, index=-1, message="a case does not end, nor can it be interrupted", trace=[], evaluated=0, kf=set(), counters={}, signatures=set(), samples=[]))
    finally:
        signal.alarm(0)
        for other in children:
            try:
                os.kill(other, signal.SIGKILL)
            except OSError:
                pass
        for other in children:
            os.waitpid(other, 0)
        shutil.rmtree(folder, ignore_errors=True)
    return results


def main(argv):
    warnings.simplefilter("ignore")
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if len(argv) >= 3 and argv[1] == "--replay":
        with open(argv[2]) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]

    started = time.time()
    evdir = os.path.join(ROOT, "evidence")
    if not os.path.isdir(evdir):
        os.makedirs(evdir)

    def report(index, message, trace):
        fn = os.path.join(evdir, "replay-{0}.json".format(pid))
        with open(fn, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": index, "message": message, "trace": trace}, f, indent=1, default=str)
        print("\n".join("    " + x for x in trace[-60:]))
        print(message)
        print("VIOLATION property={0} replay={1}".format(pid, fn))
        sys.stdout.flush()

    try:
        import numpy
        numpy.seterr(all="ignore")
        import histbook
        import histbook.vega
        src = os.path.realpath(histbook.__file__)
        if not src.startswith("/repo/") and "HBV_ANYREPO" not in os.environ:
            print("histbook was imported from {0}, not from /repo".format(src))
            return 2
    except Exception:
        report(-1, "importing histbook failed\n" + traceback.format_exc(), [])
        return 1

    module = importlib.import_module("hbv.checks." + pid.lower())
    known = known_findings(pid)
    total = module.QUICK if tier == "quick" else module.THOROUGH
    cap = float(os.environ.get("HBV_CAP", "600" if tier == "quick" else "780"))
    cases = total if replay is None or replay["case"] < 0 else [replay["case"]]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    job = dict(module=module, pid=pid, tier=tier, seed=seed, known=known, deadline=started + cap, total=total, src=os.path.dirname(src) + os.sep)
    workers = WORKERS if isinstance(cases, int) else 1
    ctx = Ctx(pid, tier, seed)
    if workers == 1:
        results = [explore(job, range(cases) if isinstance(cases, int) else cases)]
    else:
        results = spread(job, cases, workers)
    evaluated, kf, violations, code = 0, set(), 0, 0
    for r in results:
        evaluated += r["evaluated"]
        kf.update(r["kf"])
        ctx.counters.update(r["counters"])
        ctx.signatures.update(r["signatures"])
        ctx.samples += r["samples"]
    ctx.samples = ctx.samples[:3]
    stopped = [r for r in results if r["code"] != 0]
    if stopped:
        # a violation found by any of the workers counts; the first in the order of the cases is shown
        r = min(stopped, key=lambda r: (r["code"] != 1, r["index"]))
        code = r["code"]
        if code == 1:
            report(r["index"], r["message"], r["trace"])
            violations = 1
        else:
            print("error in the check itself (not a verdict), case {0}".format(r["index"]))
            print("\n".join("    " + x for x in r["trace"][-40:]))
            print(r["message"])

    for what in sorted(kf):
        print("KNOWN-FINDING: property={0} {1}".format(pid, what))

    if code == 0 and replay is None:
        missing = [n for n in module.REQUIRED if ctx.counters[n] == 0]
        if missing:
            message = "in {0} cases the monitors did not observe: {1}".format(evaluated, ", ".join(missing))
            if evaluated == total:
                report(-1, message + " (the behaviour has vanished: refused, or never taken)", [])
                violations += 1
                code = 1
            else:
                print(message)
                code = 2

    if replay is None:
        coverage = {"evaluations": evaluated, "distinct_nontrivial": len(ctx.signatures), "rule": module.RULE,
                    "samples": ctx.samples if ctx.samples else [["(none)"]],
                    "observed": dict((n, int(x)) for n, x in sorted(ctx.counters.items()))}
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                       "assumptions": getattr(module, "ASSUMPTIONS", []), "wall_s": round(time.time() - started, 3), "violations": violations},
                      f, indent=1, default=str)
        print("{0} {1} seed={2}: {3} cases, {4} distinct, {5:.1f} s, exit {6}".format(pid, tier, seed, evaluated, len(ctx.signatures), time.time() - started, code))
        print("  observed: " + ", ".join("{0}={1}".format(n, x) for n, x in sorted(ctx.counters.items())))
    return code


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    from hbv import core       # so that Violation is the same class everywhere
    sys.exit(core.main(sys.argv[1:]))
