"""The runner: seeds, worker processes, one forked child per simulated run,
minimisation, replay files, known findings and evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
SCRATCH = os.environ.get("VSIM_SCRATCH", "/tmp")
real_time = time.time
real_mono = time.monotonic

CPU_LIMIT = 20.0        # seconds of CPU time for one simulated run
WALL_LIMIT = 120.0      # a run that takes longer is killed and reported as an error


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ running

class Ctx:
    """What a run may use: a private root directory, a place to put violations
    and counters."""

    def __init__(self, root, oracle=False):
        self.root = root
        self.violations = []
        self.stats = {}
        self.samples = []
        self.log = []
        self.nontrivial = False
        self.inconclusive = None
        self.simtime = 0.0
        self.sig = None
        self.oracle = oracle

    def violation(self, cls, msg):
        self.violations.append({"cls": cls, "msg": self.norm(str(msg))[:4000]})

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def norm(self, s):
        return s.replace(self.root, "<R>")

    def result(self):
        return {"v": self.violations, "stats": self.stats, "nontrivial": self.nontrivial,
                "simtime": self.simtime, "sig": self.sig, "inc": self.inconclusive,
                "log": hashlib.sha1(self.norm(json.dumps(self.log, sort_keys=True, default=str)).encode("utf-8", "surrogatepass")).hexdigest()}


def _read_all(fd, deadline):
    out = []
    while True:
        left = deadline - real_mono()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(out)
        out.append(b)


def fork_call(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT, quiet=True):
    """Call fn() in a forked child; its JSON-able result comes back.
    Returns ("ok", value) | ("hang", None) | ("error", text)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            if quiet:
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                if null > 2:
                    os.close(null)

            def hang(_sig, _frame):
                os.write(wfd, b'["hang",null]')
                os._exit(0)
            signal.signal(signal.SIGPROF, hang)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu) + 10, int(cpu) + 20))
            try:
                out = json.dumps(["ok", fn()])
            except BaseException:
                out = json.dumps(["error", traceback.format_exc()])
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = out.encode("utf-8", "surrogatepass")
            while data:
                n = os_write(wfd, data)
                data = data[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wfd)
    data = _read_all(rfd, real_mono() + wall)
    os.close(rfd)
    if data is None:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if data is None:
        return ("error", "killed after %d s of wall time" % wall)
    if not data:
        if os.WIFSIGNALED(status):
            return ("error", "child ended by signal %d" % os.WTERMSIG(status))
        return ("error", "child ended without a result, status %d" % status)
    res = json.loads(data.decode("utf-8", "surrogatepass"))
    return (res[0], res[1])


os_write = os.write


def oracle(fn, cpu=CPU_LIMIT):
    """Like fork_call, for reference computations; errors are harness errors."""
    st, val = fork_call(fn, cpu)
    if st != "ok":
        raise HarnessError("oracle: %s %s" % (st, val))
    return val


def fresh_root(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)


def run_once(prop, scenario, root, cpu=CPU_LIMIT):
    """One simulated run in a forked child.  Returns the result dict."""
    fresh_root(root)

    def body():
        ctx = Ctx(root)
        prop.execute(scenario, ctx)
        return ctx.result()
    st, val = fork_call(body, cpu)
    shutil.rmtree(root, ignore_errors=True)
    if st == "ok":
        return val
    if st == "hang":
        return {"v": [{"cls": "hang", "msg": "the run did not end within %g s of CPU time" % cpu}],
                "stats": {}, "nontrivial": True, "simtime": 0, "sig": None, "log": "", "inc": None}
    return {"error": val, "v": [], "stats": {}, "nontrivial": False, "simtime": 0, "sig": None, "log": "", "inc": None}


def scenario_for(prop, seed, index, tier):
    rng = random.Random("%s/%d/%d" % (prop.ID, seed, index))
    return prop.generate(rng, index, tier)


def canonical(sc):
    return json.dumps(sc, sort_keys=True)


def worker(prop, seed, tier, start, step, total, deadline, wfd, root):
    out = os.fdopen(wfd, "w")
    i = start
    while i < total and real_mono() < deadline:
        try:
            sc = json.loads(canonical(scenario_for(prop, seed, i, tier)))
            res = run_once(prop, sc, root)
            if not res["v"]:
                sc_out = None
            else:
                sc_out = sc
            sig = res.get("sig") or hashlib.sha1(canonical(sc).encode()).hexdigest()
            msg = {"i": i, "res": res, "sc": sc_out, "sig": sig}
        except BaseException:
            msg = {"i": i, "res": {"error": traceback.format_exc(), "v": [], "stats": {}, "nontrivial": False,
                                   "simtime": 0, "log": "", "inc": None}, "sc": None, "sig": None}
        try:
            out.write(json.dumps(msg) + "\n")
            out.flush()
        except BrokenPipeError:         # the sweep has been stopped
            os._exit(0)
        i += step
    out.close()


def sweep(prop, seed, tier, total, wall, nworkers, stop_on_violation=True, progress=None):
    deadline = real_mono() + wall
    pipes = {}
    pids = []
    for w in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                for other in pipes:
                    os.close(other)
                os.close(rfd)
                worker(prop, seed, tier, w, nworkers, total, deadline, wfd,
                       os.path.join(SCRATCH, "w%02d" % w))
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(wfd)
        pipes[rfd] = b""
        pids.append(pid)
    results = []
    stop = False
    while pipes and not stop:
        r, _, _ = select.select(list(pipes), [], [], 1.0)
        for fd in r:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del pipes[fd]
                continue
            pipes[fd] += b
            *lines, pipes[fd] = pipes[fd].split(b"\n")
            for l in lines:
                m = json.loads(l)
                results.append(m)
                if m["res"]["v"] and stop_on_violation and not all_known(prop, m["res"]["v"]):
                    stop = True
        if real_mono() > deadline + WALL_LIMIT + 60:
            break
    for fd in pipes:
        os.close(fd)
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    results.sort(key=lambda m: m["i"])
    return results


# ------------------------------------------------------------------ known findings

def load_known():
    """known_findings.txt: lines 'known: property=<id> match=<text>|<what fails>'
    suppress exactly the violations whose class and message contain the text;
    'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property="):
                    rest = line[len("known: property="):]
                    pid, rest = rest.split(" ", 1)
                    match, what = rest.split("|", 1)
                    out.append((pid, match.replace("match=", "", 1), what))
    return out


KNOWN = None


def known_for(prop, v):
    global KNOWN
    if KNOWN is None:
        KNOWN = load_known()
    for pid, match, what in KNOWN:
        if pid == prop.ID and match in (v["cls"] + ": " + v["msg"]):
            return what
    return None


def all_known(prop, vs):
    return all(known_for(prop, v) for v in vs)


# ------------------------------------------------------------------ minimisation

LEAF = ("cmd", "inc", "app", "txt", "raw", "plat", "l", "sec", "n", "bad")


def paths_of_lists(node, path=()):
    """All lists in a scenario that may be shortened, largest first."""
    out = []
    if isinstance(node, dict):
        for k in sorted(node):
            out += paths_of_lists(node[k], path + (k,))
    elif isinstance(node, list) and node and isinstance(node[0], str) and node[0] in LEAF:
        if node[0] == "sec":
            out += paths_of_lists(node[3], path + (3,))
    elif isinstance(node, list):
        out.append(path)
        for i, x in enumerate(node):
            out += paths_of_lists(x, path + (i,))
    return out


def get(node, path):
    for p in path:
        node = node[p]
    return node


def removed(sc, path, lo, hi):
    c = json.loads(canonical(sc))
    lst = get(c, path)
    del lst[lo:hi]
    return c


def minimise(prop, sc, classes, root, budget_s=60, budget_n=400):
    """Greedy removal of list items (operations, lines, files, faults,
    preemptions) and of the simplifications a property offers, as long as a
    violation of the same class remains."""
    end = real_mono() + budget_s
    n = [0]

    def still(c):
        if n[0] >= budget_n or real_mono() > end:
            return False
        n[0] += 1
        try:
            if hasattr(prop, "valid") and not prop.valid(c):
                return False
            r = run_once(prop, c, root)
        except Exception:
            return False
        return any(v["cls"] in classes for v in r["v"])

    keys = getattr(prop, "SHRINK", None)

    def shrinkable(path):
        return keys is None or any(p in keys for p in path if isinstance(p, str)) and \
            [p for p in path if isinstance(p, str)][-1] in keys

    changed = True
    while changed and n[0] < budget_n and real_mono() < end:
        changed = False
        if hasattr(prop, "simplify"):
            for c in prop.simplify(sc):
                c = json.loads(canonical(c))
                if canonical(c) != canonical(sc) and still(c):
                    sc = c
                    changed = True
                    break
        pi = 0
        while True:
            paths = [p for p in paths_of_lists(sc) if shrinkable(p)]
            if pi >= len(paths):
                break
            path = paths[pi]
            pi += 1
            try:
                ln = len(get(sc, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, ln // 2)
            while size >= 1 and ln:
                lo = 0
                while lo < ln:
                    if n[0] >= budget_n or real_mono() > end:
                        break
                    c = removed(sc, path, lo, lo + size)
                    if still(c):
                        sc = c
                        ln = len(get(sc, path))
                        changed = True
                    else:
                        lo += size
                if n[0] >= budget_n or real_mono() > end:
                    break
                size //= 2
    return sc, n[0]


# ------------------------------------------------------------------ main

def preload():
    """Import everything once, so that forked runs share pristine modules."""
    import warnings
    warnings.simplefilter("ignore")
    import threading
    from vsim import sched
    sched.install_locks()
    import six.moves
    six.moves.input
    import pykickstart.parser
    import pykickstart.load
    import pykickstart.version
    if os.path.realpath(os.path.dirname(pykickstart.__file__)) != os.path.realpath(os.path.join(REPO, "pykickstart")):
        raise HarnessError("pykickstart was imported from %s" % pykickstart.__file__)
    import pykickstart.handlers.control
    hdir = os.path.join(os.path.dirname(pykickstart.version.__file__), "handlers/")
    sys.path.append(hdir)
    for name in sorted(os.listdir(hdir)):
        if name.endswith(".py") and name not in ("__init__.py", "control.py"):
            importlib.import_module(name[:-3])
    sys.path.remove(hdir)
    import encodings.idna, encodings.utf_8, encodings.ascii, encodings.latin_1   # noqa
    import shutil, tempfile, http.client, ssl, requests, urllib3, readline, runpy  # noqa
    gc.collect()
    gc.freeze()


def evidence(prop, tier, seed, results, wall, violations, extra):
    stats = {}
    sigs = set()
    nontriv = set()
    simtime = 0.0
    inconclusive = 0
    for m in results:
        r = m["res"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        sigs.add(m["sig"])
        if r["nontrivial"]:
            nontriv.add(m["sig"])
        if r.get("inc"):
            inconclusive += 1
        simtime += r["simtime"]
    runs = len(results)
    samples = extra.pop("samples", [])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontriv),
        "rule": prop.RULE,
        "samples": samples,
        "simulated_runs_per_hour": int(runs * 3600 / wall) if wall > 0 else 0,
        "seeds_per_hour": int(runs * 3600 / wall) if wall > 0 else 0,
        "simulated_seconds_covered": round(simtime, 3),
        "faults_fired": faults,
        "probes": probes,
        "distinct_states": len(sigs),
        "distinct_states_measure": getattr(prop, "MEASURE", "distinct executed event logs"),
        "inconclusive_runs": inconclusive,
        "components_real": getattr(prop, "REAL", []),
        "components_stubbed": getattr(prop, "STUB", []),
        "first_run_index": 0,
    }
    cov.update(extra)
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(prop, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", prop.ID + ".json"))


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float, default=float(os.environ.get("VSIM_WALL", "0") or 0))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VSIM_WORKERS", "0") or 0))
    ap.add_argument("--one", type=int, help="run one index and print its result")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; list classes")
    ap.add_argument("--digests", help="write the event-log digest of every run to this file")
    args = ap.parse_args(argv)
    t0 = real_mono()
    preload()
    prop = importlib.import_module("vsim.props." + args.id.lower())
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    nworkers = args.workers or min(8, os.cpu_count() or 1)
    root = os.path.join(SCRATCH, "w99")

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        res = run_once(prop, rep["scenario"], root)
        print(json.dumps(res, indent=1))
        if res.get("error"):
            return 2
        if any(v["cls"] in rep["classes"] for v in res["v"]):
            print("VIOLATION property=%s replay=%s" % (prop.ID, args.replay))
            return 1
        return 0

    if args.one is not None:
        sc = json.loads(canonical(scenario_for(prop, args.seed, args.one, tier)))
        print(json.dumps(sc, indent=1)[:20000])
        res = run_once(prop, sc, root)
        print(json.dumps(res, indent=1))
        if res.get("error"):
            print(res["error"])
        return 0

    total = args.runs or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    wall = args.wall or (getattr(prop, "QUICK_WALL", 60) if tier == "quick" else getattr(prop, "THOROUGH_WALL", 1500))
    results = sweep(prop, args.seed, tier, total, wall, nworkers, stop_on_violation=not args.all)

    if args.digests:
        with open(args.digests, "w") as f:
            for m in results:
                f.write("%d %s %s\n" % (m["i"], m["res"]["log"], json.dumps(m["res"]["v"])))
    if args.all:
        cls = {}
        for m in results:
            if m["res"].get("error"):
                cls.setdefault("ERROR", []).append((m["i"], m["res"]["error"]))
            for v in m["res"]["v"]:
                cls.setdefault(v["cls"], []).append((m["i"], v["msg"]))
        for c, l in sorted(cls.items(), key=lambda x: -len(x[1])):
            print("== %s: %d, e.g. run %d: %s" % (c, len(l), l[0][0], l[0][1][:3000]))
            print("   runs:", [x[0] for x in l[:20]])
    errors = [m for m in results if m["res"].get("error")]
    bad = [m for m in results if m["res"]["v"]]
    known_seen = {}
    fresh = []
    for m in bad:
        new = [v for v in m["res"]["v"] if not known_for(prop, v)]
        for v in m["res"]["v"]:
            k = known_for(prop, v)
            if k:
                known_seen.setdefault(k, m["i"])
        if new:
            fresh.append((m, new))
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, k))

    status = 0
    for m, new in fresh:
        classes = sorted({v["cls"] for v in new})
        # confirm, twice, in new processes
        again = [run_once(prop, m["sc"], root, cpu=CPU_LIMIT * 2) for _ in range(2)]
        if not all(any(v["cls"] in classes for v in r["v"]) for r in again):
            errors.append({"i": m["i"], "res": {"error": "run %d: violation %s did not repeat" % (m["i"], classes)}})
            continue
        cls = [c for c in classes if all(any(v["cls"] == c for v in r["v"]) for r in again)] or classes
        small, tried = minimise(prop, m["sc"], set(cls[:1]), root)
        final = run_once(prop, small, root, cpu=CPU_LIMIT * 2)
        if not any(v["cls"] in cls for v in final["v"]):
            small, final = m["sc"], again[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop.ID, args.seed, m["i"]))
        with open(path, "w") as f:
            json.dump({"property": prop.ID, "seed": args.seed, "run": m["i"], "tier": tier,
                       "classes": cls, "violations": final["v"], "scenario": small,
                       "minimised_in_runs": tried}, f, indent=1)
            f.write("\n")
        for v in final["v"]:
            print("  %s: %s" % (v["cls"], v["msg"]))
        print("seed=%d run=%d minimised with %d runs; replay with: check.py %s --replay %s"
              % (args.seed, m["i"], tried, prop.ID, path))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        status = 1
        break

    if not args.all or status == 0:
        wall_s = real_mono() - t0
        samples = []
        for i in (0, 1):
            if i < total:
                s = json.dumps(scenario_for(prop, args.seed, i, tier))
                samples.append(s if len(s) < 3000 else s[:3000] + "...")
        evidence(prop, tier, args.seed, results, wall_s, status,
                 {"samples": samples, "harness_errors": len(errors), "planned_runs": total,
                  "workers": nworkers})
    if status:
        return 1
    if errors:
        print("%d of %d runs ended in an error of the harness" % (len(errors), len(results)), file=sys.stderr)
        print(errors[0]["res"]["error"], file=sys.stderr)
        return 2
    if not results:
        print("no run was made", file=sys.stderr)
        return 2
    print("%s: %d runs, property held (%.1f s)" % (prop.ID, len(results), real_mono() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
