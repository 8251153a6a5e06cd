"""Parent side of every check: generate cases, drive worker processes, collect what the monitors observed, give a verdict.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 inconclusive / harness error.
"""
import collections
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, VERIF)


def base_env(scratch, threads=1):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("OMP_", "MKL_", "OPENBLAS_", "PYTHON", "PYSCF", "LD_PRELOAD")):
            del env[k]
    env.update(
        OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS=str(threads), MKL_NUM_THREADS=str(threads),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="%s:%s" % (REPO, VERIF),
        PYTHONWARNINGS="ignore", PYSCF_TMPDIR=scratch, TMPDIR=scratch, VERIF_SCRATCH=scratch,
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", VERIF_REPO=REPO,
    )
    return env


def build_libcore(scratch):
    """Build the C library from the current tree, out of tree (the flags of the project's own build)."""
    src = os.path.join(REPO, "vayesta", "libs")
    cp = os.path.join(scratch, "libsrc")
    shutil.copytree(src, cp, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    b = os.path.join(scratch, "libbuild")
    with open(os.path.join(scratch, "libbuild.log"), "w") as log:
        for cmd in (
            ["cmake", "-S", cp, "-B", b, "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF",
             "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"],
            ["cmake", "--build", b],
        ):
            r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT)
            if r.returncode:
                return None
    found = []
    for top in (b, cp):
        for d, _, fs in os.walk(top):
            found += [os.path.join(d, f) for f in fs if f == "libcore.so"]
    return found[0] if found else None


class Worker:
    def __init__(self, prop, scratch, idx, lib, threads):
        self.dir = os.path.join(scratch, "w%d" % idx)
        os.makedirs(self.dir, exist_ok=True)
        env = base_env(self.dir, threads)
        if lib:
            env["VERIF_LIBCORE"] = lib
        r, w = os.pipe()
        self.err = open(os.path.join(self.dir, "stderr.txt"), "ab")
        self.p = subprocess.Popen(
            [PY, "-u", os.path.join(VERIF, "lib", "worker.py"), prop, str(w)],
            stdin=subprocess.PIPE, stdout=self.err, stderr=self.err, pass_fds=(w,), cwd=self.dir, env=env,
            start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "r")

    def run(self, case, timeout):
        """-> ('ok', result) | ('timeout', None) | ('died', msg)"""
        box = queue.Queue()

        def rd():
            try:
                box.put(self.r.readline())
            except Exception:
                box.put("")

        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            return "died", self.tail()
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        try:
            line = box.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            return "timeout", None
        if not line.strip():
            self.p.wait()
            return "died", "exit status %s\n%s" % (self.p.returncode, self.tail())
        return "ok", json.loads(line)

    def tail(self):
        try:
            with open(os.path.join(self.dir, "stderr.txt"), "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            pass
        self.kill()
        self.err.close()


def load_findings():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get("known", [])


def match_finding(findings, prop, vio, case):
    import re

    for f in findings:
        if f["property"] != prop or not re.fullmatch(f["monitor"], vio["name"]):
            continue
        if all(case.get(k) == v for k, v in f.get("case", {}).items()):
            return f
    return None


def main(argv):
    import argparse
    import random

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only cases whose kind contains this")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    mod = importlib.import_module("props." + a.prop.lower())
    rng = random.Random("%s/%d/%s" % (a.prop, a.seed, a.tier))
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = mod.cases(rng, a.tier)
        if a.only:
            cases = [c for c in cases if a.only in c["kind"]]
    for i, c in enumerate(cases):
        c.setdefault("id", i)
        c.setdefault("seed", rng.randrange(1 << 30))
    budget = getattr(mod, "BUDGET", {}).get(a.tier, 300 if a.tier == "quick" else 3000)
    case_to = getattr(mod, "CASE_TIMEOUT", 240)
    scratch = tempfile.mkdtemp(prefix="vpchk-%s-" % a.prop)
    try:
        return drive(a, mod, cases, budget, case_to, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(a, mod, cases, budget, case_to, scratch, t0):
    lib = build_libcore(scratch)
    if lib is None:
        print("harness: the C library did not build; see below")
        try:
            print(open(os.path.join(scratch, "libbuild.log")).read()[-2000:])
        except OSError:
            pass
        return 2
    if hasattr(mod, "setup"):
        mod.setup(scratch, REPO)
    threads = getattr(mod, "THREADS", 1)
    njobs = a.jobs or getattr(mod, "JOBS", 8)
    q = queue.Queue()
    for c in sorted(cases, key=lambda c: -c.get("w", 1)):
        q.put(c)
    results, lock = [], threading.Lock()

    def loop(idx):
        w = None
        n = 0
        while True:
            try:
                c = q.get_nowait()
            except queue.Empty:
                break
            if time.time() - t0 > budget:
                with lock:
                    results.append((c, "skipped", None, 0.0))
                continue
            if w is None:
                w = Worker(a.prop, scratch, idx * 1000 + n, lib, threads)
                n += 1
            tc = time.time()
            st, res = w.run(c, c.get("timeout", case_to))
            if st != "ok":
                w.close()
                w = None
            with lock:
                results.append((c, st, res, time.time() - tc))
                if a.verbose:
                    print("  [%6.1fs] %-8s %5.1fs %s" % (time.time() - t0, st, time.time() - tc, json.dumps(c)[:180]),
                          flush=True)
        if w is not None:
            w.close()

    ths = [threading.Thread(target=loop, args=(i,)) for i in range(min(njobs, max(1, len(cases))))]
    [t.start() for t in ths]
    [t.join() for t in ths]

    events, distinct, kinds = collections.Counter(), set(), collections.Counter()
    margins = {}
    violations, harness, incon, unsupported = [], [], [], []
    n_done = n_skip = n_checks = 0
    samples = []
    for c, st, res, dt in sorted(results, key=lambda r: r[0]["id"]):
        if st == "skipped":
            n_skip += 1
            continue
        if st == "timeout":
            incon.append((c, "timeout"))
            continue
        if st == "died":
            violations.append((c, dict(name="process-death", detail=(res or "")[-1500:])))
            continue
        kinds[c["kind"]] += 1
        if res.get("harness_error"):
            harness.append((c, res["harness_error"]))
            continue
        if res.get("unsupported"):
            unsupported.append((c, res["unsupported"]))
            continue
        n_done += 1
        n_checks += res["nchecks"]
        events.update(res["events"])
        for d in res["distinct"]:
            distinct.add(d)
        for k, v in res["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v)
        for v in res["violations"]:
            violations.append((c, v))
        if res["nchecks"] and len(samples) < 6 and all(s["case"]["kind"] != c["kind"] for s in samples):
            samples.append(dict(case=c, observed=dict(list(res["events"].items())[:12]), checks=res["nchecks"],
                                notes=res.get("notes", [])[:4]))

    findings = load_findings()
    known, new = {}, []
    for c, v in violations:
        f = match_finding(findings, a.prop, v, c)
        if f is not None:
            known[f["key"]] = f
        else:
            new.append((c, v))

    need = getattr(mod, "NEED", {})
    missing = [] if (a.replay or a.only) else [k for k, n in need.items() if events.get(k, 0) < n]
    wall = time.time() - t0
    ev = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=n_done, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples,
            oracle_evaluations=n_checks, events=dict(sorted(events.items())), cases_by_kind=dict(kinds),
            largest_error_over_tolerance={k: float("%.3g" % v) for k, v in sorted(margins.items())},
            not_run_for_time=n_skip, timeouts=len(incon), not_supported_by_code=len(unsupported),
            unsupported=[dict(case=c, why=w[-300:]) for c, w in unsupported[:5]],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new),
    )
    if not a.only and not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d executions (%d distinct non-trivial), %d oracle evaluations, %d events, %.1f s"
          % (a.prop, a.tier, a.seed, n_done, len(distinct), n_checks, sum(events.values()), wall))
    if n_skip or incon or unsupported:
        print("  not run for time: %d, timeouts: %d, unsupported: %d" % (n_skip, len(incon), len(unsupported)))
    if a.verbose:
        print(json.dumps(ev["coverage"]["events"], indent=1))
        print(json.dumps(ev["coverage"]["largest_error_over_tolerance"], indent=1))
        for c, why in unsupported[:5]:
            print("unsupported", json.dumps(c), why[-600:])
    if harness and (new or a.verbose):
        print("  also %d harness errors, e.g. %s" % (len(harness), harness[0][1][-1500:]))
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["text"]))
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = collections.Counter()
        paths = []
        for c, v in new:
            seen[v["name"]] += 1
            if seen[v["name"]] > 3:
                continue
            p = os.path.join(rd, "%s-%s-%d.json" % (a.prop, a.tier, len(paths)))
            with open(p, "w") as f:
                json.dump(dict(property=a.prop, case=c, violation=v,
                               replay_cmd="%s check.py %s --replay %s" % (PY, a.prop, p)), f, indent=1)
            paths.append(p)
            print("  monitor %s on %s:\n    %s" % (v["name"], json.dumps(c)[:300], str(v["detail"])[-1200:]))
            if len(paths) >= 12:
                break
        print("  violations by monitor: %s" % dict(seen))
        print("VIOLATION property=%s replay=%s" % (a.prop, paths[0]))
        return 1
    if harness:
        for c, h in harness[:3]:
            print("harness error on %s\n%s" % (json.dumps(c)[:300], h[-2500:]))
        print("INCONCLUSIVE: %d harness errors" % len(harness))
        return 2
    if missing or n_done == 0 or len(incon) > max(2, 0.1 * len(cases)):
        print("INCONCLUSIVE: monitors not reached: %s; executions %d; timeouts %d" % (missing, n_done, len(incon)))
        return 2
    return 0
