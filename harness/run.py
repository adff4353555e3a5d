"""Driver (python3-vt, Hypothesis).

  run.py PROP [--tier quick|thorough] [--only CHECK] [--mult X] [--jobs N]
  run.py --replay FILE
  run.py --list

Generates cases with Hypothesis, has them evaluated by worker.py (PyPy, the
project's interpreter) and shrinks failures.  Exit 0: the property held on
everything explored.  Exit 1 + "VIOLATION property=.. replay=..": it does not.
Exit 2: the harness itself failed.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

PYPY = "/opt/venv/bin/python"
THOROUGH = 25.0
SHRINK_LIMIT = 400
SHRINK_SECONDS = 60
JOBS = 8


# ------------------------------------------------------------------ workers
class HarnessError(Exception):
    pass


class WorkerDied(HarnessError):
    pass


class Worker(object):
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPYCACHEPREFIX="/nonexistent/pg-pycache",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONUNBUFFERED="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, cwd="/", text=True)
        first = self._read()
        if first.get("status") != "ready":
            raise HarnessError("worker did not start: %s" % first.get("msg"))
        self.info = first

    def _read(self):
        ln = self.p.stdout.readline()
        if not ln:
            raise WorkerDied("worker died (exit %s)" % self.p.poll())
        return json.loads(ln)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except OSError:
            raise WorkerDied("worker died (exit %s)" % self.p.poll())
        return self._read()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


class StopSearch(BaseException):
    pass


def jdump(c):
    return json.dumps(c, sort_keys=True)


def hash64(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


# -------------------------------------------------------------- one search
class Search(object):
    def __init__(self, chk, worker, history):
        self.chk, self.w, self.history = chk, worker, history
        self.zyg = None
        self.shrinking = False
        self.best = None
        self.tries = 0
        self.n = self.skips = self.triv = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.hist_violation = None

    def pristine(self, name, case):
        if self.zyg is None:
            self.zyg = Worker()
        return self.zyg.ask({"prop": self.chk.prop, "check": name, "case": case, "isolate": True})

    def pristine_seq(self, seq):
        if self.zyg is None:
            self.zyg = Worker()
        return self.zyg.ask({"prop": self.chk.prop, "sequence": seq, "isolate": True})

    def one(self, case):
        """-> None, or a failure message"""
        if self.shrinking:
            self.tries += 1
            if self.tries > SHRINK_LIMIT or time.time() > self.stop_at:
                raise StopSearch()
            r = self.pristine(self.chk.name, case)
            if r["status"] == "harness":
                raise HarnessError(r["msg"])
            if r["status"] == "fail":
                self.note(case, r["msg"])
                return r["msg"]
            return None
        self.n += 1
        self.history.append([self.chk.name, case])
        try:
            r = self.w.ask({"prop": self.chk.prop, "check": self.chk.name, "case": case})
        except WorkerDied:
            p = self.pristine(self.chk.name, case)
            if p["status"] != "fail":
                raise
            self.note(case, p["msg"])
            raise StopSearch()
        st = r["status"]
        if st == "harness":
            raise HarnessError("%s/%s on %s: %s" % (self.chk.prop, self.chk.name, jdump(case), r["msg"]))
        for l in r["labels"]:
            self.labels[l] = self.labels.get(l, 0) + 1
        if st == "skip":
            self.skips += 1
            self.labels["skipped: " + r["msg"]] = self.labels.get("skipped: " + r["msg"], 0) + 1
            return None
        if not r["trivial"]:
            key = hash64(self.chk.name + jdump(case))
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 3 or (len(self.samples) < 6 and self.n % 97 == 0):
                    self.samples.append({"check": self.chk.name, "case": case, "labels": r["labels"]})
        else:
            self.triv += 1
        if st == "fail":
            p = self.pristine(self.chk.name, case)
            if p["status"] == "harness":
                raise HarnessError(p["msg"])
            if p["status"] == "fail":
                self.shrinking = True
                self.stop_at = time.time() + SHRINK_SECONDS
                self.note(case, p["msg"])
                return p["msg"]
            self.hist_violation = (case, r["msg"])
            raise StopSearch()
        return None

    def note(self, case, msg):
        key = (len(jdump(case)), jdump(case))
        if self.best is None or key < self.best[0]:
            self.best = (key, case, msg)

    def violation(self):
        if self.best is not None:
            return {"check": self.chk.name, "case": self.best[1], "msg": self.best[2]}
        if self.hist_violation is not None:
            case, msg = self.hist_violation
            seq = self.shrink_history(list(self.history))
            return {"check": self.chk.name, "case": case, "history": seq,
                    "msg": "depends on earlier calls in the same process: " + msg}
        return None

    def shrink_history(self, seq):
        def bad(s):
            return self.pristine_seq(s)["status"] == "fail"
        if not bad(seq):
            return seq            # keep everything: not reproducible from the log alone
        last, pre = seq[-1], seq[:-1]
        budget, n, end = 250, 2, time.time() + 2 * SHRINK_SECONDS
        while pre and budget > 0 and time.time() < end:
            size = max(1, len(pre) // n)
            done = True
            i = 0
            while i < len(pre) and budget > 0 and time.time() < end:
                budget -= 1
                cand = pre[:i] + pre[i + size:]
                if bad(cand + [last]):
                    pre, done = cand, False
                else:
                    i += size
            if done:
                if size == 1:
                    break
                n *= 2
            else:
                n = max(2, n - 1)
        return pre + [last]

    def close(self):
        if self.zyg is not None:
            self.zyg.close()


MUTATE = 0.15        # share of the generated cases that Hypothesis may mutate


def fewer_mutants():
    """Hypothesis follows most generated cases by up to five mutants, which copy
    one part of the case over another; a mutant whose choices no longer line up
    gets the first alternative for everything drawn later (measured: the first
    of six forms drawn four times too often).  Let it do so for a small share
    of the cases only: duplication still happens, the rest are fresh draws."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner as R
    if getattr(R, "_pg_patched", False) or not hasattr(R, "generate_mutations_from"):
        return
    old = R.generate_mutations_from

    def generate_mutations_from(self, data):
        if self.random.random() < MUTATE:
            old(self, data)
    R.generate_mutations_from = generate_mutations_from
    R._pg_patched = True


def run_search(chk, worker, history, n, seed):
    import hypothesis
    fewer_mutants()
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    import gen
    s = Search(chk, worker, history)
    strat = chk.strat(gen)

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example],
              print_blob=False, verbosity=Verbosity.quiet)
    @given(strat)
    def t(case):
        msg = s.one(case)
        if msg is not None:
            raise AssertionError(chk.name)

    try:
        t()
    except StopSearch:
        pass
    except HarnessError:
        s.close()
        raise
    except AssertionError:
        if s.best is None:
            s.close()
            raise HarnessError(traceback.format_exc())
    except Exception:
        if s.best is None:
            s.close()
            raise HarnessError(traceback.format_exc())
    v = s.violation()
    s.close()
    return s, v


def bucket(args):
    """One process: a list of (prop, check, n, seed) run against one worker."""
    tasks, corpus = args
    import h
    import props
    props.load()
    out, history = [], []
    w = None
    try:
        w = Worker()
        info = w.info
        for prop, name, case in corpus:
            if name not in h.REGISTRY[prop]:
                raise HarnessError("corpus names unknown check %s" % name)
            r = w.ask({"prop": prop, "check": name, "case": case, "isolate": True})
            if r["status"] == "harness":
                raise HarnessError("corpus %s: %s" % (jdump(case), r["msg"]))
            v = None
            if r["status"] == "fail":
                v = {"check": name, "case": case, "msg": r["msg"]}
            nt = [] if r.get("trivial") else [hash64(name + jdump(case))]
            out.append(dict(check=name, n=1, skips=int(r["status"] == "skip"), nontrivial=nt,
                            labels={"replayed corpus case": 1}, samples=[], violation=v))
        for prop, name, n, seed in tasks:
            s, v = run_search(h.REGISTRY[prop][name], w, history, n, seed)
            out.append(dict(check=name, n=s.n, skips=s.skips, nontrivial=list(s.nontrivial),
                            labels=s.labels, samples=s.samples, violation=v))
            if v is not None:
                w.close()
                w = Worker()
                history = []
        return {"results": out, "info": info}
    except BaseException:
        return {"error": traceback.format_exc()}
    finally:
        if w is not None:
            w.close()


# --------------------------------------------------------------------- main
def load_corpus(prop):
    path = os.path.join(VERIF, "corpus", prop + ".jsonl")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                out.append((prop, d["check"], d["case"]))
    return out


def load_findings(prop):
    """open findings: lines 'finding: property=ID check=NAME case=JSON # text'"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith("finding: property=%s " % prop):
                rest = ln.split("check=", 1)[1]
                name, rest = rest.split(" case=", 1)
                case, text = rest.split(" # ", 1)
                out.append((name, json.loads(case), text.strip()))
    return out


def replay_file(path):
    d = json.load(open(path))
    w = Worker()
    try:
        if d.get("history"):
            r = w.ask({"prop": d["property"], "sequence": d["history"]})
        else:
            r = w.ask({"prop": d["property"], "check": d["check"], "case": d["case"]})
    finally:
        w.close()
    print("%s/%s: %s %s" % (d["property"], d["check"], r["status"], r["msg"]))
    if r["status"] == "fail":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0 if r["status"] in ("ok", "skip") else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--mult", type=float)
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--labels", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    import h
    import props
    props.load()
    if a.list:
        for p in sorted(h.REGISTRY):
            for c in h.REGISTRY[p].values():
                print(p, c.name, c.n)
        return 0
    prop = a.prop
    if prop not in h.REGISTRY:
        print("unknown property %s" % prop)
        return 2
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    mult = a.mult if a.mult is not None else (THOROUGH if tier == "thorough" else 1.0)
    t0 = time.time()
    checks = [c for c in h.REGISTRY[prop].values() if not a.only or c.name in a.only.split(",")]
    total = sum(max(1, int(c.n * mult)) for c in checks)
    jobs = max(1, a.jobs)
    per = max(1, -(-total // jobs))
    # shards: a check is cut so that every bucket gets about the same number
    buckets = [[] for _ in range(jobs)]
    fill = [0] * jobs
    for c in checks:
        left, shard = max(1, int(c.n * mult)), 0
        while left > 0:
            n = min(left, max(50, per // 2))
            if left - n < 50:
                n = left
            j = fill.index(min(fill))
            s = zlib.crc32(("%s/%s/%d/%d" % (prop, c.name, shard, seed)).encode())
            buckets[j].append((prop, c.name, n, s))
            fill[j] += n
            left -= n
            shard += 1
    corpus = load_corpus(prop) if not a.only else []
    work = [(b, corpus if i == 0 else []) for i, b in enumerate(buckets) if b or (i == 0 and corpus)]
    findings = load_findings(prop)
    with mp.get_context("spawn").Pool(len(work)) as pool:
        res = pool.map(bucket, work, chunksize=1)
    errors = [r["error"] for r in res if "error" in r]
    results = [x for r in res if "results" in r for x in r["results"]]
    violations = [x["violation"] for x in results if x["violation"]]
    nontrivial = set()
    labels, evals, skips, samples, percheck = {}, 0, 0, [], {}
    for x in results:
        evals += x["n"]
        skips += x["skips"]
        nontrivial.update(x["nontrivial"])
        pc = percheck.setdefault(x["check"], {"evaluations": 0, "nontrivial": 0, "skipped": 0, "labels": {}})
        pc["evaluations"] += x["n"]
        pc["nontrivial"] += len(x["nontrivial"])
        pc["skipped"] += x["skips"]
        for l, k in x["labels"].items():
            pc["labels"][l] = pc["labels"].get(l, 0) + k
        have = [s["check"] for s in samples]
        samples += [s for s in x["samples"] if have.count(s["check"]) < 2][:2]
    if a.labels:
        for c, pc in percheck.items():
            print(c, pc["evaluations"], "nontrivial", pc["nontrivial"], "skipped", pc["skipped"])
            for l, k in sorted(pc["labels"].items(), key=lambda t: -t[1]):
                print("     %6d %s" % (k, l))
    # known findings (open ones): replay each on this tree
    known = []
    open_findings = []
    if findings and not errors:
        w = Worker()
        for name, case, text in findings:
            r = w.ask({"prop": prop, "check": name, "case": case, "isolate": True})
            if r["status"] == "harness":
                errors.append(r["msg"])
            if r["status"] == "fail":
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
                known.append(text)
            open_findings.append({"check": name, "case": case, "status": r["status"]})
        w.close()
    keys = {(n, jdump(c)) for n, c, _ in findings}
    violations = [v for v in violations if (v["check"], jdump(v["case"])) not in keys]
    wall = time.time() - t0
    rc = 0
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            if v["check"] in seen:
                continue
            seen.add(v["check"])
            body = dict(property=prop, **v)
            path = os.path.join(VERIF, "replays", "%s-%s-%08x.json" % (
                prop, v["check"], zlib.crc32(jdump(v["case"]).encode())))
            with open(path, "w") as f:
                json.dump(body, f, indent=1, sort_keys=True)
            print("  %s: %s\n    case %s" % (v["check"], v["msg"], jdump(v["case"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        rc = 2
    for e in errors:
        print("HARNESS ERROR\n" + e)
    if not a.no_evidence and not a.only:
        rule = ("Cases are drawn by Hypothesis from the strategies in harness/props (per check below), evaluated on "
                "/repo's working tree under PyPy 3.9; a case is non-trivial when the oracle's domain test accepts it "
                "and the oracle did not mark it degenerate; distinct = distinct generated data. ")
        rule += " | ".join("%s: %s" % (c.name, " ".join(c.rule.split())) for c in checks)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(nontrivial), "rule": rule,
                "samples": samples[:40], "skipped_outside_domain": skips,
                "checks": percheck, "exhaustive": False,
                "known_findings": open_findings,
                "interpreter": [r["info"].get("pypy") for r in res if "info" in r][:1],
                "numpy": [r["info"].get("numpy") for r in res if "info" in r][:1],
            },
            "assumptions": ["inputs of ordinary magnitude (see properties.jsonl); comparisons carry the tolerances "
                            "written in the oracle", "PyPy 3.9 + numpy 1.24.3 stand for the supported interpreters"],
            "wall_s": round(wall, 3), "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d outside the domain, %d violation(s), %.1f s"
          % (prop, tier, evals, len(nontrivial), skips, len(violations), wall))
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
