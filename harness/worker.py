"""Evaluates cases against /repo's code.  One JSON request per line on stdin,
one JSON reply per line on the saved stdout.  Started by run.py with
/opt/venv/bin/python (PyPy 3.9, numpy 1.24.3): the interpreter range the
project declares.

request:  {"prop":..., "check":..., "case":..., "isolate": bool}
          {"prop":..., "sequence":[[check, case],...]}      (replay of a history)
reply:    {"status": ok|skip|fail|harness, "msg":..., "labels":[...], "trivial":bool}
"""
import io
import json
import os
import resource
import signal
import sys
import traceback
import warnings
import zlib

CPU_LIMIT = float(os.environ.get("PG_CASE_CPU_S", "20"))
REPO = os.environ.get("PG_REPO", "/repo")      # PG_REPO: development only (mutation runs in scratch copies)


class CpuLimit(BaseException):
    pass


def _alarm(sig, frm):
    raise CpuLimit()


def main():
    real_in = sys.stdin
    real_out = os.fdopen(os.dup(1), "w")
    # the library prints; keep that (and anything a C extension writes) away
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    warnings.simplefilter("ignore")
    try:
        import numpy as np
        np.seterr(all="ignore")
        import planegeometry.geometry as geometry
        if not os.path.abspath(geometry.__file__).startswith(REPO + "/"):
            raise RuntimeError("imported %s" % geometry.__file__)
        import h
        import props
        props.load()
    except BaseException:
        real_out.write(json.dumps({"status": "harness", "msg": "import: " + traceback.format_exc()}) + "\n")
        real_out.flush()
        return
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    real_out.write(json.dumps({"status": "ready", "pypy": sys.version, "numpy": np.__version__}) + "\n")
    real_out.flush()

    def evaluate(prop, name, case):
        chk = h.REGISTRY[prop][name]
        h.ctx.reset()
        # the library draws from numpy's global generator: pin it per case
        np.random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()) & 0x7FFFFFFF)
        saved = sys.stdout
        sys.stdout = io.StringIO()
        status, msg = "ok", ""
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            chk.fn(case)
        except h.Fail as e:
            status, msg = "fail", str(e)
        except h.Skip as e:
            status, msg = "skip", str(e)
        except CpuLimit:
            status, msg = "fail", "no result after %g s of CPU time (normally milliseconds)" % CPU_LIMIT
        except (NameError, ImportError, SyntaxError, MemoryError, AssertionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            inlib = any(f.filename.startswith(REPO + "/") for f in tb)
            status = "fail" if inlib else "harness"
            msg = "%s: %s at %s" % (type(e).__name__, e, _where(tb))
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            status = "fail"
            msg = "valid input raised %s: %s at %s" % (type(e).__name__, e, _where(tb))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            sys.stdout = saved
        return {"status": status, "msg": msg, "labels": sorted(h.ctx.labels),
                "trivial": h.ctx.trivial or status == "skip"}

    def _where(tb):
        fr = [f for f in tb if f.filename.startswith(REPO + "/")] or list(tb)
        f = fr[-1]
        return "%s:%s (%s)" % (os.path.basename(f.filename), f.lineno, f.line)

    def answer(req):
        if "sequence" in req:
            out = {"status": "ok", "msg": "", "labels": [], "trivial": False}
            for name, case in req["sequence"]:
                out = evaluate(req["prop"], name, case)
                if out["status"] in ("fail", "harness"):
                    return out
            return out
        return evaluate(req["prop"], req["check"], req["case"])

    while True:
        ln = real_in.readline()
        if not ln:
            return
        req = json.loads(ln)
        if req.get("isolate"):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    real_out.write(json.dumps(answer(req)) + "\n")
                    real_out.flush()
                except BaseException:
                    code = 1
                os._exit(code)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                real_out.write(json.dumps({"status": "fail", "msg": "the interpreter died (wait status %s)" % st,
                                           "labels": [], "trivial": False}) + "\n")
                real_out.flush()
        else:
            real_out.write(json.dumps(answer(req)) + "\n")
            real_out.flush()


main()
