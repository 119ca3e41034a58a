"""Clean process that runs cases on the real toughio; one forked child per case."""
import json
import resource
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def find_job(mod, name):
    for t in ("quick", "thorough"):
        for j in mod.jobs(t):
            if j.name == name:
                return j
    return None


def run_case(mod, case):
    from sx.api import Concrete, AssumeFailed

    import logging

    logging.disable(logging.CRITICAL)
    job = find_job(mod, case["job"]["harness"])
    if job is None:
        return {"error": "no such harness"}
    tmp = tempfile.mkdtemp(prefix="sxreplay")
    out = {}
    api = Concrete(case["inputs"], tmp, case.get("tier", "quick"), job)
    try:
        os.chdir(tmp)
        job.fn(api, **job.params)
    except AssumeFailed as exc:
        out["assume"] = str(exc)
    except (Exception, SystemExit) as exc:
        api.failed.append("no exception (%s)" % type(exc).__name__)
        out["exception"] = "".join(traceback.format_exception_only(type(exc), exc)).strip()[:400]
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    out["failed"] = api.failed if "assume" not in out else []
    out["checks"] = api.n_checks
    return out


def main():
    prop = sys.argv[1]
    warnings.filterwarnings("ignore")
    import importlib
    import numpy

    numpy.seterr(all="ignore")
    import toughio  # noqa

    mod = importlib.import_module("harness.%s" % prop.lower())
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            try:
                out = run_case(mod, req["case"])
            except BaseException:
                out = {"error": traceback.format_exc()[-800:]}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out, default=str))
            os._exit(0)
        os.close(w)
        buf, t0 = b"", time.time()
        hang = False
        while True:
            left = req["timeout"] - (time.time() - t0)
            if left <= 0:
                hang = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                d = os.read(r, 65536)
                if not d:
                    break
                buf += d
        if hang:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        os.waitpid(pid, 0)
        if hang:
            ans = json.dumps({"failed": ["terminates (did not finish within %ss)" % req["timeout"]], "exception": "timeout"})
        else:
            ans = buf.decode() or json.dumps({"error": "child died"})
        sys.stdout.write(ans + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
