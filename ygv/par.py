"""Deciding many independent cases on all cores (each worker is a fork of the analysed program)."""
import os
import pickle
import sys
import traceback

CORES = int(os.environ.get("YGV_CORES", "0")) or min(8, os.cpu_count() or 1)


def run(jobs, serial_below=24):
    """jobs: list of (function, args); returns their results in order."""
    jobs = list(jobs)
    if len(jobs) < serial_below or CORES < 2:
        return [f(*a) for f, a in jobs]
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(CORES):
        r, s = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                for fd in kids:
                    os.close(fd[1])
                out = [(i, jobs[i][0](*jobs[i][1])) for i in range(w, len(jobs), CORES)]
                for _, o in out:
                    for x in getattr(o, "r", {}).values():
                        x.a = x.b = None
                with os.fdopen(s, "wb") as fh:
                    pickle.dump(out, fh, protocol=4)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        os.close(s)
        kids.append((pid, r))
    res = [None] * len(jobs)
    bad = False
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad = True
            continue
        for i, x in pickle.loads(data):
            res[i] = x
    if bad:                               # a worker was lost: decide its share here
        for i, x in enumerate(res):
            if x is None:
                res[i] = jobs[i][0](*jobs[i][1])
    return res
