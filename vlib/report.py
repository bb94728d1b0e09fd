"""Counts what a check covered, reports violations, writes evidence."""

import json
import os
import sys
import time
import traceback

from vlib import env

KNOWN = os.path.join(env.VERIF, "known_findings.txt")


def known_findings(pid):
    """Maps finding key to description for the listed findings of pid."""
    res = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                words = line[len("finding:"):].split(None, 2)
                if words[0] == "property=" + pid:
                    res[words[1][len("key="):]] = words[2]
    except FileNotFoundError:
        pass
    return res


class Check:
    """One run of the check of one property.

    The counters are measured: `states` counts distinct states (or distinct
    points of the input space) visited, `transitions` counts executions of the
    real code's step, `traces` counts complete histories executed on the real
    code and compared with the reference.
    """

    MAX_REPORTED = 5

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = {}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.nviol = 0
        self.known_hit = {}
        self.known = known_findings(pid)
        self.t0 = time.time()
        # The code under test prints progress; keep stdout for ourselves.
        sys.stdout.flush()
        self._out = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.close(devnull)

    def say(self, text):
        os.write(self._out, (text + "\n").encode("utf8", "replace"))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def violation(self, case, msg, key=None):
        """Records that `case` breaks the property.

        key identifies the finding; a key listed in known_findings.txt is
        reported as KNOWN-FINDING and does not fail the check.
        """
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.nviol += 1
        if len(self.violations) < self.MAX_REPORTED:
            self.violations.append((case, msg))

    def merge(self, part):
        """Merges the result dict of a worker process (see Part)."""
        self.count(part["states"], part["transitions"], part["traces"])
        for s in part["samples"]:
            self.sample(s)
        for k, v in part["outcomes"].items():
            self.outcome(k, v)
        for case, msg, key in part["violations"]:
            self.violation(case, msg, key)
        for key, n in part["dropped"].items():
            if key is not None and key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + n
            else:
                self.nviol += n

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "distinct_outcomes": self.outcomes,
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": self.nviol,
        }
        path = os.path.join(env.VERIF, "evidence", self.pid + ".json")
        tmp = path + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        os.rename(tmp, path)
        for key, n in sorted(self.known_hit.items()):
            self.say("KNOWN-FINDING: property=%s %s [%s, %d cases]" % (
                self.pid, self.known[key], key, n))
        rdir = os.path.join(env.VERIF, "replays")
        for i, (case, msg) in enumerate(self.violations):
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "case": case,
                           "message": msg}, f, indent=1, default=str)
                f.write("\n")
            self.say("VIOLATION property=%s replay=%s" % (self.pid, rp))
            self.say("  " + str(msg).replace("\n", "\n  ")[:1500])
        self.say("%s %s: states=%d transitions=%d traces=%d outcomes=%s "
                 "violations=%d wall=%.1fs" % (
                     self.pid, self.tier, self.states, self.transitions,
                     self.traces, json.dumps(self.outcomes, default=str)[:600],
                     self.nviol, wall))
        return 1 if self.nviol else 0


class Part:
    """Counters of a worker process; result() is sent to the parent."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.outcomes = {}
        self.violations = []
        self.dropped = {}
        self._seen = {}

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    sample = Check.sample
    outcome = Check.outcome

    def violation(self, case, msg, key=None):
        n = self._seen[key] = self._seen.get(key, 0) + 1
        if n <= Check.MAX_REPORTED:
            self.violations.append((case, msg, key))
        else:
            self.dropped[key] = self.dropped.get(key, 0) + 1

    @property
    def nviol(self):
        return sum(self._seen.values())

    def result(self):
        return dict(states=self.states, transitions=self.transitions,
                    traces=self.traces, samples=self.samples,
                    outcomes=self.outcomes, violations=self.violations,
                    dropped=self.dropped)


class CaseFailed(Exception):
    """The code under test did something the property forbids."""


class InterfaceChanged(Exception):
    """The driver found no way to the code any more (see below)."""


def interface_changed(exc):
    """True if the driver, not the code under test, failed to find its way.

    That is, our own frame asked for a name or a call signature that no longer
    exists.  A refactoring may do that; it says nothing about the property.
    """
    if isinstance(exc, InterfaceChanged):
        return True
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(env.VERIF + os.sep):
        return False
    text = str(exc)
    if isinstance(exc, ImportError):
        return True
    if isinstance(exc, AttributeError):
        return "has no attribute" in text and "NoneType" not in text
    if isinstance(exc, TypeError):
        return "argument" in text and "()" in text
    return False


def brief_tb():
    return "".join(traceback.format_exc().splitlines(True)[-6:])


def pmap(chk, fn, items, procs=None):
    """Runs fn(item, part) for every item in forked workers and merges.

    An exception escaping fn (other than HARNESS_ERRORS) means that the code
    under test does not even do what the driver needs: a violation.
    """
    procs = procs or env.NCPU
    items = list(items)
    global _work
    _work = (fn, items)
    if procs == 1 or len(items) == 1:
        for i in range(len(items)):
            chk.merge(_call(i))
        return
    pool = Pool(min(procs, len(items)), len(items))
    last = time.time()
    try:
        while pool.busy():
            for res in pool.results(5):
                chk.merge(res)
                last = time.time()
            now = time.time()
            if not chk.thorough and chk.nviol and now - chk.t0 > ENOUGH:
                break                 # it has been shown to be broken
            if not chk.thorough and now - last > HANG:
                chk.violation({"hang": HANG}, "the code under test did not "
                              "come to an end for %d s" % HANG)
                break
    finally:
        pool.close()


class Pool:
    """Forked workers; one that is killed from outside is replaced."""

    def __init__(self, procs, n):
        import multiprocessing

        self.ctx = multiprocessing.get_context("fork")
        self.todo = list(range(n - 1, -1, -1))
        self.tries = {}
        self.workers = {}             # connection -> (process, item)
        for _ in range(procs):
            self._start()

    def _start(self):
        if not self.todo:
            return
        ours, theirs = self.ctx.Pipe()
        p = self.ctx.Process(target=self._serve, args=(theirs, ours),
                             daemon=True)
        p.start()
        theirs.close()
        self._give(ours, p)

    def _give(self, conn, p):
        i = self.todo.pop() if self.todo else None
        try:
            conn.send(i)
        except OSError:
            pass                      # it died; results() will see that
        self.workers[conn] = (p, i)

    def _serve(self, conn, other):
        other.close()
        for c in list(self.workers):
            c.close()
        while True:
            try:
                i = conn.recv()
            except EOFError:
                os._exit(0)
            if i is None:
                conn.close()
                os._exit(0)
            try:
                res = (_call(i), None)
            except BaseException:
                res = (None, traceback.format_exc())
            conn.send(res)

    def busy(self):
        return bool(self.workers or self.todo)

    def results(self, timeout):
        from multiprocessing import connection

        done = []
        for conn in connection.wait(list(self.workers), timeout):
            p, i = self.workers.pop(conn)
            try:
                res, error = conn.recv()
            except (EOFError, OSError):
                conn.close()
                p.join()
                if i is None:
                    continue
                n = self.tries[i] = self.tries.get(i, 0) + 1
                if n >= 3:
                    if p.exitcode in (-9, -15):
                        raise MemoryError("workers keep being killed")
                    part = Part()
                    part.violation({"worker": repr(_work[1][i])[:300]},
                                   "the code under test ended the process "
                                   "with status %s" % p.exitcode)
                    done.append(part.result())
                    self._start()
                    continue
                self.todo.append(i)
                if not self.workers or p.exitcode not in (-9, -15):
                    self._start()     # else go on with fewer: memory is short
                continue
            if error:
                raise RuntimeError(error)
            done.append(res)
            if self.todo:
                self._give(conn, p)
            else:
                conn.close()
                p.join(60)
        return done

    def close(self):
        for conn, (p, _) in self.workers.items():
            p.kill()
            p.join()
        self.workers = {}


ENOUGH, HANG = 120, 400
_work = None


def _call(i):
    fn, items = _work
    part = Part()
    try:
        fn(items[i], part)
    except HARNESS_ERRORS:
        raise
    except Exception as e:
        if interface_changed(e):
            part.outcome("interface changed: %s" % e)
            return part.result()
        # The code under test failed where the driver needs it to work.
        part.violation({"worker": repr(items[i])[:300]}, brief_tb())
    return part.result()


HARNESS_ERRORS = (MemoryError, KeyboardInterrupt, BrokenPipeError)
