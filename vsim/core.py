"""
Core of the deterministic simulator (Jython 2.7).

One integer seed -> one Case (a JSON document holding the whole plan of a run:
configuration, operations, schedule decisions and injected faults) -> one exactly
repeatable execution.  Nothing in an execution may consult a clock, the real file
system, the environment or an unordered identity hash: every such thing comes from
the case document.
"""
from java.util import Random as JRandom
from hashlib import md5
import json
import os
import sys
import traceback

REPO = os.environ.get("VSIM_REPO", "/repo")


class Violation(Exception):
    """ A property of the code under test was seen broken. """

    def __init__(self, kind, message):
        if isinstance(message, str):
            message = message.decode("utf-8", "replace")
        Exception.__init__(self, (u"%s: %s" % (kind, message)).encode("utf-8"))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """ Something in the simulator itself is wrong: never reported as a violation. """


class Rnd(object):
    """ The only randomness in the simulator. """

    def __init__(self, seed):
        h = md5(("vsim:%s" % (seed,)).encode("ascii")).hexdigest()
        v = int(h[:12], 16)
        self.r = JRandom(v)

    def below(self, n):
        return self.r.nextInt(n)

    def between(self, a, b):
        """ inclusive """
        return a + self.r.nextInt(b - a + 1)

    def chance(self, num, den=100):
        return self.r.nextInt(den) < num

    def choice(self, seq):
        return seq[self.r.nextInt(len(seq))]

    def weighted(self, pairs):
        total = 0
        for _ignore, w in pairs:
            total += w
        x = self.r.nextInt(total)
        for v, w in pairs:
            if x < w:
                return v
            x -= w
        raise HarnessError("weighted")

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.r.nextInt(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        s = list(seq)
        self.shuffle(s)
        return s[:k]


class Ctx(object):
    """ Recorder of one execution. """

    def __init__(self):
        self.digest = md5()
        self.tail = []
        self.steps = 0
        self.faults = {}
        self.probes = {}
        self.simtime = 0
        self.fps = set()
        self.nontrivial = 0
        self.keep = False
        self.trace = []

    def ev(self, *items):
        line = repr(items)
        self.digest.update(line)
        self.digest.update("\n")
        self.steps += 1
        if self.keep:
            self.trace.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.ev("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def elapse(self, seconds):
        self.simtime += abs(int(seconds))

    def fp(self, *items):
        """ Record an abstract state / interleaving reached. """
        self.nontrivial += 1
        self.fps.add(md5(repr(items)).hexdigest()[:12])

    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message)


def library_frame(tb):
    """
    Which side did an unexpected exception come from?  True if the innermost python frame that
    belongs either to the harness or to the library belongs to the library.
    """
    last = None
    for fn, ln, name, _text in traceback.extract_tb(tb):
        if fn.startswith(REPO + "/"):
            last = ("lib", fn, ln, name)
        elif "/vsim/" in fn:
            last = ("har", fn, ln, name)
    if last is not None and last[0] == "lib":
        return last
    return None


class Scenario(object):
    prop = None
    # number of runs for each tier
    runs = {"quick": 400, "thorough": 8000}
    components_real = []
    components_stub = []
    measure = ""

    def generate(self, rnd, tier):
        raise NotImplementedError

    def execute(self, case, ctx):
        raise NotImplementedError

    def simplify(self, case):
        """ yield smaller cases, beyond dropping ops """
        return []


def run_case(scn, case, keep=False):
    """
    Execute one case.  Returns (ctx, violation or None).  Raises HarnessError for a bug in the simulator.
    """
    ctx = Ctx()
    ctx.keep = keep
    # an execution never mutates its case
    case = json.loads(json.dumps(case), object_hook=ascii_hook)
    try:
        scn.reset()
        scn.execute(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, e
    except HarnessError:
        raise
    except Exception as e:
        _t, _e, tb = sys.exc_info()
        where = library_frame(tb)
        text = "".join(traceback.format_exception(_t, _e, tb))
        if where is not None:
            return ctx, Violation(
                "crash:%s" % (e.__class__.__name__,),
                "the library raised %s(%s) at %s:%s in %s, which no documented error path does\n%s" % (
                    e.__class__.__name__, e, where[1], where[2], where[3], text))
        # the code answered with something no answer of it can be (None for a list, a wrong type ...)
        return ctx, Violation(
            "unusable:%s" % (e.__class__.__name__,),
            "an answer of the library could not be used: %s\n%s" % (e, text))
    finally:
        scn.cleanup()


def ascii_hook(d):
    out = {}
    for k, v in d.items():
        out[to_str(k)] = fix(v)
    return out


def fix(v):
    if isinstance(v, unicode):
        return to_str(v)
    if isinstance(v, list):
        return [fix(i) for i in v]
    return v


def to_str(u):
    # case documents hold utf-8 text as utf-8 encoded str objects, as the library wants
    if isinstance(u, unicode):
        return u.encode("utf-8")
    return u


def shrink(scn, case, kind, budget, now):
    """
    Delta-debug case["ops"] and then the scenario's own simplifications, keeping a violation
    of the same kind.
    """
    end = now() + budget

    def fails(c):
        try:
            _ctx, v = run_case(scn, c)
        except HarnessError:
            return None
        if v is not None and v.kind == kind:
            return v
        return None

    best = case
    bestv = fails(case)
    if bestv is None:
        return case, None
    tried = 0
    progress = True
    while progress and now() < end:
        progress = False
        ops = best.get("ops", [])
        chunk = max(1, len(ops) // 2)
        while chunk >= 1 and now() < end:
            i = 0
            while i < len(best["ops"]) and now() < end:
                cand = dict(best)
                cand["ops"] = best["ops"][:i] + best["ops"][i + chunk:]
                tried += 1
                v = fails(cand)
                if v is not None:
                    best, bestv = cand, v
                    progress = True
                else:
                    i += chunk
            if chunk == 1:
                break
            chunk = chunk // 2
        if now() < end:
            for cand in scn.simplify(best):
                if now() >= end:
                    break
                tried += 1
                v = fails(cand)
                if v is not None:
                    best, bestv = cand, v
                    progress = True
                    break
    return best, bestv
