"""
Core of the deterministic simulator.

A *scenario* is plain JSON: {"property", "config", "steps"}.  It is generated from one PRNG seed and nothing else;
executing it is a pure function of the scenario and the code under test.  "steps" is the schedule: the order in which
independent clients act, with the faults injected at each step.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import traceback

REPO = '/repo'
RUN_CPU_LIMIT = 60          # seconds of CPU for one run; normal runs take milliseconds


class Violation(Exception):
    """The property does not hold in this execution"""

    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind
        self.message = message


class SimFault(Exception):
    """Injected failure of a component outside the code under test"""


class RunTimeout(BaseException):
    """One run used up its CPU budget"""


def run_seed(base, pid, index):
    h = hashlib.sha256(('%s:%s:%s' % (base, pid, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def digest(obj) -> int:
    """Stable 60-bit digest of plain data"""
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=repr)
    return int(hashlib.blake2b(s.encode(), digest_size=8).hexdigest()[:15], 16)


class Stats(object):
    """What one or many runs covered"""

    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.checks = 0
        self.sim_time = 0.0
        self.faults = {}        # kind -> times it really fired
        self.planned = {}       # kind -> times it was scheduled
        self.probes = {}        # named situation -> times reached
        self.states = set()     # abstract states reached
        self.schedules = set()  # distinct interleavings (client order) executed
        self.cases = set()      # digests of distinct non-trivial runs
        # per run
        self._events = None
        self._clients = None
        self._nontrivial = False

    # ---- per run
    def begin(self):
        self._events = hashlib.blake2b(digest_size=8)
        self._clients = []
        self._nontrivial = False

    def end(self):
        self.runs += 1
        if self._clients:
            self.schedules.add(digest(','.join(map(str, self._clients))))
        if self._nontrivial:
            self.cases.add(int(self._events.hexdigest()[:15], 16))

    def step(self, client, what):
        self.steps += 1
        self._clients.append(client)
        self._events.update(('%s:%s;' % (client, what)).encode())

    def event(self, what):
        self._events.update(str(what).encode())

    def check(self, n=1):
        self.checks += n

    def state(self, obj):
        d = digest(obj)
        if len(self.states) < 400000:
            self.states.add(d)
        self._events.update(b'%d' % d)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self._nontrivial = True
        self._events.update(('F:%s;' % kind).encode())

    def plan(self, kind):
        self.planned[kind] = self.planned.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def nontrivial(self):
        self._nontrivial = True

    # ---- aggregate
    def merge(self, other):
        for attr in ('runs', 'steps', 'checks', 'sim_time'):
            setattr(self, attr, getattr(self, attr) + getattr(other, attr))
        for attr in ('faults', 'planned', 'probes'):
            mine = getattr(self, attr)
            for k, v in getattr(other, attr).items():
                mine[k] = mine.get(k, 0) + v
        for attr in ('states', 'schedules', 'cases'):
            getattr(self, attr).update(getattr(other, attr))

    def pack(self):
        d = dict(self.__dict__)
        for k in ('_events', '_clients', '_nontrivial'):
            d.pop(k)
        return d

    @staticmethod
    def unpack(d):
        s = Stats()
        s.__dict__.update(d)
        return s


def load_property(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def generate(pid, mod, seed):
    rng = random.Random(seed)
    scenario = mod.gen(rng)
    scenario['property'] = pid
    # The replay file is JSON, so what is executed must survive the trip
    return json.loads(json.dumps(scenario))


def _alarm(signum, frame):
    raise RunTimeout()


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def execute(mod, scenario, stats):
    """Run one scenario.  Returns None, or a dict describing the violation."""
    stats.begin()
    random.seed(12345)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(NullOut()), contextlib.redirect_stderr(NullOut()):
            mod.run(json.loads(json.dumps(scenario)), stats)      # runs may modify their copy
        return None
    except Violation as v:
        return dict(kind=v.kind, message=v.message)
    except RunTimeout:
        return dict(kind='no-progress', message='run did not finish within %d s of CPU' % RUN_CPU_LIMIT)
    except BaseException as err:        # noqa
        if type(err) is KeyboardInterrupt:
            raise
        tb = traceback.extract_tb(err.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        spot = where[-1] if where else tb[-1]
        return dict(
            kind='unexpected-%s' % type(err).__name__,
            message='unexpected %s: %s (at %s:%d in %s)' % (
                type(err).__name__, err, spot.filename, spot.lineno, spot.name),
            trace=traceback.format_exc().splitlines()[-12:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        stats.end()


def run_one(pid, base_seed, index, stats, mod=None):
    mod = mod or load_property(pid)
    seed = run_seed(base_seed, pid, index)
    scenario = generate(pid, mod, seed)
    bad = execute(mod, scenario, stats)
    return seed, scenario, bad


# ---------------------------------------------------------------- helpers for property modules
def pick(seq, idx):
    """Indices in scenarios are taken modulo, so that a minimised scenario stays valid"""
    return seq[idx % len(seq)]


def close(a, b, tol=1e-9):
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))


def close_xy(a, b, tol=1e-9, scale=0.0):
    s = 1.0 + scale + max(abs(float(a[0])), abs(float(a[1])), abs(float(b[0])), abs(float(b[1])))
    d = max(abs(float(a[0]) - float(b[0])), abs(float(a[1]) - float(b[1])))
    return d <= tol * s


def expect(cond, kind, fmt, *args):
    if not cond:
        raise Violation(kind, fmt % args if args else fmt)


@contextlib.contextmanager
def patched(obj, name, value):
    """Replace an attribute of a library object for the duration of a block"""
    missing = object()
    old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield value
    finally:
        if old is missing:
            delattr(obj, name)
        else:
            setattr(obj, name, old)


def num(rng, lo=-100.0, hi=100.0):
    """A coordinate: often a small integer (collisions!), otherwise an arbitrary float"""
    if rng.random() < 0.5:
        return float(rng.randint(int(lo), int(hi)))
    return round(rng.uniform(lo, hi), rng.choice([1, 3, 6]))
