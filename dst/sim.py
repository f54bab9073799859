'''
The simulator: one seed -> one plan (plain JSON: a world and a list of
operations with their faults) -> one execution.

Everything a run depends on is decided by the plan:

 - which operations run, in which order, with which arguments (the schedule),
 - at which boundary crossing of fenics_ii a fault is raised (crossing = a call
   leaving the package: to dolfin, PETSc, numpy, the interpreter, user code),
 - the iteration order of sets inside the package (SeededSet) and the string
   hash seed of the interpreter (fixed per seed by the fork server),
 - when the garbage collector runs,
 - what user supplied callbacks (radius functions, solver forms...) do.

A run is executed in a process forked from a warm interpreter so that every run
starts from the state of a fresh import.
'''
import sys, os, gc, json, threading, random, hashlib, traceback, signal, importlib, builtins
import numpy as np

REPO = os.environ.get('DST_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'xii') + os.sep


class Violation(Exception):
    '''The property does not hold in this execution'''
    def __init__(self, kind, msg, finding=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.finding = kind, msg, finding


class Harness(Exception):
    '''The machinery is wrong or the environment broke'''


class FaultError(RuntimeError):
    '''Raised by injected faults of kind RuntimeError'''


class FaultOSError(OSError):
    pass


class FaultMemory(MemoryError):
    pass


class FaultInterrupt(KeyboardInterrupt):
    pass


FAULTS = {'interrupt': FaultInterrupt, 'memory': FaultMemory,
          'error': FaultError, 'io': FaultOSError}
FAULT_TYPES = tuple(FAULTS.values())


# ------------------------------------------------------- crossing the boundary
class Seam:
    '''
    Reports every call that leaves the package (to dolfin, PETSc, numpy, the
    interpreter, user code) and every line of the package about to run. (The calls of
    compiled methods are not reported by the interpreter, hence the lines.)
    For the thread that starts it.
    '''
    def __init__(self, listener):
        self.listener = listener

    def profile(self, frame, event, arg):
        if event == 'c_call':
            if frame.f_code.co_filename.startswith(PKG):
                self.listener(frame, getattr(arg, '__qualname__', None))
        elif event == 'call':
            if frame.f_code.co_filename.startswith(PKG):
                return
            f = frame.f_back
            if f is not None and f.f_code.co_filename.startswith(PKG):
                self.listener(f, frame.f_code.co_name)

    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(PKG) else None

    def line(self, frame, event, arg):
        # Importing a module holds a lock of the interpreter
        if event == 'line' and frame.f_code.co_name != '<module>':
            self.listener(frame, 'line %d' % frame.f_lineno)
        return self.line

    def __enter__(self):
        sys.setprofile(self.profile)
        sys.settrace(self.trace)
        return self

    def close(self):
        sys.settrace(None)
        sys.setprofile(None)

    def __exit__(self, *_):
        self.close()


def may_fail(frame, what):
    '''
    Not between the body of `with` and its exit: there not even the interpreter
    could help. The fault comes with the next crossing
    '''
    if what in ('__exit__', 'release'):
        return False
    if what is not None and what.startswith('line '):
        import linecache
        return not linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith(('with ', 'finally'))
    return True


class Crossings:
    '''
    Count calls that leave the package and raise at the one asked for. Active
    only in a `with` block; the count is a function of code and plan.
    '''
    def __init__(self, fail_at=None, fault='error', limit=None):
        self.fail_at, self.fault, self.n, self.fired = fail_at, fault, 0, None
        self.limit, self.done = limit, False
        self.seam = Seam(self.listen)

    def listen(self, frame, what):
        if self.done:
            return
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            self.done = True
            self.seam.close()
            raise Violation('no-progress', 'more than %d steps' % self.limit)
        if self.fail_at is not None and self.n >= self.fail_at and may_fail(frame, what):
            self.fired = '%s:%s -> %s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, what)
            self.done = True
            self.seam.close()
            raise FAULTS[self.fault]('injected at crossing %d' % self.n)

    def __enter__(self):
        self.seam.__enter__()
        return self

    def __exit__(self, *_):
        self.seam.close()


# ------------------------------------------------------------------- callers
class Interleave:
    '''
    Callers on threads of their own, exactly one of which runs at any time. At
    each crossing of the boundary of the package the simulator decides (from
    the seed) who runs next.
    '''
    def __init__(self, jobs, seed, p):
        self.jobs, self.rng, self.p = jobs, random.Random(seed), p
        self.n = len(jobs)
        self.locks = [threading.Semaphore(0) for _ in jobs]
        self.main = threading.Semaphore(0)
        self.alive = list(range(self.n))
        self.results, self.switches = [None]*self.n, 0
        self.crossings = [0]*self.n
        self.trace = []
        self.waits, self.fired = 0, [False]*self.n

    def listen(self, i, frame, what):
        fault = self.jobs[i][1]
        self.crossings[i] += 1
        if fault is not None and self.crossings[i] >= fault['k'] and not self.fired[i] and may_fail(frame, what):
            self.fired[i] = True
            raise FAULTS[fault['kind']]('injected at crossing %d' % fault['k'])
        if len(self.alive) > 1 and self.rng.random() < self.p:
            nxt = self.alive[self.rng.randrange(len(self.alive))]
            if nxt != i:
                self.switch(i, nxt)

    def switch(self, i, nxt):
        self.switches += 1
        self.trace.append((i, self.crossings[i], nxt))
        self.locks[nxt].release()
        self.locks[i].acquire()

    def wait(self, i):
        '''Caller needs a lock that another one holds'''
        self.waits += 1
        others = [k for k in self.alive if k != i]
        if not others or self.waits > 10**5:
            raise Violation('deadlock', 'caller waits for a lock nobody is going to release')
        self.switch(i, others[self.rng.randrange(len(others))])

    def body(self, i):
        self.locks[i].acquire()
        f = self.jobs[i][0]
        CALLER.it = (self, i)
        try:
            with Seam(lambda frame, what: self.listen(i, frame, what)):
                out = ('ok', f())
        except BaseException as e:
            out = ('raised', e)
        self.results[i] = out
        self.alive.remove(i)
        if self.alive:
            self.locks[self.alive[self.rng.randrange(len(self.alive))]].release()
        else:
            self.main.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i, ), daemon=True) for i in range(self.n)]
        [t.start() for t in ts]
        self.locks[self.rng.randrange(self.n)].release()
        self.main.acquire()
        [t.join() for t in ts]
        return self.results


CALLER = threading.local()


class SimLock:
    '''Lock of the package: who waits for it lets the others run'''
    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        it = getattr(CALLER, 'it', None)
        if it is None or not blocking:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            it[0].wait(it[1])
        return True

    def release(self):
        self.real.release()

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


def own_locks():
    '''Locks that the package makes are under control of the simulator'''
    for name in ('Lock', 'RLock'):
        real = getattr(threading, name)

        def make(real=real):
            lock = real()
            return SimLock(lock) if sys._getframe(1).f_code.co_filename.startswith(PKG) else lock
        setattr(threading, name, make)


# -------------------------------------------------------------- set order seam
_set = builtins.set


class _SetMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _set)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _set)


class SeededSet(_set, metaclass=_SetMeta):
    '''set whose iteration order is drawn by the simulator'''
    rng = random.Random(0)

    def __init__(self, items=()):
        items = _listed(items)
        _set.__init__(self, items)
        self._order = dict.fromkeys(items)
        self._place = {}

    def add(self, x):
        _set.add(self, x)
        self._order.setdefault(x)

    def __iter__(self):
        # Canonical start (order of insertion) so that the order depends on the seed only
        items = [x for x in self._order if x in self]
        if len(items) != len(self):
            items += _listed(_set(_set.__iter__(self)) - _set(items))
        # Iterations over a set which did not change follow the same order
        place = self._place
        for x in items:
            if x not in place:
                place[x] = SeededSet.rng.random()
        items.sort(key=place.__getitem__)
        return iter(items)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def __reduce__(self):
        return (_set, (list(self), ))


def _listed(items):
    if type(items) is SeededSet:
        return [x for x in items._order if x in items] if len(items._order) >= len(items) else list(items)
    if isinstance(items, (_set, frozenset)):
        items = list(items)
        try:
            items.sort()
        except Exception:
            try:
                items.sort(key=repr)
            except Exception:
                pass
        return items
    return list(items)


def _wrap(name):
    base = getattr(_set, name)

    def op(self, *args):
        args = [list(a) if not isinstance(a, (_set, frozenset)) and hasattr(a, '__iter__') else a for a in args]
        out = base(self, *args)
        if not isinstance(out, _set):
            return out
        order = dict.fromkeys(_listed(self) if isinstance(self, _set) else self)
        for a in args:
            order.update(dict.fromkeys(_listed(a)))
        return SeededSet([x for x in order if x in out])
    op.__name__ = name
    return op


for _n in ('__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__',
           'copy', 'difference', 'intersection', 'union', 'symmetric_difference'):
    setattr(SeededSet, _n, _wrap(_n))


def seed_sets(seed):
    '''All modules of the package construct SeededSet instead of set'''
    SeededSet.rng = random.Random(seed)
    for name, mod in list(sys.modules.items()):
        if (name == 'xii' or name.startswith('xii.')) and mod is not None:
            mod.__dict__['set'] = SeededSet


# ------------------------------------------------------------------------ runs
class Sim:
    '''State of one run'''
    def __init__(self, plan):
        self.plan = plan
        self.log = []
        self.stats = {}
        self.findings = []
        self.states = set()
        self.values = {}
        self.step = -1
        self.op = None

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def event(self, *what):
        self.log.append(' '.join(map(str, what)))

    def reach(self, *what):
        '''Measure of coverage: distinct states reached'''
        self.states.add(' '.join(map(str, what)))

    def num(self, x):
        '''Exact representation for the log'''
        x = np.ascontiguousarray(np.atleast_1d(np.asarray(x, dtype=float)))
        return hashlib.sha1(x.tobytes()).hexdigest()[:12]

    def digest(self):
        return hashlib.sha1('\n'.join(self.log).encode()).hexdigest()

    # --- checks
    def check(self, cond, kind, msg=''):
        self.count('checks')
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def close(self, got, want, scale, kind, msg='', tol=1e-8):
        self.count('checks')
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(kind, '%s shape %s, expected %s' % (msg, got.shape, want.shape))
        err = np.max(np.abs(got - want)) if got.size else 0.
        if not (err <= tol*max(scale, 1e-12) + 1e-13):
            i = int(np.argmax(np.abs(got - want))) if np.isfinite(err) else int(np.argmax(~np.isfinite((got-want).ravel())))
            raise Violation(kind, '%s got %.10g, expected %.10g (error %.3g, scale %.3g)' % (
                msg, got.ravel()[i], want.ravel()[i], err, scale))

    # --- alternatives
    def elsewhere(self, f):
        '''Value of f() (something picklable) computed by a forked copy of this run'''
        import pickle
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = ('ok', f(), self.states, self.stats)
                except Violation as e:
                    out = ('violation', (e.kind, e.msg))
                except BaseException as e:
                    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
                    out = ('raised' if in_package(e.__traceback__) else 'harness',
                           (type(e).__name__, '%s in %s' % (str(e)[:200], where(e.__traceback__)), tb))
                data = pickle.dumps(out)
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as pipe:
            data = pipe.read()
        os.waitpid(pid, 0)
        if not data:
            raise Violation('process died', 'in another schedule')
        out = pickle.loads(data)
        if out[0] == 'violation':
            raise Violation(*out[1])
        if out[0] == 'raised':
            raise Violation('raised %s' % out[1][0], out[1][1])
        if out[0] == 'harness':
            raise Harness(out[1][2])
        self.states |= out[2]
        return out[1]

    # --- faults
    def crossings_of(self, f):
        '''How many crossings does f() take: learn it in a forked copy'''
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                with Crossings() as c:
                    try:
                        f()
                    except BaseException:
                        pass
                os.write(w, str(c.n).encode())
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        data = b''
        while True:
            d = os.read(r, 4096)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        return int(data or b'0')

    def with_fault(self, f, fault):
        '''
        Run f with the fault {kind, at} raised at the crossing at in [0, 1) of
        all the crossings f makes. -> True if it interrupted f
        '''
        self.survived = None
        n = self.crossings_of(f)
        if not n:
            return False
        k = 1 + int(fault['at']*n)
        self.count('faults.offered')
        c = Crossings(fail_at=k, fault=fault['kind'])
        try:
            with c:
                out = f()
        except FAULT_TYPES:
            self.count('faults.' + fault['kind'])
            self.event('fault', fault['kind'], k, n, c.fired)
            self.reach('fault', fault['kind'], c.fired)
            return True
        except BaseException as e:
            if c.fired is not None:
                # The fault surfaced as another error: it has been reported
                self.count('faults.' + fault['kind'])
                self.event('fault', fault['kind'], k, n, c.fired, 'as', type(e).__name__)
                return True
            raise
        if c.fired is not None:
            self.count('faults.swallowed')
            self.event('fault swallowed', fault['kind'], k, n, c.fired)
            self.survived = (out, )     # Whose value is to be correct
        return False


def in_package(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def where(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG):
            out.append('%s:%s' % (fn[len(PKG):], tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out[-1] if out else ''


def execute(plan):
    '''Run the plan in this process -> JSON-able outcome'''
    mod = importlib.import_module('props.' + plan['module'])
    seed_sets(plan.get('order', 0))
    random.seed(plan['seed'])
    np.random.seed(plan['seed'] % (2**32))
    gc.collect()
    gc.disable()          # The simulator collects when the plan says so
    sim = Sim(plan)
    out = {'seed': plan['seed'], 'status': 'ok'}
    try:
        mod.run(plan, sim)
    except Violation as e:
        out.update(status='violation', kind=e.kind, msg=e.msg, step=sim.step)
    except BaseException as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if in_package(e.__traceback__) or (isinstance(e, RuntimeError) and 'DOLFIN' in str(e)):
            out.update(status='violation', kind='raised %s' % type(e).__name__,
                       msg='%s in %s' % (str(e)[:200].strip(), where(e.__traceback__)), step=sim.step, trace=tb[-3000:])
        else:
            out.update(status='harness', kind=type(e).__name__, msg=tb[-3000:], step=sim.step)
    out.update(digest=sim.digest(), stats=sim.stats, events=len(sim.log), findings=sim.findings,
               states=sorted(sim.states), values=sim.values)
    if plan.get('keep_log'):
        out['log'] = sim.log
    return out


def make_plan(module, seed, tier):
    '''Plan of the seed'''
    import importlib, json
    mod = importlib.import_module('props.' + module)
    for n in range(4):
        rng = random.Random('%s %d' % (module, seed) + ' again'*n)
        try:
            plan = mod.plan(rng, tier)
        except (KeyError, IndexError, ValueError):
            if n == 3:      # The generator is broken
                raise
            continue        # It painted itself into a corner
        plan.update(module=module, seed=seed, tier=tier)
        # Canonical form: what a replay file would hold
        return json.loads(json.dumps(plan))
