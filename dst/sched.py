"""Deterministic scheduler.

Tasks are real threads, but only the one holding the baton runs; every other one is parked on its own raw lock.
A task gives up the baton only

* at a *preemption point*: a line or return event inside the code under test, seen through ``sys.settrace``;
* when it blocks on something simulated (network data, a lock, a sleep) or ends.

Who runs next is decided by a PRNG (mode ``rand``) or a recorded list (mode ``list``).  All positions are *task local*
(``[task, nth traced event of that task]``), so removing one switch from a recorded schedule leaves the meaning of the
others intact, which is what makes minimisation work.
"""
import heapq
import sys
import zlib
import _thread

from .seams import CLK, REAL_ALLOC, REPO, STATE

PKG = REPO.rstrip('/') + '/soapfish/'
HOLD = 0.3    # a ready task may be kept from running this long (simulated seconds)
TICK = 2e-6   # simulated seconds per traced event


class StepLimit(BaseException):
    """The run exceeded its step budget (reported as a liveness violation by the caller)."""


class Stopped(BaseException):
    """The simulation ended while this task was still blocked."""


class WorkerTimeout(Exception):
    """Injected asynchronous abort (like a worker or soft time limit raising in the middle of a request)."""


ABORTS = {'WorkerTimeout': WorkerTimeout, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
          'SystemExit': SystemExit}


MUTATORS = {'append', 'setdefault', 'update', 'pop', 'popitem', 'clear', 'add', 'insert', 'extend', 'remove', 'discard', 'appendleft'}


def stores(code):
    """The lines of a function that store into an object or container."""
    import dis
    out = set()
    line = None
    for i in dis.get_instructions(code):
        if i.starts_line is not None:
            line = i.starts_line
        if i.opname in ('STORE_ATTR', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_DEREF') \
                or i.opname in ('LOAD_ATTR', 'LOAD_METHOD') and i.argval in MUTATORS or i.opname == 'LOAD_GLOBAL' and i.argval == 'setattr':
            out.add(line)
    return frozenset(out)


class Task:
    __slots__ = ('tid', 'name', 'fn', 'lock', 'state', 'n', 'blocks', 'host', 'cond', 'deadline', 'exc', 'result', 'call',
                 'abort_at', 'abort_exc', 'aborted', 'nopre', 'ident', 'attempt', 'why', 'data', 'allow', 'killed', 'parked', 'trace', 'wrote')

    def __init__(self, tid, name, fn, host):
        self.tid, self.name, self.fn, self.host = tid, name, fn, host
        self.lock = REAL_ALLOC()
        self.lock.acquire()
        self.state = 'ready'
        self.n = 0
        self.blocks = 0
        self.cond = None
        self.deadline = None
        self.exc = None
        self.result = None
        self.call = None
        self.abort_at = None
        self.abort_exc = None
        self.aborted = None
        self.nopre = 0
        self.ident = None
        self.attempt = 0
        self.why = None
        self.data = {}
        self.allow = True
        self.killed = False
        self.parked = 0
        self.trace = True
        self.wrote = set()     # frames whose last line stored into an object

    def __repr__(self):
        return f'<Task {self.tid} {self.name} {self.state}>'


class Sim:
    def __init__(self, spec=None, max_steps=2_000_000):
        spec = spec or {'mode': 'rand', 'seed': 0, 'p': 0.0}
        self.mode = spec['mode']
        self.p = spec.get('p', 0.0)
        self.hot = spec.get('hot')           # [k, salt]: functions whose hash % k == 0 are preempted with probability 1/2
        self.park = spec.get('park')         # [kf, k, salt]: a task reaching one of the functions chosen by hash may be held there while
        self.nparked = 0                     # others pass: aims at races whose window is a line or two
        self.write = spec.get('write')       # [k, salt]: the same at lines that store into objects (before and after), in functions chosen by hash
        import random
        self.rng = random.Random(spec.get('seed', 0))
        self.switches = {}
        if self.mode == 'list':
            for t, n, to in spec['switches']:
                self.switches[(t, n)] = to
        self.record = []                     # [tid, n | 'bK', to]
        self.sig = 0                         # running hash over switch locations: one number per interleaving
        self.nswitch = 0
        self.npreempt = 0
        self.steps = 0
        self.max_steps = max_steps
        self.tasks = []
        self.cur = None
        self.main_lock = REAL_ALLOC()
        self.main_lock.acquire()
        self.events = []
        self.seq = 0
        self.log = []
        self.stuck = None
        self.stopping = False
        self._hotcache = {}
        self._stores = {}
        self._code = {}
        self.overrun = False
        self.aborts_fired = 0
        self.lines_seen = set()
        self.firsts = None       # optional: line positions executed for the first time in this process
        self.newpos = []
        self.occ = {}
        self.only = None         # optional: file names (of the package) to trace; a tuple

    # ------------------------------------------------------------------ public
    def current(self):
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            return None
        return t

    def now(self):
        return CLK.t

    def ev(self, *what):
        t = self.current()
        self.log.append((t.tid if t is not None else -1,) + what)

    def spawn(self, name, fn, host='main', abort=None, trace=True):
        t = Task(len(self.tasks), name, fn, host)
        t.trace = trace
        if abort:
            t.abort_at, t.abort_exc = abort
        self.tasks.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def after(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.events, (CLK.t + delay, self.seq, fn))

    def run(self):
        """Run until every task has ended; returns None, or a description of why the system is stuck."""
        STATE.sim = self
        try:
            nxt = self._pick(None)
            if nxt is not None:
                self._resume(nxt)
                self.main_lock.acquire()
        finally:
            STATE.sim = None
            self.cur = None
        return self.stuck

    def kill(self, t):
        """The process t runs in dies: t never executes another line (it unwinds with Stopped)."""
        if t.state != 'done':
            t.killed = True
            if t.state == 'blocked':
                t.state, t.why, t.cond, t.deadline = 'ready', 'killed', None, None

    def sleep(self, d):
        t = self.cur
        self.block_until(None, CLK.t + max(0.0, d), 'sleep')
        return t

    def block_until(self, cond, deadline=None, why=''):
        """Park the current task until cond() is true (evaluated by the scheduler) or the deadline passes."""
        if self.stopping:
            raise Stopped()
        t = self.cur
        if t.killed:
            raise Stopped()
        if cond is not None and cond():
            return True
        if deadline is not None and CLK.t >= deadline:
            return False
        t.state, t.cond, t.deadline, t.why = 'blocked', cond, deadline, why
        if deadline is not None:
            self.after(deadline - CLK.t, lambda: None)
        t.blocks += 1
        self._yield_from(t, f'b{t.blocks}')
        if t.killed or self.stopping:
            raise Stopped()
        ok = t.why
        return ok == 'cond'

    def retrace(self):
        """An exception injected by the trace function switches tracing off for the thread: switch it on again."""
        if sys.gettrace() is None and self.current() is not None and self.cur.trace:
            sys.settrace(self._gtrace)

    def point(self, label=''):
        """An explicit preemption point (used by the harness's own stand-ins, e.g. the simulated socket)."""
        t = self.current()
        if t is None or self.stopping:
            return
        if t.killed:
            raise Stopped()
        t.n += 1
        self.steps += 1
        self._maybe_preempt(t, label)

    # ------------------------------------------------------------------ internals
    def _boot(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        if t.trace:
            sys.settrace(self._gtrace)
        try:
            if not t.killed:
                t.result = t.fn()
        except Stopped:
            pass
        except BaseException as e:  # noqa: B902 - recorded, judged by the property
            t.exc = e
        finally:
            sys.settrace(None)
            t.state = 'done'
            if t.parked:
                t.parked = 0
                self.nparked -= 1
        self._yield_from(t, 'end')

    def _fire_due(self):
        while self.events and self.events[0][0] <= CLK.t:
            heapq.heappop(self.events)[2]()

    def _pick(self, frm, key=None):
        while True:
            self._fire_due()
            r = self._candidates()
            if r:
                break
            if not self.events:
                return None
            when, _, fn = heapq.heappop(self.events)
            CLK.t = max(CLK.t, when)
            fn()
        if self.mode == 'list':
            k = (frm.tid if frm is not None else -1, key)
            to = self.switches.get(k)
            if to is not None:
                r2 = self._wait_for(r, lambda t: t.tid == to)
                if r2:
                    return next(t for t in r2 if t.tid == to)
            return self._candidates()[0]
        full = r
        if self.nparked:
            r = self._wait_for(r, lambda t: not t.parked)
            if not r:
                r = self._candidates()
        nxt = r[0] if len(r) == 1 and not self.nparked else self.rng.choice(self._unparked(r))
        if nxt is not full[0]:
            self.record.append([frm.tid if frm is not None else -1, key, nxt.tid])
        return nxt

    def _wait_for(self, r, ok):
        """Let time pass (a little) until some ready task satisfies ok: the others are descheduled meanwhile."""
        end = CLK.t + HOLD
        while not any(ok(t) for t in r):
            if not self.events or self.events[0][0] > end:
                return None
            when, _, fn = heapq.heappop(self.events)
            CLK.t = max(CLK.t, when)
            fn()
            self._fire_due()
            r = self._candidates()
        return r

    def _unparked(self, r):
        if not self.nparked:
            return r
        out = [t for t in r if not t.parked]
        if not out:
            t = self.rng.choice(r)
            t.parked = 0
            self.nparked -= 1
            out = [t]
        return out

    def _park_event(self, t):
        """t is at a line of a chosen function: release those who waited for it, perhaps hold t."""
        if self.nparked:
            for x in self.tasks:
                if x.parked and x is not t:
                    x.parked -= 1
                    if not x.parked or x.state == 'done':
                        x.parked = 0
                        self.nparked -= 1
        z = self.rng.random()
        if z < 0.25 and not t.nopre and t.allow:
            t.parked = self.rng.choice((1, 2, 3, 4, 6, 9, 14, 30))
            self.nparked += 1
            return True
        return z < 0.5

    def _candidates(self):
        out = []
        for t in self.tasks:
            if t.state == 'ready':
                out.append(t)
            elif t.state == 'blocked':
                if t.cond is not None and t.cond():
                    t.state, t.why, t.cond, t.deadline = 'ready', 'cond', None, None
                    out.append(t)
                elif t.deadline is not None and CLK.t >= t.deadline:
                    t.state, t.why, t.cond, t.deadline = 'ready', 'deadline', None, None
                    out.append(t)
        return out

    def _yield_from(self, t, key):
        nxt = self._pick(t, key)
        if nxt is None:
            live = [x for x in self.tasks if x.state != 'done']
            if live:
                self.stuck = 'deadlock: ' + ', '.join(f'{x.name} waits for {x.why}' for x in live)
                self.stopping = True
            if t.state == 'done':
                self.main_lock.release()
                return
            self.main_lock.release()
            t.lock.acquire()   # parked for ever; the process ends with os._exit
        if nxt is t:
            self.cur = t
            return
        self._note_switch(t, key, nxt)
        self._resume(nxt)
        if t.state == 'done':
            return
        t.lock.acquire()

    def _note_switch(self, t, key, nxt):
        self.nswitch += 1
        self.sig = zlib.crc32(f'{t.tid}>{nxt.tid}@{key}'.encode(), self.sig)

    def _resume(self, nxt):
        self.cur = nxt
        nxt.lock.release()

    def _maybe_preempt(self, t, where):
        if self.steps > self.max_steps:
            self.overrun = True
            raise StepLimit(f'more than {self.max_steps} steps')
        if self.mode == 'list':
            to = self.switches.get((t.tid, t.n))
            if to is None:
                return
            if t.nopre or not t.allow:
                return
            self._fire_due()
            r = self._wait_for(self._candidates(), lambda x: x.tid == to)
            nxt = next((x for x in r if x.tid == to), None) if r else None
            if nxt is None or nxt is t:
                return
        else:
            p = where if isinstance(where, float) else self.p
            if p <= 0.0 or self.rng.random() >= p:
                return
            if t.nopre or not t.allow:
                return
            self._fire_due()
            r = self._candidates()
            if t.parked:
                r = self._wait_for(r, lambda x: x is not t and not x.parked) or self._candidates()
            r = [x for x in r if x is not t]
            if not r:
                if t.parked:
                    t.parked = 0
                    self.nparked -= 1
                return
            nxt = self.rng.choice(self._unparked(r))
            self.record.append([t.tid, t.n, nxt.tid])
        self.npreempt += 1
        self._note_switch(t, t.n, nxt)
        self._resume(nxt)
        t.lock.acquire()
        if self.stopping or t.killed:
            raise Stopped()

    # tracing -------------------------------------------------------------
    def _gtrace(self, frame, event, arg):
        code = frame.f_code
        info = self._code.get(code)
        if info is None:
            info = self._classify(code)
        if not info:
            return None
        if info == 2:                      # called from inside the XML parser: it may hold native locks
            t = self.cur
            t.nopre += 1
            return self._ltrace_nopre
        return self._ltrace

    def _classify(self, code):
        fn = code.co_filename
        info = 0
        if fn.startswith(PKG):
            info = 1
            if self.only is not None and not fn.endswith(self.only):
                info = 0
            if code.co_name == 'resolve':
                info = 2
        self._code[code] = info
        if info:
            h = zlib.crc32(code.co_name.encode(), (self.hot or [1, 0])[1])
            self._hotcache[code] = 0.5 if self.hot and h % self.hot[0] == 0 else self.p
            if self.park:
                kf, k, salt = self.park
                base = fn[len(PKG):].encode()
                if zlib.crc32(base, salt) % kf == 0 and zlib.crc32(code.co_name.encode(), salt) % k == 0:
                    self._hotcache[code] = 2.0
            if self.write and zlib.crc32(code.co_name.encode(), self.write[1]) % self.write[0] == 0:
                lines = stores(code)
                if lines:
                    self._stores[code] = lines
        return info

    def _ltrace(self, frame, event, arg):
        if event == 'exception':
            return self._ltrace
        # line events, and the return of a traced function: a point inside of the line that called it
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            return self._ltrace
        if self.stopping or t.killed:
            raise Stopped()
        t.n += 1
        self.steps += 1
        CLK.t += TICK
        if self.firsts is not None:
            k = (frame.f_code, frame.f_lineno)
            if k not in self.firsts:
                self.firsts.add(k)
                self.newpos.append(t.n)
            if event == 'line':
                self.occ.setdefault(k, []).append(t.n)
        if t.abort_at is not None and t.n >= t.abort_at and t.aborted is None and event == 'line':
            if not self._importing(frame):
                t.aborted = f'{frame.f_code.co_filename[len(PKG):]}:{frame.f_code.co_name}'
                self.aborts_fired += 1
                self.lines_seen.add((frame.f_code.co_name, frame.f_lineno))
                raise ABORTS[t.abort_exc]('injected')
        if self.mode == 'list':
            if (t.tid, t.n) in self.switches and not self._importing(frame):
                self._maybe_preempt(t, 1.0)
            elif self.steps > self.max_steps:
                self._maybe_preempt(t, 0.0)
        else:
            p = self._hotcache.get(frame.f_code, 0.0)
            if self._stores:
                w = self._stores.get(frame.f_code)
                if w is not None:
                    k = id(frame)
                    if k in t.wrote:
                        t.wrote.discard(k)
                        p = 2.0
                    if event == 'line' and frame.f_lineno in w:
                        t.wrote.add(k)
                        p = 2.0
            if self.steps > self.max_steps:
                self._maybe_preempt(t, 0.0)
            if p > 1.0:
                if not t.parked and self._park_event(t) and not self._importing(frame):
                    self._maybe_preempt(t, 1.0)
                elif t.parked:      # the only one that can run
                    t.parked = 0
                    self.nparked -= 1
            elif p > 0.0 and self.rng.random() < p:
                if not self._importing(frame):
                    self._maybe_preempt(t, 1.0)
        return self._ltrace

    def _ltrace_nopre(self, frame, event, arg):
        t = self.cur
        if event == 'return':
            t.nopre -= 1
        elif event == 'line':
            t.n += 1
            self.steps += 1
            CLK.t += TICK
        return self._ltrace_nopre

    @staticmethod
    def _importing(frame):
        f = frame.f_back
        while f is not None:
            n = f.f_code.co_filename
            if n.startswith('<frozen importlib') or n.endswith('/logging/__init__.py'):
                return True
            f = f.f_back
        return False
