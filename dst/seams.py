"""Seams: every source of nondeterminism goes through this module.

``install()`` must run before anything but the standard library is imported.  It replaces, process wide,

* the clocks (``time``, ``datetime.datetime.now`` and friends) by a simulated one,
* randomness (``random``, ``os.urandom``, ``uuid``) by a PRNG that is reseeded for every case,
* sockets by the simulated network (``NET``), or a refusal when no simulation is running,
(File objects are replaced by the checks that need failing disks: props/c12.py.)

No real sleep, real socket or real clock is reachable from the code under test afterwards.
"""
import sys
import os
import _thread
import builtins
import io

REPO = os.environ.get('SOAPFISH_REPO', '/repo')
REAL_ALLOC = _thread.allocate_lock


class _Clk:
    """Simulated time. ``t`` is elapsed simulated seconds; wall clocks add an epoch and a per-host skew."""

    EPOCH = 1_700_000_000.0

    def __init__(self):
        self.t = 0.0
        self.skew = {}            # host -> seconds added to its wall clock
        self.base = self.EPOCH
        self.frozen = {}          # host -> frozen wall value
        self.reads = 0

    def host(self):
        s = STATE.sim
        if s is None:
            return STATE.host
        t = s.current()
        return t.host if t is not None else STATE.host

    def wall(self):
        self.reads += 1
        h = self.host()
        if h in self.frozen:
            return self.frozen[h]
        return self.base + self.t + self.skew.get(h, 0.0)

    def mono(self):
        return 1000.0 + self.t


class _State:
    def __init__(self):
        self.sim = None       # the running Sim, if any
        self.net = None       # the simulated network, if any
        self.fs = None        # the file overlay, if any
        self.host = 'main'
        self.rng = None       # entropy for random/urandom/uuid
        self.node = 0x0242ac110002
        self.pid = 4242       # what os.getpid() says
        self.inc = 0          # number of the simulated process (each start and each fork is a new one)
        self.ticks = 0        # last timestamp the simulated libuuid gave out in this process
        self.escapes = []     # attempts to reach the real world


STATE = _State()
CLK = _Clk()
REAL = {}


def reseed(n):
    import random
    STATE.rng = REAL['Random'](n)
    random.seed(STATE.rng.getrandbits(64))
    CLK.t = 0.0
    CLK.base = CLK.EPOCH
    CLK.skew.clear()
    CLK.frozen.clear()
    STATE.host = 'main'
    STATE.node = 0x0242ac110002
    STATE.pid = 4242
    STATE.inc = STATE.ticks = 0
    STATE.escapes = []
    import uuid
    uuid._last_timestamp = None


def new_process(node, pid, inc, seed, started=None):
    """This (really forked) process becomes another simulated one: own entropy, pid, host."""
    import random
    import uuid
    STATE.rng = REAL['Random'](f'{seed}:{inc}')
    random.seed(STATE.rng.getrandbits(64))     # CPython reseeds in a forked child, and a new process starts from entropy
    STATE.node, STATE.pid, STATE.inc = node, pid, inc
    if started is not None:                    # a process of its own, not a forked one
        uuid._last_timestamp = None
        STATE.ticks = 0
        CLK.t = 0.0
        CLK.base = started


def install():
    sys.dont_write_bytecode = True
    for k in list(os.environ):
        if k.lower().endswith('_proxy') or k in ('NETRC', 'REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE', 'SSL_CERT_FILE'):
            del os.environ[k]
    os.environ['HOME'] = '/nonexistent-dst-home'
    os.environ['NO_PROXY'] = '*'
    os.environ['TZ'] = os.environ.get('DST_TZ', 'UTC')
    import time
    time.tzset()
    _install_time(time)
    _install_random()
    _install_locks()
    _install_socket()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def _install_time(time):
    for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime',
              'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time', 'thread_time'):
        REAL[n] = getattr(time, n)

    def sleep(d):
        s = STATE.sim
        if s is not None and s.current() is not None:
            s.sleep(d)
        else:
            CLK.t += max(0.0, d)

    time.time = lambda: CLK.wall()
    time.time_ns = lambda: int(CLK.wall() * 1e9)
    time.monotonic = lambda: CLK.mono()
    time.monotonic_ns = lambda: int(CLK.mono() * 1e9)
    time.perf_counter = lambda: CLK.mono()
    time.perf_counter_ns = lambda: int(CLK.mono() * 1e9)
    time.process_time = lambda: CLK.mono()
    time.thread_time = lambda: CLK.mono()
    time.sleep = sleep
    time.localtime = lambda s=None: REAL['localtime'](CLK.wall() if s is None else s)
    time.gmtime = lambda s=None: REAL['gmtime'](CLK.wall() if s is None else s)
    time.ctime = lambda s=None: REAL['ctime'](CLK.wall() if s is None else s)
    time.asctime = lambda t=None: REAL['asctime'](time.localtime() if t is None else t)
    time.strftime = lambda f, t=None: REAL['strftime'](f, time.localtime() if t is None else t)

    import datetime as dtm
    real_dt, real_d = dtm.datetime, dtm.date

    class _DTMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt)

    class datetime(real_dt, metaclass=_DTMeta):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLK.wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLK.wall(), dtm.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(CLK.wall())

    class _DMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_d)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_d)

    class date(real_d, metaclass=_DMeta):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(CLK.wall())

    datetime.__module__ = date.__module__ = 'datetime'
    datetime.__qualname__, date.__qualname__ = 'datetime', 'date'
    dtm.datetime, dtm.date = datetime, date


def _install_random():
    import random
    import uuid
    REAL['Random'] = random.Random
    REAL['urandom'] = os.urandom

    def urandom(n):
        if STATE.rng is None:
            return REAL['urandom'](n)
        return STATE.rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

    os.urandom = urandom

    class SystemRandom(random.Random):
        def random(self):
            return (int.from_bytes(urandom(7), 'big') >> 3) * random.RECIP_BPF

        def getrandbits(self, k):
            return int.from_bytes(urandom((k + 7) // 8), 'big') >> (-k % 8) if k else 0

        def seed(self, *a, **k):
            return None

    random.SystemRandom = SystemRandom
    random._urandom = urandom
    import secrets
    secrets._sysrand = SystemRandom()
    secrets.token_bytes = lambda n=None: urandom(32 if n is None else n)
    # uuid1: an ideal libuuid (what uuid_generate_time_safe promises: never the same value twice on a node, whatever the clock does).
    def generate_time_safe():
        t = int(CLK.wall() * 1e7) + 0x01b21dd213814000
        STATE.ticks = t = max(t, STATE.ticks + 1)
        seq = STATE.inc & 0x3fff | 0x8000
        f = (t & 0xffffffff).to_bytes(4, 'big') + ((t >> 32) & 0xffff).to_bytes(2, 'big') + ((t >> 48) & 0xfff | 0x1000).to_bytes(2, 'big')
        return f + seq.to_bytes(2, 'big') + STATE.node.to_bytes(6, 'big'), 0

    uuid._generate_time_safe = generate_time_safe
    os.getpid = lambda: STATE.pid
    uuid._UuidCreate = None
    uuid._load_system_functions = lambda: None
    uuid.getnode = lambda: STATE.node


def _install_locks():
    """threading locks block through the scheduler when used from a simulated task."""
    import threading
    REAL['Lock'] = _thread.allocate_lock
    REAL['RLock'] = threading.RLock

    class SimLock:
        _is_r = False

        def __init__(self):
            self._real = REAL_ALLOC()
            self._owner = None
            self._count = 0

        def acquire(self, blocking=True, timeout=-1):
            s = STATE.sim
            t = s.current() if s is not None else None
            me = t if t is not None else _thread.get_ident()
            if self._is_r and self._owner == me and self._count:
                self._count += 1
                return True
            if t is None:
                ok = self._real.acquire(blocking, timeout)
            else:
                ok = self._real.acquire(False)
                if not ok and blocking:
                    deadline = None if timeout is None or timeout < 0 else CLK.t + timeout
                    ok = s.block_until(lambda: self._real.acquire(False), deadline, 'lock')
            if ok:
                self._owner, self._count = me, 1
            return ok

        def release(self):
            if self._is_r:
                self._count -= 1
                if self._count:
                    return
            self._owner = None
            self._count = 0
            self._real.release()

        def locked(self):
            return self._real.locked()

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

        def _at_fork_reinit(self):
            self._real = REAL_ALLOC()
            self._owner, self._count = None, 0

        # Condition support
        def _is_owned(self):
            s = STATE.sim
            t = s.current() if s is not None else None
            return self._count > 0 and self._owner == (t if t is not None else _thread.get_ident())

        def _release_save(self):
            c, o = self._count, self._owner
            self._count, self._owner = 0, None
            self._real.release()
            return (c, o)

        def _acquire_restore(self, st):
            self.acquire()
            self._count, self._owner = st

    class SimRLock(SimLock):
        _is_r = True

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock


def _install_socket():
    import socket
    REAL['socket'] = socket.socket
    REAL['create_connection'] = socket.create_connection

    def refuse(what):
        STATE.escapes.append(str(what))
        raise OSError(101, f'simulation: {what} refused')

    def create_connection(address, timeout=None, source_address=None, *a, **k):
        if STATE.net is None:
            refuse(f'connect {address!r}')
        return STATE.net.connect(address)

    def getaddrinfo(host, port, *a, **k):
        if STATE.net is None or not STATE.net.knows(host):
            if STATE.net is not None:
                STATE.net.note_unknown(host, port)
            STATE.escapes.append(f'getaddrinfo {host!r}')
            raise socket.gaierror(-2, 'Name or service not known')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (host, port))]

    class NoSocket(REAL['socket']):
        def connect(self, address):
            refuse(f'connect {address!r}')

        def connect_ex(self, address):
            refuse(f'connect_ex {address!r}')

        def bind(self, address):
            refuse(f'bind {address!r}')

        def sendto(self, *a):
            refuse('sendto')

    socket.create_connection = create_connection
    socket.getaddrinfo = getaddrinfo
    for n in ('gethostbyname', 'gethostbyname_ex', 'gethostbyaddr'):
        setattr(socket, n, lambda h, n=n: refuse(f'{n} {h!r}'))
    socket.socket = NoSocket
    socket.getfqdn = lambda name='': 'simhost'


def install_late():
    """After urllib3 has been imported."""
    import urllib3.util.connection as c
    import urllib3.connection as uc

    def create_connection(address, timeout=None, source_address=None, socket_options=None):
        if STATE.net is None:
            STATE.escapes.append(f'connect {address!r}')
            raise OSError(101, 'simulation: no network')
        return STATE.net.connect(address)

    c.create_connection = create_connection
    uc.connection.create_connection = create_connection
    uc.HTTPConnection.is_connected = property(
        lambda self: self.sock is not None and not getattr(self.sock, 'peer_closed', lambda: True)())
    import urllib3.util.wait as w
    w.wait_for_read = lambda sock, timeout=None: getattr(sock, 'peer_closed', lambda: False)()
    uc.wait_for_read = w.wait_for_read


def memo_templates():
    """Compiling a template is a pure function of its text and the environment's options: once per text is enough.

    The library makes a new environment per schema, so that without this most of a case is jinja2's compiler.  The text of
    the template is part of the key, so a changed or wrong template is compiled and used like any other."""
    import jinja2
    from jinja2 import nodes
    real = jinja2.Environment.compile
    memo = {}
    opts = ('block_start_string', 'block_end_string', 'variable_start_string', 'variable_end_string', 'comment_start_string',
            'comment_end_string', 'line_statement_prefix', 'line_comment_prefix', 'trim_blocks', 'lstrip_blocks', 'newline_sequence',
            'keep_trailing_newline', 'autoescape', 'optimized', 'sandboxed', 'is_async')

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        if isinstance(source, nodes.Template):
            return real(self, source, name, filename, raw, defer_init)
        try:
            k = (source, name, filename, raw, defer_init, type(self), tuple(sorted(self.extensions)), tuple(sorted(self.filters)),
                 tuple(sorted(self.tests)), tuple(getattr(self, o) for o in opts))
            hash(k)
        except TypeError:
            return real(self, source, name, filename, raw, defer_init)
        if k not in memo:
            memo[k] = real(self, source, name, filename, raw, defer_init)
        return memo[k]

    jinja2.Environment.compile = compile
