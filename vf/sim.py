# -*- coding: utf-8 -*-
""" Deterministic cooperative scheduler with a virtual clock, and stand-ins for threading / time / serial / queue built on it.

Every simulated thread is an OS thread, but only the one holding the baton runs. Control can change at every lock, event,
condition, sleep and serial-port operation (and, with trace='line'/'opcode', between the lines/byte codes of the library);
which thread runs is decided by the case's schedule data:
    {'pre': [(gap, pick), ...],   preempt after `gap` further scheduling points, in favour of the pick-th other runnable thread
     'quiet': True,               count only lock, event, thread and write operations as points for 'pre', not every character read
     'urc': True,                 unsolicited input may arrive at the points of preemption, too (between two commands)
     'every': 'release',          additionally preempt at every point of that kind
     'order': [n, ...]}           which runnable thread continues when the running one blocks (0 = default)
Virtual time passes only when no thread can run. Port input is made available by timed events; unsolicited input is taken
over by the reading thread before anything else runs (see device.py for when it is emitted). """
import _thread, heapq, os, queue as _real_queue, sys, threading as _real_threading, time as _real_time, traceback, types

from .core import HarnessError, Violation
from .runner import REPO

EPOCH = 1700000000.0


class SimKill(BaseException):
    """ Unwinds a simulated thread at the end of a case """


class Deadlock(Exception):
    pass


class Bound(Exception):
    pass


class _Thr(object):
    __slots__ = ('id', 'name', 'baton', 'pred', 'deadline', 'done', 'started', 'fn', 'timed_out', 'obj', 'exc')

    def __init__(self, id, name, fn):
        self.id, self.name, self.fn = id, name, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.started = False
        self.timed_out = False
        self.obj = None
        self.exc = None


class Sim(object):
    def __init__(self, sched=None, trace=None, max_steps=400000, max_time=36000.0):
        sched = sched or {}
        self.now = EPOCH
        self.pre = [list(p) for p in sched.get('pre', [])]
        self.order = list(sched.get('order', []))
        self.quiet, self.every = sched.get('quiet', False), sched.get('every')
        self.calm = None             # set: function telling whether no thread is in the middle of a command
        self.pi = self.oi = 0
        self.threads = []
        self.heap = []
        self.seq = 0
        self.current = None
        self.exclusive = None
        self.steps = 0
        self.points = 0
        self.preempted = 0
        self.max_steps, self.max_end = max_steps, EPOCH + max_time
        self.trace = trace
        self.killing = False
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.outcome = None          # exception of the harness main function / scheduler
        self.errors = []             # (thread name, exception, traceback text) of threads other than main
        self.deferred = []           # conditional events (unsolicited input)
        self.ports = []
        self.finished = False
        self.log = []                # free-form event log used by checks

    # ---- controller side
    def run(self, main):
        """ Runs main() as the first simulated thread; returns when it is done (others are unwound). Re-raises its exception. """
        box = {}

        def body():
            box['result'] = main()
        t = self._new('main', body)
        self.current = t
        self._launch(t)
        t.baton.release()
        self.over.acquire()
        self.finished = True
        self._unwind()
        if self.outcome is not None:
            raise self.outcome
        if t.exc is not None:
            raise t.exc
        return box.get('result')

    def _unwind(self):
        self.killing = True
        for t in list(self.threads):
            n = 0
            while t.started and not t.done:
                t.baton.release()
                if not self.over.acquire(timeout=20):
                    raise HarnessError('a simulated thread did not unwind: %s' % t.name)
                n += 1
                if n > 1000:
                    raise HarnessError('a simulated thread keeps running: %s' % t.name)

    def _new(self, name, fn):
        t = _Thr(len(self.threads), name, fn)
        self.threads.append(t)
        return t

    def _launch(self, t):
        t.started = True
        _thread.start_new_thread(self._bootstrap, (t,))

    def _bootstrap(self, t):
        t.baton.acquire()
        try:
            if not self.killing:
                if self.trace:
                    sys.settrace(self._tracer)
                t.fn()
        except SimKill:
            pass
        except BaseException as e:
            t.exc = e
            if t.id != 0:
                self.errors.append((t.name, e, traceback.format_exc()))
        finally:
            sys.settrace(None)
            t.done = True
            if self.killing:
                self.over.release()
            elif t.id == 0:
                self.over.release()
            else:
                try:
                    nxt = self._pick(t)
                except (Deadlock, Bound) as e:
                    self.outcome = e
                    self.over.release()
                else:
                    self.current = nxt
                    nxt.baton.release()

    # ---- thread side
    def spawn(self, fn, name=None):
        t = self._new(name or 'thread-%d' % len(self.threads), fn)
        self._launch(t)
        return t

    def _runnable(self, t):
        if t.done or not t.started:
            return False
        if t.pred is None and t.deadline is None:
            return True
        if t.pred is not None and t.pred():
            return True
        return t.deadline is not None and t.deadline <= self.now

    def _pick(self, cur):
        """ The thread to run next; advances the clock while there is none """
        while True:
            ex = self.exclusive
            if ex is not None:
                if ex.done:
                    self.exclusive = None
                elif self._runnable(ex):
                    return ex
            n = len(self.threads)
            start = cur.id + 1
            run = []
            for i in range(n):
                t = self.threads[(start + i) % n]
                if self._runnable(t):
                    run.append(t)
            if run:
                c = 0
                if len(run) > 1:
                    if self.oi < len(self.order):
                        c = self.order[self.oi]
                        self.oi += 1
                return run[c % len(run)]
            if self._advance():
                continue

    def _advance(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Bound('the case took more than %d steps' % self.max_steps)
        for i, (cond, fn) in enumerate(self.deferred):
            if cond():
                del self.deferred[i]
                fn()
                return True
        nxt = self.heap[0][0] if self.heap else None
        for t in self.threads:
            if not t.done and t.deadline is not None and (nxt is None or t.deadline < nxt):
                nxt = t.deadline
        if nxt is None:
            raise Deadlock('nothing can happen any more: ' + ', '.join(
                '%s waiting' % t.name for t in self.threads if not t.done))
        if nxt > self.max_end:
            raise Bound('the case takes more than %d s of virtual time' % (self.max_end - EPOCH))
        self.now = max(self.now, nxt)
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.heap)
            fn()
            break                      # one event at a time
        return True

    def _switch(self, nxt):
        me = self.current
        if nxt is not me:
            self.current = nxt
            nxt.baton.release()
            me.baton.acquire()
            if self.killing:
                raise SimKill()

    def block(self, pred=None, timeout=None):
        """ Waits until pred() is true or `timeout` virtual seconds have passed; returns whether pred() is true """
        if self.killing:
            raise SimKill()
        me = self.current
        if pred is not None and pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        me.pred = pred
        me.deadline = None if timeout is None else self.now + timeout
        try:
            nxt = self._pick(me)
        except (Deadlock, Bound) as e:
            self.outcome = e
            self.over.release()
            me.baton.acquire()
            raise SimKill()
        try:
            self._switch(nxt)
        finally:
            me.pred = me.deadline = None
        return bool(pred()) if pred is not None else False

    def point(self, kind=None):
        """ A scheduling point: the running thread may be preempted here """
        if self.killing:
            raise SimKill()
        self.points += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.outcome = Bound('the case took more than %d steps' % self.max_steps)
            self.over.release()
            self.current.baton.acquire()
            raise SimKill()
        if kind == self.every and kind is not None:
            pick = 0
        elif self.pi >= len(self.pre) or self.quiet and kind in ('read', 'is_set', 'inWaiting'):
            return
        else:
            p = self.pre[self.pi]
            if p[0] > 0:
                p[0] -= 1
                return
            self.pi += 1
            pick = p[1]
        if self.exclusive is not None:
            return
        me = self.current
        if self.calm is not None and self.deferred and self.calm():
            for i, (cond, fn) in enumerate(self.deferred):
                if cond():
                    del self.deferred[i]
                    fn()
                    self.preempted += 1
                    if self.exclusive is not None and self.exclusive is not me and self._runnable(self.exclusive):
                        self._switch(self.exclusive)
                    return
        n = len(self.threads)
        others = [t for t in (self.threads[(me.id + 1 + i) % n] for i in range(n - 1)) if self._runnable(t)]
        if others:
            self.preempted += 1
            self._switch(others[pick % len(others)])

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO):
            return None
        if self.trace == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_tracer

    def _local_tracer(self, frame, event, arg):
        if event in ('line', 'opcode') and not self.killing and self.pi < len(self.pre):
            self.point(event)
        return self._local_tracer

    # ---- events
    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0.0, delay), self.seq, fn))

    def when(self, cond, fn):
        """ fn() at the first moment no thread can run and cond() holds """
        self.deferred.append((cond, fn))

    def sleep(self, dt):
        self.point('sleep')
        if dt > 0:
            self.block(None, dt)

    # ---- stand-in modules
    def shims(self, port_factory):
        s = {'threading': self.threading_module(), 'time': self.time_module(), 'serial': serial_module(self, port_factory)}
        s['queue'] = s['Queue'] = self.queue_module(s['threading'], s['time'])
        return s

    def time_module(self):
        sim = self
        m = types.ModuleType('time')
        for k in dir(_real_time):
            if not k.startswith('__'):
                setattr(m, k, getattr(_real_time, k))
        m.sleep = sim.sleep
        m.time = lambda: sim.now
        m.monotonic = m.perf_counter = m.process_time = lambda: sim.now - EPOCH
        m.time_ns = lambda: int(sim.now * 1e9)
        m.monotonic_ns = m.perf_counter_ns = lambda: int((sim.now - EPOCH) * 1e9)
        m.gmtime = lambda s=None: _real_time.gmtime(sim.now if s is None else s)
        m.localtime = lambda s=None: _real_time.localtime(sim.now if s is None else s)
        return m

    def queue_module(self, thr, tim):
        m = types.ModuleType('queue')
        src = open(_real_queue.__file__, encoding='utf-8').read()
        saved = {n: sys.modules.get(n) for n in ('threading', 'time', '_queue')}
        try:
            sys.modules['threading'], sys.modules['time'] = thr, tim
            sys.modules['_queue'] = None
            exec(compile(src, _real_queue.__file__, 'exec'), m.__dict__)
        finally:
            for n, v in saved.items():
                if v is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = v
        return m

    def threading_module(self):
        sim = self
        m = types.ModuleType('threading')

        class Lock(object):
            def __init__(self):
                self._owner = None

            def acquire(self, blocking=True, timeout=-1):
                sim.point('acquire')
                if self._owner is None:
                    self._owner = sim.current
                    return True
                if not blocking:
                    return False
                if sim.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    self._owner = sim.current
                    return True
                return False

            def release(self):
                if self._owner is None:
                    if sim.killing:
                        return
                    raise RuntimeError('release unlocked lock')
                self._owner = None
                if not sim.killing:
                    sim.point('release')

            def locked(self):
                return self._owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

        class RLock(object):
            def __init__(self):
                self._owner, self._count = None, 0

            def acquire(self, blocking=True, timeout=-1):
                sim.point('acquire')
                me = sim.current
                if self._owner is me:
                    self._count += 1
                    return True
                if self._owner is None:
                    self._owner, self._count = me, 1
                    return True
                if not blocking:
                    return False
                if sim.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    self._owner, self._count = me, 1
                    return True
                return False

            def release(self):
                if self._owner is not sim.current:
                    if sim.killing:
                        return
                    raise RuntimeError('cannot release un-acquired lock')
                self._count -= 1
                if self._count == 0:
                    self._owner = None
                    if not sim.killing:
                        sim.point('release')

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

            def _is_owned(self):
                return self._owner is sim.current

            def _release_save(self):
                st, self._owner, self._count = (self._owner, self._count), None, 0
                return st

            def _acquire_restore(self, st):
                sim.block(lambda: self._owner is None)
                self._owner, self._count = st

        class Condition(object):
            def __init__(self, lock=None):
                self._lock = lock if lock is not None else RLock()
                self.acquire, self.release = self._lock.acquire, self._lock.release
                self._waiters = []

            def __enter__(self):
                return self._lock.__enter__()

            def __exit__(self, *a):
                return self._lock.__exit__(*a)

            def wait(self, timeout=None):
                tok = [False]
                self._waiters.append(tok)
                rl = hasattr(self._lock, '_release_save')
                st = self._lock._release_save() if rl else None
                if not rl:
                    self._lock._owner = None
                try:
                    ok = sim.block(lambda: tok[0], timeout)
                finally:
                    if tok in self._waiters:
                        self._waiters.remove(tok)
                    if not sim.killing:
                        if rl:
                            self._lock._acquire_restore(st)
                        else:
                            self._lock.acquire()
                return ok

            def wait_for(self, predicate, timeout=None):
                end = None if timeout is None else sim.now + timeout
                r = predicate()
                while not r:
                    left = None
                    if end is not None:
                        left = end - sim.now
                        if left <= 0:
                            break
                    self.wait(left)
                    r = predicate()
                return r

            def notify(self, n=1):
                for tok in self._waiters[:n]:
                    tok[0] = True
                del self._waiters[:n]

            def notify_all(self):
                self.notify(len(self._waiters))
            notifyAll = notify_all

        class Event(object):
            def __init__(self):
                self._flag = False

            def is_set(self):
                sim.point('is_set')
                return self._flag
            isSet = is_set

            def set(self):
                self._flag = True
                sim.point('set')

            def clear(self):
                self._flag = False
                sim.point('clear')

            def wait(self, timeout=None):
                sim.point('wait')
                if self._flag:
                    return True
                sim.block(lambda: self._flag, timeout)
                return self._flag

        class Semaphore(object):
            def __init__(self, value=1):
                self._value = value

            def acquire(self, blocking=True, timeout=None):
                sim.point('acquire')
                if self._value == 0 and (not blocking or not sim.block(lambda: self._value > 0, timeout)):
                    return False
                self._value -= 1
                return True

            def release(self, n=1):
                self._value += n
                if not sim.killing:
                    sim.point('release')

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        counter = [0]

        class Thread(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                counter[0] += 1
                self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
                self.name = name or 'Thread-%d' % counter[0]
                self.daemon = bool(daemon)
                self._t = None
                self.ident = None

            def start(self):
                if self._t is not None:
                    raise RuntimeError('threads can only be started once')
                self._t = sim.spawn(self.run, self.name)
                self._t.obj = self
                self.ident = self._t.id + 1
                sim.point('start')

            def run(self):
                try:
                    if self._target:
                        self._target(*self._args, **self._kwargs)
                finally:
                    self._target = self._args = self._kwargs = None

            def join(self, timeout=None):
                if self._t is None:
                    raise RuntimeError('cannot join thread before it is started')
                if self._t is sim.current:
                    raise RuntimeError('cannot join current thread')
                sim.point('join')
                sim.block(lambda: self._t.done, timeout)

            def is_alive(self):
                sim.point('is_alive')
                return self._t is not None and not self._t.done
            isAlive = is_alive

            def getName(self):
                return self.name

            def setName(self, n):
                self.name = n

            def setDaemon(self, d):
                self.daemon = d

            def isDaemon(self):
                return self.daemon

        class Timer(Thread):
            def __init__(self, interval, function, args=None, kwargs=None):
                Thread.__init__(self)
                self.interval, self.function = interval, function
                self.args, self.kwargs = args or [], kwargs or {}
                self.finished = Event()

            def cancel(self):
                self.finished.set()

            def run(self):
                self.finished.wait(self.interval)
                if not self.finished.is_set():
                    self.function(*self.args, **self.kwargs)
                self.finished.set()

        class _Main(Thread):
            def __init__(self, t):
                Thread.__init__(self, name='MainThread' if t.id == 0 else t.name)
                self._t = t
                self.ident = t.id + 1

        def current_thread():
            t = sim.current
            if t.obj is None:
                t.obj = _Main(t)
            return t.obj

        class local(object):
            def __getattribute__(self, k):
                d = object.__getattribute__(self, '__dict__').setdefault(sim.current.id, {})
                if k == '__dict__':
                    return d
                try:
                    return d[k]
                except KeyError:
                    raise AttributeError(k)

            def __setattr__(self, k, v):
                object.__getattribute__(self, '__dict__').setdefault(sim.current.id, {})[k] = v

            def __delattr__(self, k):
                del object.__getattribute__(self, '__dict__').setdefault(sim.current.id, {})[k]

        m.Lock, m.RLock, m.Condition, m.Event, m.Semaphore, m.BoundedSemaphore = Lock, RLock, Condition, Event, Semaphore, Semaphore
        m.Thread, m.Timer, m.local = Thread, Timer, local
        m.current_thread = m.currentThread = current_thread
        m.main_thread = lambda: current_thread() if sim.current.id == 0 else _Main(sim.threads[0])
        m.get_ident = lambda: sim.current.id + 1
        m.enumerate = lambda: [t.obj or _Main(t) for t in sim.threads if t.started and not t.done]
        m.active_count = m.activeCount = lambda: len([t for t in sim.threads if t.started and not t.done])
        m.TIMEOUT_MAX = _real_threading.TIMEOUT_MAX
        m.ThreadError = RuntimeError
        m.excepthook = _real_threading.excepthook
        m.settrace = m.setprofile = lambda f: None
        return m


class Bytes(object):
    """ while on, ports exchange bytes as those of pyserial on Python 3 do (off: text, as in the repository's tests) """
    on = False
    unfit = False                # a character without a byte of its own was to be transmitted


class Port(object):
    """ Simulated serial port; the device writes to it with .rx_put() and receives what is written through on_write(data) """
    def __init__(self, sim, device, timeout=None, line={}):
        self.sim, self.device, self.timeout = sim, device, timeout
        # the device uses 8 data bits, no parity, one stop bit and no flow control
        self.mask = (1 << line.get('bytesize', 8)) - 1
        self.top = 0 if line.get('parity', 'N') == 'N' else 128
        self.drop = '\x11\x13' if line.get('xonxoff') else ''
        self.altered = self.mask != 255 or self.top or self.drop
        self.rx = []
        self.rpos = 0
        self.closed = False
        self.close_calls = 0
        self.fail_read = None        # exception to raise by the next read
        self.fail_write = None
        self.fail_waiting = None     # [n, exception]: raised by the n-th next inWaiting()
        self.read_count = 0
        self.fail_after = None       # (n, exception): raise once n characters have been read
        self.reader = None           # thread that reads
        sim.ports.append(self)

    def passed(self, text):
        return ''.join(chr(ord(c) & self.mask | self.top) for c in text if c not in self.drop) if self.altered else text

    # ---- device side
    def rx_put(self, text, exclusive=False):
        text = self.passed(text)
        if not text:
            return
        if Bytes.on and any(ch > '\xff' for ch in text):
            Bytes.unfit = True
        self.rx.append(text)
        if exclusive and self.reader is not None and not self.reader.done:
            self.sim.exclusive = self.reader

    def pending(self):
        return sum(len(x) for x in self.rx) - self.rpos

    # ---- library side
    def _ready(self):
        if self.closed or self.fail_read is not None or self.fail_after is not None and self.read_count >= self.fail_after[0]:
            return True
        return bool(self.rx)

    def read(self, size=1):
        sim = self.sim
        self.reader = sim.current
        if not self.rx and sim.exclusive is sim.current:
            sim.exclusive = None
        sim.point('read')
        out = ''
        end = None if self.timeout is None else sim.now + self.timeout
        while len(out) < size:
            if not self._ready():
                if sim.exclusive is sim.current:
                    sim.exclusive = None
                left = None if end is None else end - sim.now
                if not sim.block(self._ready, left):
                    break
            if self.closed:
                if out:
                    break
                raise self.device.SerialException('the port is closed')
            if self.fail_after is not None and self.read_count >= self.fail_after[0]:
                self.fail_read, self.fail_after = self.fail_after[1], None
            if self.fail_read is not None:
                e, self.fail_read = self.fail_read, None
                raise e
            if self.rx:
                s = self.rx[0]
                out += s[self.rpos]
                self.rpos += 1
                self.read_count += 1
                if self.rpos == len(s):
                    self.rx.pop(0)
                    self.rpos = 0
        return out.encode('latin-1', 'replace') if Bytes.on else out

    def inWaiting(self):
        self.sim.point('inWaiting')
        if self.closed:
            raise self.device.SerialException('the port is closed')
        if self.fail_waiting is not None:
            self.fail_waiting[0] -= 1
            if self.fail_waiting[0] < 0:
                e, self.fail_waiting = self.fail_waiting[1], None
                raise e
        return self.pending()

    @property
    def in_waiting(self):
        return self.inWaiting()

    def readline(self, size=None, eol='\n'):
        out = b'' if Bytes.on else ''
        while not out.endswith(eol.encode() if Bytes.on else eol):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def write(self, data):
        if Bytes.on and isinstance(data, str):
            if any(ch > '\xff' for ch in data):
                Bytes.unfit = True
            raise TypeError('unicode strings are not supported, please encode to bytes: {!r}'.format(data))
        self.sim.point('write')
        if self.closed:
            raise self.device.SerialException('the port is closed')
        if self.fail_write is not None:
            e = self.fail_write
            self.fail_write = None
            raise e
        if isinstance(data, (bytes, bytearray)):
            data = data.decode('latin-1')
        self.device.on_write(self.passed(data))
        self.sim.point('written')
        return len(data)

    def flush(self):
        pass

    def flushInput(self):
        self.rx, self.rpos = [], 0
    reset_input_buffer = flushInput

    def flushOutput(self):
        pass
    reset_output_buffer = flushOutput

    def isOpen(self):
        return not self.closed

    @property
    def is_open(self):
        return not self.closed

    def open(self):
        self.closed = False

    def close(self):
        self.closed = True
        self.close_calls += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def serial_module(sim, port_factory):
    """ port_factory(kwargs) -> device object (with on_write(data), attach(port)) or raises """
    m = types.ModuleType('serial')

    class SerialException(IOError):
        pass

    class SerialTimeoutException(SerialException):
        pass
    m.SerialException, m.SerialTimeoutException = SerialException, SerialTimeoutException
    m.PARITY_NONE, m.STOPBITS_ONE, m.EIGHTBITS = 'N', 1, 8
    m.FIVEBITS, m.SIXBITS, m.SEVENBITS = 5, 6, 7
    m.VERSION = '2.7'

    def Serial(port=None, baudrate=9600, *a, **kw):
        kw = dict(kw, port=port, baudrate=baudrate)
        dev = port_factory(kw)
        dev.SerialException = SerialException
        dev.opened = (port, baudrate)
        p = Port(sim, dev, kw.get('timeout'), kw)
        dev.attach(p)
        return p
    m.Serial = Serial
    return m


def require_alive(sim, allow=()):
    """ No thread other than those whose error type is in `allow` died from an exception """
    for name, e, tb in sim.errors:
        if not isinstance(e, allow):
            raise Violation('thread %s died: %s: %s\n%s' % (name, type(e).__name__, e, tb[-1500:]))
