# -*- coding: utf-8 -*-
""" Puts the library, a simulated device and the scheduler together """
import logging
from hypothesis import strategies as st

from . import load
from .core import Violation, require
from .sim import Sim, Deadlock, Bound, SimKill
from .wire import Wire

logging.raiseExceptions = False
logging.disable(logging.CRITICAL)


class Rig(object):
    def __init__(self, make_device, sched=None, trace=None, max_time=36000.0, max_steps=400000, also=None, names=None, extra=None):
        self.sim = Sim(sched, trace, max_steps=max_steps, max_time=max_time)
        self.device = make_device(self.sim)
        shims = self.sim.shims(lambda kw: self.device)
        if extra:
            shims.update(extra)
        kw = {}
        if names:
            kw['names'] = names
        self.ns = load.fresh(shims, **kw)
        self.modem_mod = self.ns['gsmmodem.modem']
        self.exc = self.ns['gsmmodem.exceptions']
        self.serial_mod = self.ns['gsmmodem.serial_comms']
        self.shims = shims
        self.writing = 0
        write = self.serial_mod.SerialComms.write
        rig = self

        def counted(comm, *args, **kw):
            rig.writing += 1
            try:
                return write(comm, *args, **kw)
            finally:
                rig.writing -= 1
        self.serial_mod.SerialComms.write = counted

    def run(self, main):
        """ Runs main() under the scheduler; a deadlock or exceeded bound is a violation """
        try:
            return self.sim.run(main)
        except Deadlock as e:
            raise Violation('deadlock: %s' % e)
        except Bound as e:
            raise Violation('no end: %s' % e)

    def open(self, obj):
        """ Opens the port and starts the reader without the modem initialisation """
        self.serial_mod.SerialComms.connect(obj)

    def modem(self, *args, **kw):
        return self.modem_mod.GsmModem(*(args or ('port',)), **kw)

    def arm(self, sched):
        """ The schedule data applies from here on """
        self.sim.pre = [list(p) for p in sched.get('pre', [])]
        self.sim.order = list(sched.get('order', []))
        self.sim.quiet, self.sim.every = sched.get('quiet', False), sched.get('every')
        self.sim.calm = (lambda: self.writing == 0) if sched.get('urc') else None
        self.sim.pi = self.sim.oi = 0

    def spawn(self, fn, name=None):
        t = self.shims['threading'].Thread(target=fn, name=name)
        t.start()
        return t

    def settle(self, seconds=2.0):
        self.sim.sleep(seconds)

    def deaths(self, allow=()):
        """ no thread died of an exception outside `allow` """
        for name, e, tb in self.sim.errors:
            require(isinstance(e, allow), 'thread {0} died: {1}: {2}\n{3}', name, type(e).__name__, e, tb[-1200:])


def schedules(max_pre=6, max_gap=60, max_order=12):
    """ schedule data: mostly empty or sparse, so that shrinking leads to the plain schedule """
    pre = st.lists(st.tuples(st.one_of(st.integers(0, 8), st.integers(0, max_gap), st.integers(0, max_gap * 8)), st.integers(0, 3)).map(list), max_size=max_pre)
    order = st.lists(st.integers(0, 3), max_size=max_order)
    return st.one_of(st.just({}), st.fixed_dictionaries({'pre': pre, 'order': order}), st.fixed_dictionaries({'order': order}))


def dense(max_pre=10, max_gap=60):
    """ schedules with at least one preemption, for checks whose subject is the interleaving """
    pre = st.lists(st.tuples(st.one_of(st.integers(0, 6), st.integers(0, max_gap)), st.integers(0, 3)).map(list), min_size=1, max_size=max_pre)
    return st.fixed_dictionaries({'pre': pre, 'order': st.lists(st.integers(0, 3), max_size=16), 'quiet': st.booleans(), 'urc': st.booleans()},
                                 optional={'every': st.sampled_from(['release', 'release', 'acquire', 'written', 'set', 'start'])})
