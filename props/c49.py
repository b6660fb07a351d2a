# -*- coding: utf-8 -*-
""" C49: long sessions: what has ended is let go """
import gc
import weakref
from hypothesis import strategies as st
from vf import session
from vf.core import Sub, equal, require
from vf.rig import Rig

WARM, MORE = 6, 26
KINDS = ('SentSms', 'ReceivedSms', 'StatusReport', 'Ussd', 'Call', 'IncomingCall')


def living(rig):
    """ objects of the library by kind """
    classes = {getattr(rig.modem_mod, k): k for k in KINDS}
    n = dict.fromkeys(KINDS, 0)
    for o in gc.get_objects():
        k = classes.get(type(o))
        if k:
            n[k] += 1
    return n


def footprint(modem, modules):
    """ number of values kept by the modem object """
    seen, todo, n = set(), [modem.__dict__], 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        n += 1
        if isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
            n += len(o)
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
            n += len(o)
        elif isinstance(o, (str, bytes, bytearray)):
            n += len(o) // 16
        elif isinstance(o, weakref.WeakValueDictionary):
            todo += list(o.items())
        elif type(o).__module__ in modules and hasattr(o, '__dict__') and not isinstance(o, type):
            todo.append(o.__dict__)
    return n


def opened(rig):
    return [p for p in rig.sim.ports if not p.closed and not isinstance(p.device, session.NoDevice)]


class Keeping(session.Reconnecting):
    """ a user that keeps the latest message, report, answer and call """
    def __init__(self, *args, **kw):
        self.latest = {}
        session.Reconnecting.__init__(self, *args, **kw)

    def on_sms(self, sms):
        self.latest['sms'] = sms
        session.Reconnecting.on_sms(self, sms)

    def on_report(self, rep):
        self.latest['report'] = rep
        session.Reconnecting.on_report(self, rep)

    def on_ring(self, call):
        self.latest['ring'] = call
        session.Reconnecting.on_ring(self, call)


def run(case):
    fam, steps, textmode = case
    labels = set()
    rig = Rig(lambda sim: None, max_time=1e7, max_steps=5000000)

    def main():
        s = Keeping(rig, fam[0], labels, 0.01, profile=fam[1])
        s.modem.smsTextMode = textmode
        s.connect()

        def rounds(n):
            for _ in range(n):
                for op, during in steps:
                    s.step(op, op[0], () if op[0] == 'reconnect' else during, check=False)
                    for x in (s.kept, s.rings, s.sms, s.reports, s.want_sms, s.want_reports, s.fatal, rig.sim.errors):
                        del x[:]
                    for x in list(s.store.values()) + list(s.d.store.values()):
                        x.clear()
            s.sim.sleep(60)
            s.op_info('between rounds')
            gc.collect()
            threads = sorted(t.name for t in rig.sim.threads if not t.done)
            ports = len(opened(rig))
            return living(rig), footprint(s.modem, ('gsmmodem.modem', 'gsmmodem.serial_comms')), threads, ports
        objects1, size1, threads1, ports1 = rounds(WARM)
        objects, size, threads, ports = rounds(MORE)
        for k in KINDS:
            require(objects[k] <= 4, '{0} objects of type {1} live on after {2} rounds of {3} and then {4} more, {5} after the first', objects[k], k, WARM, [x[0][0] for x in steps], MORE, objects1[k])
        equal(len(threads), len(threads1), 'threads that live on: %s' % threads)
        require(len(threads) <= 2, 'threads that live on: {0}', threads)
        equal((ports1, ports), (1, 1), 'open ports')
        require(size - size1 < MORE // 2, 'the modem object kept {0} values after {1} rounds, {2} after {3}', size1, WARM, size, WARM + MORE)
        for name, args in (('sendSms', ('112', 'last')), ('sendUssd', ('*101#',))):
            s.d.ussd = [lambda dev, x: dev.answer(['+CUSD: 0,"last",15'])]
            s.latest[name] = getattr(s.modem, name)(*args)
        s.op_arrive('last', 'message', 1, 1, 0)
        s.sim.sleep(3)
        s.modem.close()
        s.sim.sleep(60)
        equal(sorted(t.name for t in rig.sim.threads if not t.done)[1:], [], 'threads after closing')
        equal(opened(rig), [], 'open ports after closing')
        ref = weakref.ref(s.modem)
        s.modem = None
        gc.collect()
        require(ref() is None, 'a closed modem object that is no longer used is kept, by or beside the latest {0}', sorted(s.latest))
    rig.run(main)
    return sorted(labels)


def gen():
    kept = st.tuples(st.sampled_from(['close', 'lost', 'twice', 'unopened', 'fragment']), st.integers(0, 12))
    op = session.op.filter(lambda o: o[0] != 'raise')
    step = st.one_of(st.tuples(op, session.during), st.tuples(op, st.just(())), st.tuples(op, st.just(())), st.tuples(kept.map(lambda k: ('reconnect', k[0], k[1], None, [])), st.just(())))
    return st.tuples(session.modem, st.lists(step, min_size=1, max_size=3), st.booleans())


SUBS = [Sub('long', run, gen, quick=200, thorough=4000, shards=8, guard=240, rule='at least one operation that has an effect')]
