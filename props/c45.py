# -*- coding: utf-8 -*-
""" C45: the features do not disturb each other """
from hypothesis import strategies as st
from vf import device, session
from vf.core import Sub, require
from vf.rig import Rig, schedules, dense


def run(case):
    fams, latency, steps, sched = case
    labels = set()
    rig = Rig(lambda sim: None)
    out = []

    def main():
        ss = [session.Session(rig, fam[0], labels, latency, 'modem %d: ' % i if len(fams) > 1 else '', fam[1]) for i, fam in enumerate(fams)]
        for s in ss:
            s.connect()
        rig.arm(sched)
        for n, (which, op, during, at_once) in enumerate(steps):
            what = 'step %d %s' % (n, op[0])
            s, o = ss[which % len(ss)], ss[(which + 1) % len(ss)]
            if at_once is not None and o is not s:
                # an operation on each modem at the same time
                what += ' and %s at the same time' % at_once[0]
                failed = []

                def user(who, *args):
                    try:
                        who.step(*args)
                    except Exception as e:
                        failed.append(e)
                ts = [rig.spawn(lambda: user(s, op, what, during, False)), rig.spawn(lambda: user(o, at_once, what, during[::-1], False))]
                for t in ts:
                    t.join()
                if failed:
                    raise failed[0]
                labels.add('two operations at once')
                s.check(s.name + what)
            else:
                s.step(op, what, during)
            if o is not s:
                o.check(o.name + what)
        for s in ss:
            s.op_info(s.name + 'at the end')
            s.modem.close()
        out.append(ss)
    rig.run(main)
    rig.deaths((session.CallbackError,))
    if len(fams) > 1:
        labels.add('two modems')
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels) if len(set(op[0] for _, op, _, _ in steps)) > 1 else []


def gen():
    step = st.tuples(st.integers(0, 1), session.op, session.during, st.one_of(st.none(), session.op))
    fam = session.modem
    return st.tuples(st.one_of(st.lists(fam, min_size=1, max_size=1), st.lists(fam, min_size=1, max_size=1), st.lists(fam, min_size=2, max_size=2)), st.sampled_from([0.01, 0.0, 0.05]),
                     st.lists(step, min_size=2, max_size=14), st.one_of(schedules(), dense()))


SUBS = [Sub('sessions', run, gen, quick=2500, thorough=60000, shards=8, rule='at least two different operations')]
