# -*- coding: utf-8 -*-
""" C46: a modem object can be connected again """
from hypothesis import strategies as st
from vf import session
from vf.core import Sub, equal
from vf.rig import Rig, schedules, dense


def run(case):
    fam, latency, textmode, steps, sched = case
    labels = set()
    rig = Rig(lambda sim: None)

    def main():
        s = session.Reconnecting(rig, fam[0], labels, latency, profile=fam[1])
        s.modem.smsTextMode = textmode
        s.connect()
        rig.arm(sched)
        for n, (op, during) in enumerate(steps):
            what = 'step %d %s' % (n, ' '.join(map(str, op[:2])) if op[0] == 'reconnect' else op[0])
            s.step(op, what, () if op[0] == 'reconnect' else during)
        s.op_info('at the end')
        s.modem.close()
        equal(s.modem.alive, False, 'alive at the end')
    rig.run(main)
    rig.deaths((session.CallbackError,))
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels) if any(op[0] == 'reconnect' for op, _ in steps) else []


@st.composite
def gen(draw):
    steps = []
    op = st.tuples(session.op, session.during)
    for _ in range(draw(st.integers(1, 3))):
        steps += draw(st.lists(op, max_size=2))
        steps.append((draw(session.reconnect), ()))
    steps += draw(st.lists(op, min_size=1, max_size=3))
    return draw(session.modem), draw(st.sampled_from([0.01, 0.0, 0.05])), draw(st.booleans()), steps, draw(st.one_of(schedules(), schedules(), dense()))


SUBS = [Sub('reconnect', run, gen, quick=2500, thorough=60000, shards=8, rule='at least one reconnection')]
