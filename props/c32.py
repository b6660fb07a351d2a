# -*- coding: utf-8 -*-
""" C32: waiting for network coverage ends with a signal or the right error """
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

FAM = sorted(profiles.FAMILIES)
REPORT = {'plain': '+CREG: %d,%d', 'tight': '+CREG:%d,%d', 'location': '+CREG: %d,%d,"00A1","0B2C"', 'access': '+CREG: %d,%d,"00A1","0000B2CD",7'}
SILENT = {'unsupported': None, 'garbage': '+CREG registered', 'only mode': '+CREG: 0'}


def value_at(timeline, t):
    v = timeline[0][1]
    for at, x in timeline:
        if t >= at:
            v = x
    return v


def run(case):
    fam, style, mode, status, signal, limit, latency, again, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profiles.FAMILIES[fam]), latency))
    d, exc = rig.device, rig.exc
    labels = set()

    def main():
        m = rig.modem()
        m.connect()
        rig.arm(sched)
        for turn in range(2 if again else 1):
            t0 = rig.sim.now
            asked = []

            def creg():
                s = value_at(status, rig.sim.now - t0)
                asked.append((rig.sim.now - t0, 'creg', s))
                return REPORT[style] % (mode, s) if style in REPORT else SILENT[style]

            def csq():
                s = value_at(signal, rig.sim.now - t0)
                asked.append((rig.sim.now - t0, 'csq', s))
                return s, 99
            d.creg, d.signal = creg, csq
            if style == 'unsupported':
                d.supports.discard('CREG')
            outcome = value = None

            def wait():
                try:
                    return 'signal', m.waitForNetworkCoverage(limit) if limit is not None else m.waitForNetworkCoverage()
                except exc.TimeoutException:
                    return 'timeout', None
                except exc.InvalidStateException:
                    return 'refused', None
            done = []
            threads = len([t for t in rig.sim.threads if not t.done])
            waiter = rig.spawn(lambda: done.append(wait()))
            last = max(status[-1][0] if style in REPORT else 0, signal[-1][0])
            horizon = max(last, limit or 0) + 60
            waiter.join(horizon)
            what = 'waiting with limit %r' % limit
            # the decisive moments, from the timelines
            reports = style in REPORT
            moments = sorted(set([0.0] + [a for a, _ in status] + [a for a, _ in signal]))
            registered_at = min([a for a in moments if value_at(status, a) in (1, 5)], default=None) if reports else 0.0
            final_good = registered_at is not None and 0 < signal[-1][1] < 99
            t = rig.sim.now - t0
            if not done:
                require(limit is None, '{0}: still waiting after {1:.1f} s', what, t)
                require(not final_good and not (registered_at is None and status[-1][1] in (0, 3)), '{0}: still waiting after {1:.1f} s', what, t)
                labels.add('waits without limit')
                # the network appears in the end: it must not have given up
                d.creg = lambda: REPORT[style] % (mode, 1) if style in REPORT else SILENT[style]
                d.signal = lambda: (17, 99)
                waiter.join(20)
                require(done == [('signal', 17)], '{0}: once there is a network: {1}', what, done)
                continue
            outcome, value = done[0]
            if outcome == 'signal':
                require(value == asked[-1][2] and asked[-1][1] == 'csq' and 0 < value < 99, '{0}: returned {1}, last answers {2}', what, value, asked[-3:])
                if reports:
                    require(any(k == 'creg' and s in (1, 5) for _, k, s in asked), '{0}: returned {1} although the modem was never registered: {2}', what, value, asked[-6:])
                labels.add('signal')
                if t > 3:
                    labels.add('signal after waiting')
                if not reports:
                    labels.add('registration not reported')
            elif outcome == 'refused':
                require(reports and asked[-1][1] == 'creg' and asked[-1][2] in (0, 3), '{0}: InvalidStateException after {1}', what, asked[-3:])
                labels.add('not allowed' if asked[-1][2] == 3 else 'not searching')
                if style not in ('plain', 'tight'):
                    labels.add('with location')
            else:
                require(limit is not None, '{0}: TimeoutException without a limit', what)
                require(t >= limit - 1e-6, '{0}: TimeoutException after {1:.2f} s', what, t)
                labels.add('timeout')
                if limit > 5:
                    labels.add('long limit')
            if limit is not None:
                require(t <= limit + 2 + 4 * latency + 0.3, '{0}: ended after {1:.2f} s only', what, t)
            # as soon as: no answer before the last one was decisive, and polling went on about once a second
            for (a, k, s), nxt in zip(asked, asked[1:]):
                require(not (k == 'csq' and 0 < s < 99), '{0}: went on after signal {1}', what, s)
                require(not (reports and k == 'creg' and s in (0, 3)), '{0}: went on after registration state {1}', what, s)
                require(nxt[0] - a <= 2 + 4 * latency + 0.3, '{0}: {1:.1f} s between two queries', what, nxt[0] - a)
            for i, (a, k, s) in enumerate(asked):
                if reports and k == 'csq':
                    require(any(k2 == 'creg' and s2 in (1, 5) for _, k2, s2 in asked[:i]), '{0}: signal asked for before the modem was registered', what)
                if reports and k == 'creg' and s in (1, 5):
                    require(i + 1 == len(asked) or asked[i + 1][1] == 'csq', '{0}: registration asked for again', what)
                if not reports and i:
                    require(k == 'csq', '{0}: registration asked for again although it is not reported', what)
            rig.sim.sleep(0.5)
            left = [t.name for t in rig.sim.threads if not t.done]
            require(len(left) <= threads, '{0}: threads left running after {1}: {2}', what, outcome, left)
        m.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels)


@st.composite
def gen(draw):
    gaps = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 5.0]), st.floats(0.1, 20).map(lambda x: round(x, 2)))

    def timeline(values, n):
        t, out = 0.0, []
        for _ in range(draw(st.integers(1, n))):
            out.append((t, draw(values)))
            t += draw(gaps)
        return out
    status = timeline(st.sampled_from([2, 2, 4, 2]), 3)
    status[-1] = (status[-1][0], draw(st.sampled_from([1, 5, 1, 5, 0, 3, 2])))
    signal = timeline(st.sampled_from([0, 99, 99, 0]), 4)
    if draw(st.integers(0, 3)):
        signal.append((signal[-1][0] + draw(gaps), draw(st.one_of(st.integers(1, 31), st.sampled_from([1, 31, 98])))))
    limit = draw(st.one_of(st.none(), st.sampled_from([1, 2, 5, 0.5, 10, 30, 0, 0.0]), st.floats(0.1, 60).map(lambda x: round(x, 2)), st.integers(1, 40)))
    style = draw(st.sampled_from(['plain', 'plain', 'plain', 'tight', 'location', 'access', 'unsupported', 'garbage', 'only mode']))
    return (draw(st.sampled_from(FAM)), style, draw(st.sampled_from([0, 1, 2])), status, signal, limit, draw(st.sampled_from([0.01, 0.0, 0.1])), draw(st.booleans()), draw(schedules()))


SUBS = [Sub('timelines', run, gen, quick=5000, thorough=150000, shards=7, rule='every case waits for coverage at least once')]
