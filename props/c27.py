# -*- coding: utf-8 -*-
""" C27: outgoing call objects track the real call on every modem type """
from hypothesis import strategies as st
from vf import device, profiles, session
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

FAM = sorted(profiles.FAMILIES)


class Track(object):
    def __init__(self, number):
        self.number = number
        self.dev = self.call = None
        self.state = 'new'           # new -> dialling -> answered -> ended
        self.remote = []             # expected callbacks so far: 'answered', 'ended'
        self.seen = []
        self.local = False


def run(case):
    fam, opts, latency, callback, ops, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **dict(profiles.FAMILIES[fam], **opts)), latency))
    d, exc = rig.device, rig.exc
    family = d.p['family']
    polled = family == 'generic'
    slack = 1.3 if polled else 0.3
    labels = set()
    tracks = []

    def main():
        modem = rig.modem(incomingCallCallbackFunc=incoming.append)
        modem.connect()
        rig.arm(sched)
        hangups = [0]

        def watch(t):
            def status(call):
                t.seen.append(('answered' if call.answered else 'ended', call, call.active, modem.activeCalls.get(call.id) is call))
                if callback == 'raises' and not t.local:
                    labels.add('callback raises')
                    raise session.CallbackError('raised by the callback')
            return status

        def live():
            return [t for t in tracks if t.state in ('dialling', 'answered')]

        def check(what):
            for i, t in enumerate(tracks):
                if t.call is None:
                    continue
                w = '%s: call %d' % (what, i)
                equal((t.call.answered, t.call.active), (t.state == 'answered', t.state != 'ended'), w + ' (answered, active)')
                require((modem.activeCalls.get(t.call.id) is t.call) == (t.state != 'ended'), '{0}: listed among the active calls: {1}', w, t.state == 'ended')
                if callback:
                    want = list(t.remote)
                    got = [s[0] for s in t.seen]
                    if t.local:
                        got = got[:len(want)] + [g for g in got[len(want):] if g != 'ended']
                    equal(got, want, w + ': status callbacks')
                    for kind, call, active, listed in t.seen[:len(want)]:
                        require(call is t.call, '{0}: callback with another call', w)
                        equal((active, listed), (kind == 'answered',) * 2, w + ': (active, listed) as seen by the callback for %r' % kind)
            known = [t.call for t in live()] + incoming
            equal([(c.answered, c.active) for c in incoming], [(a, True) for a in answered], what + ': incoming calls (answered, active)')
            for c in modem.activeCalls.values():
                require(any(c is k for k in known), '{0}: unknown active call {1}', what, c.number)
            equal(d.hangups, hangups[0], what + ': hang-up commands sent')

        for n, op in enumerate(ops):
            what = 'step %d %s' % (n, op[0])
            kind = op[0]
            if kind == 'incoming':
                if live() or incoming:
                    continue
                c = d.new_call(1, op[1], 4)
                d.urc('\r\n+CRING: VOICE\r\n\r\n+CLIP: "%s",129,,,,0\r\n' % op[1])
                rig.sim.sleep(1)
                require(len(incoming) == 1, '{0}: {1} incoming calls announced', what, len(incoming))
                if op[2]:
                    incoming[0].answer()
                    equal(c['state'], 0, what + ': state of the incoming call')
                answered.append(op[2])
                labels.add('incoming call active' if op[2] else 'incoming call ringing')
            elif kind == 'dial':
                if any(t.state == 'dialling' for t in live()) or len(live()) > 1 or live() and incoming:
                    continue
                _, number, timeout, delay, progress, quick, gaps, together, how, ctype = op
                t = Track(number)
                tracks.append(t)

                def plan(dev, call):
                    t.dev = call
                    call['type'] = ctype
                    call['hidden'] = True
                    if how == 'never':
                        return
                    steps = [dev.call_started] + ([dev.call_progress] if progress else [])
                    if quick in ('answer', 'answer end'):
                        steps.append(dev.call_answered)
                    if quick in ('end', 'answer end'):
                        steps.append(dev.call_ended)
                    start = dev.latency + delay

                    def go(todo):
                        text = todo[0](call)
                        while together and len(todo) > 1 and not (polled and todo[1] == dev.call_ended):     # polling can not see that
                            todo = todo[1:]
                            text += todo[0](call)
                        if text:
                            dev.urc(text)
                        if len(todo) > 1:
                            rig.sim.at(gaps[len(todo) % 2] + (1.3 if polled else 0), lambda: go(todo[1:]))
                    rig.sim.at(start, lambda: go(steps))
                bad = how in ('silent', 'ERROR', '+CME ERROR: 30', '+CMS ERROR: 500', 'NO CARRIER')
                if bad and family == 'zte' or how == 'never' and family == 'zte':
                    tracks.pop()
                    continue
                d.dial_plan = [how if bad else plan]
                kw = {'callStatusUpdateCallbackFunc': watch(t)} if callback else {}
                t0, error = rig.sim.now, None
                try:
                    t.call = modem.dial(number, timeout=timeout, **kw)
                except Exception as e:
                    error = e
                took = rig.sim.now - t0
                equal(d.dialled[-1], number, what + ': number dialled')
                late = family != 'zte' and not bad and (how == 'never' or delay > timeout)
                if bad and family in ('generic', 'huawei') and how not in ('silent', 'NO CARRIER'):
                    require(isinstance(error, exc.CommandError) and not isinstance(error, exc.TimeoutException), '{0}: ATD answered by {1}: {2!r}', what, how, error or t.call)
                    labels.add('dialling refused')
                elif bad or late:
                    require(isinstance(error, exc.TimeoutException), '{0}: call not established within {1} s: {2!r}', what, timeout, error or t.call)
                    require(took <= 2 * timeout + 1.5, '{0}: TimeoutException after {1:.1f} s', what, took)
                    labels.add('not established')
                if bad or late:
                    require(not t.seen, '{0}: status callback for a call that was not established', what)
                    rig.sim.sleep(15 if how != 'silent' else max(15, t0 + 61 - rig.sim.now))     # the modem says nothing meanwhile
                    if t.dev and d.calls.get(t.dev['id']) is t.dev:
                        d.urc(d.call_answered(t.dev))        # nobody knows this call
                        rig.sim.sleep(0.5)
                        d.urc(d.call_ended(t.dev))
                    rig.sim.sleep(1.5)
                    require(not t.seen, '{0}: status callback for a call that was not established', what)
                    tracks.pop()
                    check(what)
                    continue
                if error is not None:
                    raise Violation('%s: %s: %s' % (what, type(error).__name__, error))
                require(t.call.number == number, '{0}: number of the call is {1!r}', what, t.call.number)
                equal(t.call.type, ctype if family in ('huawei', 'generic') else 0, what + ': type of the call')    # voice where the modem does not tell
                require(took <= timeout + 1.5, '{0}: dial returned after {1:.1f} s', what, took)
                t.state = 'dialling'
                if not quick:
                    rig.sim.sleep(delay + sum(gaps) + 0.5 if family == 'zte' else sum(gaps) + 2.8 if polled else 0.5)
                else:
                    rig.sim.sleep(delay + sum(gaps) + slack + 4.5)
                    t.remote = {'answer': ['answered'], 'end': ['ended'], 'answer end': ['answered', 'ended']}[quick]
                    t.state = 'answered' if quick == 'answer' else 'ended'
                    labels.add('quick ' + quick)
                    if together and not polled:
                        labels.add('in one burst')
                ids = [c.id for c in modem.activeCalls.values()]
                require(len(set(ids)) == len(ids), '{0}: ids of the active calls: {1}', what, ids)
                labels.add('dialled')
                if len(live()) > 1:
                    labels.add('two calls')
            elif kind == 'sleep':
                rig.sim.sleep(op[1])
            elif kind == 'stale':
                for t in tracks:
                    if t.state == 'ended' and t.call:
                        t.call.hangup()
                        labels.add('hangup of an ended call')
            else:
                ts = live()
                if not ts:
                    continue
                t = ts[op[1] % len(ts)]
                if kind == 'answer':
                    if t.state != 'dialling':
                        continue
                    d.urc(d.call_answered(t.dev))
                    rig.sim.sleep(slack)
                    t.state, t.remote = 'answered', t.remote + ['answered']
                    labels.add('answered')
                elif kind == 'end':
                    labels.add('rejected' if t.state == 'dialling' else 'ended')
                    d.urc(d.call_ended(t.dev, op[2], reason=op[3], cause=op[4]))
                    rig.sim.sleep(slack)
                    t.state, t.remote = 'ended', t.remote + ['ended']
                elif kind == 'hangup':
                    if len(ts) > 1 or incoming:
                        continue
                    labels.add('hangup of an answered call' if t.state == 'answered' else 'hangup while dialling')
                    try:
                        t.call.hangup()
                    except session.CallbackError:
                        pass
                    hangups[0] += 1
                    t.local, t.state = True, 'ended'
                    equal((t.call.answered, t.call.active), (False, False), what + ': (answered, active) after hanging up')
                    require(t.call not in modem.activeCalls.values(), '{0}: still among the active calls after hanging up', what)
                    t.call.hangup()
                    rig.sim.sleep(op[2])
            check(what)
        rig.sim.sleep(3)
        check('at the end')
        modem.close()
    incoming, answered = [], []
    rig.run(main)
    rig.deaths(allow=(exc.TimeoutException, session.CallbackError))
    require(rig.sim.errors == [] or all(isinstance(e, (exc.TimeoutException, session.CallbackError)) for _, e, _ in rig.sim.errors), 'threads died')
    return sorted(labels | ({family} if 'dialled' in labels else set()))


@st.composite
def gen(draw):
    number = st.one_of(st.sampled_from(['0123456789', '+27820001234', '112', '*31#0123', '#']), st.text(alphabet='0123456789', min_size=1, max_size=20).map(str), st.text(alphabet='0123456789*#', min_size=1, max_size=15).map(lambda n: '+' + n))
    dial = lambda: ('dial', draw(number), draw(st.sampled_from([5, 2, 30])), draw(st.sampled_from([0.1, 0.0, 0.01, 1.0, 0.1, 1.4, 6.0])), draw(st.booleans()),
                    draw(st.sampled_from([None, None, None, 'answer', 'end', 'answer end'])), [draw(st.sampled_from([0.0, 0.001, 0.1, 1.0])) for _ in range(2)], draw(st.booleans()),
                    draw(st.sampled_from(['ok'] * 12 + ['never', 'silent', 'ERROR', '+CME ERROR: 30', '+CMS ERROR: 500'])), draw(st.sampled_from([0, 0, 1, 3, 9])))
    ops = []
    if draw(st.sampled_from([False, False, False, True])):
        ops.append(('incoming', draw(number.filter(lambda n: n.strip('+').isdigit())), draw(st.booleans())))
    end = lambda: ('end', draw(st.integers(0, 1)), draw(st.sampled_from([5, 0, 9, 10, 61, 3600])), draw(st.sampled_from(['NO CARRIER', 'BUSY', 'NO ANSWER'])), draw(st.sampled_from(['29,16', '104,17', '1,127', '29,3'])))
    plain = lambda: ('dial', draw(number), 5, draw(st.sampled_from([0.1, 0.0, 0.01])), draw(st.booleans()), None, [0.0, 0.0], draw(st.booleans()), 'ok', 0)
    hangup = lambda: ('hangup', 0, draw(st.sampled_from([0.2, 0.1, 0.6, 2.0])))
    template = draw(st.sampled_from([None, None, None, 'redial', 'third']))
    if template == 'redial':
        ops += [plain(), ('sleep', draw(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.4])))] + [('answer', 0)] * draw(st.sampled_from([0, 0, 1])) + [draw(st.booleans()) and hangup() or ('hangup', 0, 0.1), plain(), ('answer', 0), end()]
    elif template == 'third':
        ops += [plain(), ('answer', 0), plain(), ('answer', 1), end(), plain(), draw(st.booleans()) and ('answer', 1) or end(), end(), end()]
    for _ in range(draw(st.integers(1, 4)) if template is None else draw(st.integers(0, 1))):
        ops.append(dial())
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.sampled_from(['answer', 'answer', 'end', 'hangup', 'sleep', 'stale', 'dial']))
            if k == 'dial':
                ops.append(dial())
            elif k == 'sleep':
                ops.append(('sleep', draw(st.sampled_from([0.1, 1.0, 30.0]))))
            elif k == 'end':
                ops.append(end())
            elif k == 'hangup':
                ops.append(hangup())
            else:
                ops.append((k, draw(st.integers(0, 1))))
    opts = {'clcc_tail': draw(st.sampled_from(['', '', ',""', ',"Joe"', ',"",1']))}
    return (draw(st.sampled_from(FAM)), opts, draw(st.sampled_from([0.01, 0.0, 0.1])), draw(st.sampled_from([True, False, 'raises'])), ops, draw(schedules()))


def run_tie(case):
    """ the call is established exactly when the time limit expires: either outcome is right, but nothing may break """
    fam, limit, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profiles.FAMILIES[fam]), 1 / 128), None, 'line')
    d, exc = rig.device, rig.exc
    labels = []

    def main():
        modem = rig.modem()
        modem.connect()
        rig.arm(sched)

        def plan(dev, call):
            dev.sim.at((1 / 128 if d.p['family'] == 'huawei' else 0) + limit, lambda: dev.port.rx_put(dev.call_started(call), exclusive=True))
        d.dial_plan = [plan]
        try:
            call = modem.dial('123', timeout=limit)
            require(call.active and modem.activeCalls.get(call.id) is call, 'call returned by dial is not active')
            labels.append('established')
        except exc.TimeoutException:
            equal(modem.activeCalls, {}, 'active calls after TimeoutException')
            labels.append('not established')
        rig.sim.sleep(2)
        require(len(modem.activeCalls) == (1 if labels == ['established'] else 0), 'active calls: {0}', modem.activeCalls)
        modem.close()
    rig.run(main)
    rig.deaths()
    return labels


def gen_tie():
    pre = st.lists(st.tuples(st.integers(0, 12), st.integers(0, 2)).map(list), min_size=1, max_size=12)
    sched = st.tuples(st.integers(0, 400), st.integers(0, 2), pre, st.lists(st.integers(0, 2), max_size=10)).map(lambda t: {'pre': [[t[0], t[1]]] + t[2], 'order': t[3]})
    return st.tuples(st.sampled_from(['huawei', 'wavecom']), st.sampled_from([1, 5]), sched)


SUBS = [Sub('tie', run_tie, gen_tie, quick=1000, thorough=30000, shards=4, rule='the call is set up when the time limit expires; line level preemption'),
        Sub('calls', run, gen, quick=3000, thorough=80000, shards=7, rule='at least one call was dialled; the labels say what happened')]
