# -*- coding: utf-8 -*-
""" C28: incoming calls are announced per ring and tracked separately """
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.session import CallbackError

FAM = sorted(profiles.FAMILIES)
NOISE = ['STRING: 5', '+QSIMRING: 1', 'DURING', 'xRING', '^BRINGUP:1', '+WIND: 4', '^RSSI:20', 'A RING', ' RING', '+CREG: 1', '+MSG: "RING"', '"+CRING: VOICE"']


class Track(object):
    """ one call as the model sees it """
    def __init__(self, dev, number, ton, ctype):
        self.dev, self.number, self.ton, self.type = dev, number, ton, ctype
        self.rings, self.obj = 0, None
        self.state = 'ringing'       # answered | ended
        self.type = ctype


def run(case):
    fam, drop, latency, callers, policy, ops, sched = case
    base = dict(profiles.FAMILIES[fam])
    base['supports'] = tuple(s for s in base.get('supports', device.DEFAULT['supports']) if s not in drop)
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **base), latency))
    d, exc = rig.device, rig.exc
    notified = d.p['family'] != 'generic'
    labels = set()
    log = []                         # (object, ring count, number, ton, type, answered) per callback
    texts = []

    def main():
        def ringing(call):
            log.append((call, call.ringCount, call.number, call.ton, call.type, call.answered))
            act = policy.get(call.ringCount)
            if act == 'raise':
                labels.add('callback raises')
                raise CallbackError('raised by the callback')
            if act and call.ringing:
                {'answer': call.answer, 'hangup': call.hangup, 'wait': lambda: rig.sim.sleep(0.2)}[act]()
        modem = rig.modem(incomingCallCallbackFunc=ringing, smsReceivedCallbackFunc=lambda s: texts.append(s.text))
        modem.connect()
        rig.arm(sched)
        crc, clip = 'CRC' not in drop and 'CLIP' not in drop, 'CLIP' not in drop      # what the library could enable
        equal((d.cfg['clip'], d.cfg['crc']), (int(clip), int(crc)), 'settings for incoming calls')
        tracks, outgoing, sms = [], [], [0]
        answers, hangups = [0], [0]

        def live():
            return [t for t in tracks if t.state != 'ended']

        def gone(t):
            t.state = 'ended'

        def ended_all():
            for t in live():
                gone(t)
            outgoing[:] = []

        def ring_text(t):
            first = '+CRING: ' + t.kind if d.cfg['crc'] else 'RING'
            lines = [first]
            if d.cfg['clip']:
                if t.number is not None:
                    lines.append('+CLIP: "%s",%d%s' % (t.number, t.ton, t.tail))
                elif t.tail:
                    lines.append('+CLIP: "",128' + t.tail)
            return lines

        def check(what):
            for i, t in enumerate(tracks):
                if t.obj is None:
                    continue
                w = '%s: call %d' % (what, i)
                o = t.obj
                equal((o.ringing, o.answered, o.active), (t.state == 'ringing', t.state == 'answered', t.state != 'ended'), w + ' (ringing, answered, active)')
                require((modem.activeCalls.get(o.id) is o) == (t.state != 'ended'), '{0}: listed among the active calls: {1}', w, t.state == 'ended')
            equal(len(modem.activeCalls), len(live()) + len(outgoing), what + ': number of active calls')
            for c in outgoing:
                require(modem.activeCalls.get(c.id) is c and c.active and c.answered, '{0}: an outgoing call is not listed any more', what)
            ids = [t.obj.id for t in live()] + [c.id for c in outgoing]
            require(len(set(ids)) == len(ids), '{0}: ids {1}', what, ids)
            equal(d.answers, answers[0], what + ': answer commands sent')
            equal(d.hangups, hangups[0], what + ': hang-up commands sent')

        for n, op in enumerate(ops):
            what = 'step %d %s' % (n, op[0])
            k = op[0]
            if k == 'ring':
                due = []
                for ci in op[1]:
                    number, ton, kind, tail = callers[ci % len(callers)]
                    if not clip:
                        number = None
                    t = next((t for t in live() if t.number == number), None)
                    if t is None:
                        if len(live()) + len(outgoing) >= 4:
                            continue
                        t = Track(d.new_call(1, number, 4), number, ton, None)
                        t.kind, t.tail = kind, tail
                        tracks.append(t)
                    if t.state != 'ringing' or t in due:
                        continue
                    due.append(t)
                if not due:
                    continue
                expect = []
                lines = list(op[2])
                plain = not d.cfg['crc']
                for t in due:
                    t.rings += 1
                    if t.rings == 1:
                        t.type = None if plain else 0 if t.kind == 'VOICE' else t.kind
                    lines += ring_text(t)
                    expect.append(t)
                for l in op[3]:
                    if l == 'SMS':
                        sms[0] += 1
                        l = d.arrive(device.deliver('+2782000', 'sms %d' % sms[0], (2024, 2, 29, 23, 59, 58, 8)), d.p['memories'][0][0], 100 + sms[0], notify=False)[1]
                    lines.append(l)
                mark = len(log)
                d.urc(''.join('\r\n%s\r\n' % l for l in lines))
                rig.sim.sleep(2)
                got = log[mark:]
                dropped = False
                if len(due) > 1:
                    labels.add('two callers at once')
                if op[2] or op[3]:
                    labels.add('with other lines')
                for t in expect:
                    if dropped:
                        t.rings -= 1 if t.obj is None else 0
                        continue
                    if not got:
                        raise Violation('%s: no callback for the ring of %s' % (what, t.number))
                    call, count, number, ton, ctype, answered = got.pop(0)
                    w = '%s: ring %d of %s' % (what, t.rings, t.number)
                    if t.obj is None:
                        require(all(call is not o.obj for o in tracks) and not any(call is c for c in outgoing), '{0}: announced as an earlier call', w)
                        t.obj = call
                    else:
                        require(call is t.obj, '{0}: announced with another object', w)
                        labels.add('rings again')
                    equal((count, number, answered), (t.rings, t.number, False), w + ' (ring count, number, answered)')
                    equal(None if ton is None else int(ton), t.ton if t.number is not None else None, w + ': type of number')
                    equal(ctype, t.type, w + ': call type')
                    labels.add('anonymous' if t.number is None else 'number shown')
                    if t.type is not None and t.type != 0:
                        labels.add('other call type')
                    act = policy.get(t.rings)
                    if act == 'answer':
                        answers[0] += 1
                        t.state = 'answered'
                        t.dev['state'] = 0
                        labels.add('answered in callback')
                    elif act == 'hangup':
                        hangups[0] += 1
                        labels.add('hung up in callback')
                        gone(t)
                        if notified and (len(live()) or outgoing):      # the modem has ended the others, too
                            raise Violation('generator: hang-up with several calls')
                require(not got, '{0}: {1} further callbacks', what, len(got))
                if plain and crc and 'CRC' not in d.supports:
                    labels.add('format changed for good')
                elif plain and crc:
                    equal(d.cfg['crc'], 1, what + ': extended format enabled again')
                    labels.add('format changed externally')
            elif k == 'noise':
                mark = len(log)
                d.urc(''.join('\r\n%s\r\n' % l for l in op[1]))
                rig.sim.sleep(1)
                require(len(log) == mark, '{0}: {1} taken for an incoming call', what, op[1])
                labels.add('other lines')
            elif k == 'plain':
                d.cfg['crc'] = 0
                if op[1]:
                    d.supports.discard('CRC')             # and can not be changed back
            elif k == 'dial':
                if outgoing or len(live()) >= 3:
                    continue
                number = callers[op[1] % len(callers)][0] or '123'

                def plan(dev, call):
                    def go():
                        dev.urc(dev.call_started(call))
                        rig.sim.at(0.1, lambda: dev.urc(dev.call_answered(call)))
                    rig.sim.at(latency + 0.05, go)
                d.dial_plan = [plan]
                outgoing.append(modem.dial(number))
                rig.sim.sleep(2)
                labels.add('outgoing call')
            else:
                ts = [t for t in tracks if t.obj is not None]
                if not ts:
                    continue
                t = ts[op[1] % len(ts)]
                if k == 'answer':
                    if op[2] and t.state == 'ringing':
                        d.fault('^ATA$', '+CME ERROR: 3')
                        try:
                            t.obj.answer()
                        except exc.CommandError:
                            pass
                        else:
                            raise Violation('%s: no error although answering failed' % what)
                        labels.add('answering failed')
                        check(what + ' (failed)')
                    r = t.obj.answer()
                    require(r is t.obj, '{0}: answer() returned {1!r}', what, r)
                    if t.state == 'ringing':
                        answers[0] += 1
                        t.state = 'answered'
                        t.dev['state'] = 0
                        labels.add('answered')
                    else:
                        labels.add('answer without effect')
                elif k == 'hangup':
                    if t.state != 'ended' and len(live()) + len(outgoing) > 1:
                        if not notified:
                            continue
                    if op[2] and t.state != 'ended':
                        d.fault('^ATH$', '+CME ERROR: 3')
                        try:
                            t.obj.hangup()
                        except exc.CommandError:
                            pass
                        else:
                            raise Violation('%s: no error although hanging up failed' % what)
                        labels.add('hanging up failed')
                        check(what + ' (failed)')
                    t.obj.hangup()
                    if t.state != 'ended':
                        hangups[0] += 1
                        labels.add('hung up')
                        equal((t.obj.ringing, t.obj.answered, t.obj.active), (False, False, False), what + ' (ringing, answered, active)')
                        rig.sim.sleep(0.3)
                        ended_all()                  # the modem ends them all, and says so
                    else:
                        labels.add('hangup without effect')
                elif k == 'end':
                    if t.state == 'ended' or not notified:
                        continue
                    d.urc(d.call_ended(t.dev, op[2]))
                    rig.sim.sleep(0.3)
                    gone(t)
                    labels.add('ended by the caller')
            rig.sim.sleep(0.1)
            check(what)
        equal(sorted(texts), sorted('sms %d' % (i + 1) for i in range(sms[0])), 'messages delivered')
        modem.close()
    rig.run(main)
    rig.deaths((CallbackError,))
    return sorted(labels - {'other lines'}) and sorted(labels)


@st.composite
def gen(draw):
    digits = st.text(alphabet='0123456789', min_size=1, max_size=20)
    number = st.one_of(st.sampled_from(['+27820001234', '+27820001235', '0820001234', '27820001234', '112']), digits, digits.map(lambda n: '+' + n))
    numbers = draw(st.lists(number, min_size=1, max_size=3, unique=True))
    if draw(st.sampled_from([False, False, True])):
        numbers[draw(st.integers(0, len(numbers) - 1))] = None
    callers = [(n, draw(st.sampled_from([145, 129, 161])), draw(st.sampled_from(['VOICE'] * 4 + ['FAX', 'DATA', 'SYNC', 'VOICE/XID', 'REL ASYNC', 'ALT VOICE/FAX'])), draw(st.sampled_from(['', ',,,,0', ',,,"Joe",0', ',"",,"",0'])) if n else draw(st.sampled_from(['', ',,,,1', ',,,,2']))) for n in numbers]
    fam = draw(st.sampled_from(FAM))
    drop = draw(st.sampled_from([(), (), (), (), ('CRC',), ('CLIP',), ('CRC', 'CLIP')]))
    notified = profiles.FAMILIES[fam]['family'] != 'generic'
    policy = draw(st.sampled_from([{}, {}, {}, {1: 'answer'}, {2: 'answer'}, {3: 'answer'}, {1: 'wait', 2: 'wait'}, {1: 'raise'}, {1: 'raise', 2: 'answer'}, {2: 'raise'}]))
    single = False
    if len(callers) == 1 and draw(st.sampled_from([False, True])):
        policy = draw(st.sampled_from([{1: 'hangup'}, {2: 'hangup'}]))
        single = True
    quietly = lambda: draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(NOISE), max_size=2)))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(['ring', 'ring', 'ring', 'ring', 'ring', 'ring', 'answer', 'hangup', 'end', 'noise', 'plain', 'dial']))
        if k == 'ring':
            many = not single and not (drop and 'CLIP' in drop) and draw(st.sampled_from([False, False, False, True]))
            after = draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(NOISE + ['SMS', 'SMS']), max_size=2)))
            ops.append(('ring', [draw(st.integers(0, 2)) for _ in range(2 if many else 1)], quietly(), after))
        elif k in ('answer', 'hangup'):
            ops.append((k, draw(st.integers(0, 3)), draw(st.sampled_from([False, False, False, True]))))
        elif k == 'end':
            ops.append((k, draw(st.integers(0, 3)), draw(st.sampled_from([0, 5, 75]))))
        elif k == 'noise':
            ops.append((k, draw(st.lists(st.sampled_from(NOISE), min_size=1, max_size=3))))
        elif k == 'plain':
            ops.append((k, draw(st.sampled_from([False, False, True]))))
        elif k == 'dial' and not single:
            ops.append((k, draw(st.integers(0, 2))))
    return (fam, drop, draw(st.sampled_from([0.01, 0.0, 0.1])), callers, policy, ops or [('ring', [0], [], [])], draw(schedules()))



def run_race(case):
    """ several callers ring in separate, almost simultaneous notifications: every ring counts, and no call replaces another """
    fam, callers, bursts, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profiles.FAMILIES[fam]), 1 / 128), None, 'line')
    d = rig.device
    log = []

    def main():
        modem = rig.modem(incomingCallCallbackFunc=lambda call: log.append(call))
        modem.connect()
        number = lambda i: '+2782000%d' % i if i else None
        for i in callers:
            d.new_call(1, number(i), 4)
        rig.arm(sched)

        def feed():
            for i in bursts:
                i = callers[i % len(callers)]
                lines = ['+CRING: VOICE'] + (['+CLIP: "%s",145' % number(i)] if i else ['+CLIP: "",128'])
                d.port.rx_put(''.join('\r\n%s\r\n' % l for l in lines), exclusive=True)
                rig.sim.block(lambda: rig.sim.exclusive is None)     # one by one, but at once
        feeder = rig.spawn(feed)
        feeder.join()
        rig.sim.sleep(6)
        rung = [callers[i % len(callers)] for i in bursts]
        calls = {}
        for call in log:
            other = calls.setdefault(call.number, call)
            require(other is call, 'two calls for {0}', call.number)
        equal(sorted((c.number or '', c.ringCount) for c in calls.values()), sorted((number(i) or '', rung.count(i)) for i in set(rung)), 'rings per caller')
        equal(len(log), len(rung), 'callbacks')
        for call in list(calls.values()):
            require(modem.activeCalls.get(call.id) is call, 'the call of {0} (id {1}) is not listed: {2}', call.number, call.id, modem.activeCalls)
        equal(len(modem.activeCalls), len(calls), 'active calls')
        modem.close()
    rig.run(main)
    rig.deaths()
    return ['%d rings' % len(bursts), '%d callers' % len(set(i % len(callers) for i in bursts))]


def gen_race():
    pre = st.lists(st.tuples(st.integers(0, 20), st.integers(0, 2)).map(list), min_size=1, max_size=14)
    sched = st.tuples(st.integers(0, 300), st.integers(0, 2), pre, st.lists(st.integers(0, 2), max_size=10)).map(lambda t: {'pre': [[t[0], t[1]]] + t[2], 'order': t[3]})
    bursts = st.lists(st.integers(0, 2), min_size=2, max_size=4)
    return st.tuples(st.sampled_from(['huawei', 'wavecom', 'zte', 'generic']), st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True), bursts, sched)


SUBS = [Sub('calls', run, gen, quick=3500, thorough=90000, shards=7, rule='at least one ring, answer or hang-up; the labels say what happened'),
        Sub('race', run_race, gen_race, quick=1500, thorough=40000, shards=4, rule='at least two rings; line level preemption')]
