# -*- coding: utf-8 -*-
""" C22: each received SMS is delivered to the callback once, then deleted """
from hypothesis import strategies as st
from vf import device, gens, msgs
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules, dense

MEMS = ('ME', 'SM', 'SR', 'MT')
OTHER = ['^RSSI:20', '+CREG: 1', '^BOOT:12345,0,0,0,20', '+WIND: 4', '^DSFLOWRPT:00000001,0000,0000,0000,0000',
         '+CRING: VOICE\r\n\r\n+CLIP: "+27831230000",145', 'RING', '+CUSD: 0,"You won\r\na RINGTONE",15', '+CUSD: 2']


def run(case):
    textmode, profile, bursts, reply, latency, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profile), latency))
    d, exc = rig.device, rig.exc
    labels = set()
    got, expected, wants, allowed = [], [], [], set()
    for m in MEMS:
        for i in (0, 1, 90):
            d.store[m][i] = device.deliver('+2782000', 'old', (2024, 2, 29, 23, 59, 58, 8), 1)
    initial = {m: set(d.store[m]) for m in MEMS}
    replied = []

    def main():
        def callback(sms):
            got.append(sms)
            if reply and (sms.number or '').lstrip('+').isdigit():
                replied.append((sms.number, 'Re %d' % len(replied)))
                sms.reply(replied[-1][1])
        modem = rig.modem(smsReceivedCallbackFunc=callback)
        modem.smsTextMode = textmode
        modem.connect()
        rig.arm(sched)
        count = [0]

        def fire(burst):
            lines = []
            for item in burst:
                if item[0] == 'line':
                    lines.append(item[1])
                    continue
                _, mem, reuse, m, fault, status = item
                n = count[0]
                count[0] += 1
                msg = msgs.build(m, status, textmode)
                msg.was = 0 if profile.get('stat_blank') else status
                index = None if reuse and not fault else 100 + n
                index, line = d.arrive(msg, mem, index, notify=False)
                if fault:
                    allowed.add((mem, index))
                    labels.add('failing read')
                    if fault == 'junk':
                        msg.kind, msg.pdu = 'junk', 'XYZ' if textmode else '0011ZZ'
                        if textmode:
                            d.fault('^AT\\+CMGR=%d$' % index, (['+CMGR: nonsense'], 'OK'))
                    else:
                        if fault == 'silent':
                            d.silence = 4.99
                        d.fault('^AT\\+CMGR=%d$' % index, fault)
                else:
                    expected.append((mem, index, msg))
                lines.append(line)
            d.urc(''.join('\r\n%s\r\n' % l for l in lines))
            if sum(1 for i in burst if i[0] == 'sms') > 1:
                labels.add('burst')
        t = 0.0
        for gap, burst in bursts:
            t += gap
            rig.sim.at(t, lambda burst=burst: fire(burst))
        rig.sim.sleep(t + 3 + 8.0 * sum(len(b) for _, b in bursts))
        equal(modem.alive, True, 'alive')
        equal(modem.signalStrength, 18, 'signal strength')
        modem.close()
    rig.run(main)
    rig.deaths((exc.CommandError, exc.TimeoutException, exc.EncodingError) if allowed else ())
    require(len(rig.sim.errors) <= len(allowed), 'more handlers failed than reads: {0}', [(n, repr(e)) for n, e, t in rig.sim.errors])
    # every message once, with its contents
    left = list(expected)
    for sms in got:
        same = [k for k, (mem, index, msg) in enumerate(left)
                if (sms.number or '', sms.text, sms.status) == (msg.number, msg.text, msg.was) and msgs.when(msg.time)[0] == sms.time.replace(tzinfo=None)]
        if not same:
            raise Violation('callback called with {0!r} from {1!r}, {2}; still expected: {3}'.format(
                sms.text, sms.number, sms.time, [(m.text, m.number, m.time) for _, _, m in left][:4]))
        for k in reversed(same):                         # of several alike, one that agrees in everything else, too
            try:
                msgs.same_deliver(sms, left[k][2], textmode, left[k][2].was, 'message')
                break
            except Violation:
                if k == same[0]:
                    raise
        del left[k]
    require(not left, 'not passed to the callback: {0}', [(mem, i, m.number, m.text) for mem, i, m in left][:4])
    # exactly the delivered messages were removed
    want = {m: set(initial[m]) | {i for x, i in allowed if x == m} for m in MEMS}
    equal({m: sorted(d.store[m]) for m in MEMS}, {m: sorted(want[m]) for m in MEMS}, 'messages left in the modem')
    equal(sorted(((('+' if r['da']['ton'] == 1 else '') + r['da']['value'], r['text']) if r['mode'] == 'pdu' else (r['number'], r['text'])) for r in d.sent), sorted(replied), 'replies sent')
    require(not d.overlaps, 'commands overlapped: {0}', d.overlaps[:3])
    labels.add('text mode' if textmode else 'PDU mode')
    if replied:
        labels.add('reply')
    if len(set(m for m, i, x in expected)) > 1:
        labels.add('several memories')
    if any(not m.number for _, _, m in expected):
        labels.add('no sender')
    if any(m.number and not m.number.lstrip('+').isdigit() for _, _, m in expected):
        labels.add('alphanumeric sender')
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels) if expected else []


faults = ['ERROR', '+CMS ERROR: 321', '+CMS ERROR: 500', 'silent', 'junk', ((), 'OK')]


@st.composite
def gen(draw):
    textmode = draw(st.booleans())
    msg = msgs.message(textmode)
    fault = st.sampled_from([None] * 8 + faults[:5])
    sms = st.tuples(st.just('sms'), st.sampled_from(MEMS), st.booleans(), msg, fault, st.sampled_from([0, 0, 0, 1]))
    item = st.one_of(sms, sms, sms, sms, st.tuples(st.just('line'), st.sampled_from(OTHER)))
    burst = st.one_of(st.lists(sms, min_size=1, max_size=1), st.lists(item, min_size=1, max_size=4))
    bursts = draw(st.lists(st.tuples(st.sampled_from([0.0, 0.001, 0.013, 0.03, 0.5, 6.0]), burst), min_size=1, max_size=4))
    if any(i[0] == 'sms' and i[4] == 'silent' for _, b in bursts for i in b):
        # the line is busy for 5 s with each of them
        bursts = [(max(g, 6.0 + 6.0 * max(len(b), len(bursts[n - 1][1]))), b) for n, (g, b) in enumerate(bursts)]
    profile = draw(st.fixed_dictionaries({'stat_blank': st.booleans() if not textmode else st.just(False)}, optional={'alpha': st.sampled_from(['Bob', 'A B C', 'Smith, J', '+1,2'])}))
    return (textmode, profile, bursts, draw(st.booleans()), draw(st.sampled_from([0.01, 0.0, 0.05])), draw(st.one_of(schedules(), dense())))


def run_blank(case):
    text, = case
    rig = Rig(lambda sim: device.Modem(sim, {'echo': False}))
    d = rig.device
    got = []

    def main():
        modem = rig.modem(smsReceivedCallbackFunc=got.append)
        modem.smsTextMode = True
        modem.connect()
        d.arrive(device.Msg('deliver', 0, None, number='+2782', text=text, time=(2024, 2, 29, 23, 59, 58, 8)), 'ME')
        rig.sim.sleep(5)
        modem.close()
    rig.run(main)
    rig.deaths()
    equal(len(got), 1, 'calls of the callback')
    if got[0].text != text:
        if got[0].text == '\n'.join(l for l in text.split('\n') if l):
            raise Violation('text mode message %r delivered as %r' % (text, got[0].text), key='text-mode-blank-lines')
        raise Violation('text mode message %r delivered as %r' % (text, got[0].text))
    return ['blank lines']


def gen_blank():
    l = st.one_of(st.just(''), msgs.line.map(lambda x: msgs.plain([x])))
    return st.tuples(st.lists(l, min_size=2, max_size=5).filter(lambda x: '' in x and any(x)).map('\n'.join))


def enum_blank(tier):
    yield ('a\n\nb',)


SUBS = [Sub('received', run, gen, quick=2600, thorough=60000, shards=7, rule='at least one message arrives'),
        Sub('blank', run_blank, gen_blank, quick=60, thorough=1000, enum=enum_blank, shards=2, rule='text mode messages with blank lines')]
