# -*- coding: utf-8 -*-
""" C24: delivery reports update exactly the message they belong to """
from hypothesis import strategies as st
from vf import device, gens, msgs
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules, dense

MEMS = ('ME', 'SM', 'SR')
OTHER = ['^RSSI:20', '+CREG: 1', '+WIND: 4', 'RING', '+CUSD: 2']


def run(case):
    textmode, profile, ops, latency, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profile), latency))
    d, exc = rig.device, rig.exc
    labels = set()
    got, kept, lost = [], [], []
    arrived = []                       # [ref, burst number, Msg]: reports that can be read
    allowed = set()
    for m in MEMS:
        for i in (0, 1):
            d.store[m][i] = device.Msg('deliver', 1, None, number='+2782000', text='old', time=(2024, 2, 29, 23, 59, 58, 8)) if textmode else device.deliver('+2782000', 'old', (2024, 2, 29, 23, 59, 58, 8), 1)
    initial = {m: set(d.store[m]) for m in MEMS}
    style = profile.get('report_style', 0) if textmode else 0

    def main():
        modem = rig.modem(smsStatusReportCallback=got.append)
        modem.smsTextMode = textmode
        modem.connect()
        rig.arm(sched)
        count, burst = [0], [0]

        def arrive(ref, rep, mem, fault):
            number, sent, done, code = rep
            n = count[0]
            count[0] += 1
            msg = device.report(ref, number, sent, done, code, 0)
            index, line = d.arrive(msg, mem, 100 + n, notify=False)
            if fault:
                d.fault('^AT\\+CMGR=%d$' % index, fault)
                allowed.add((mem, index))
                labels.add('failing read')
            else:
                arrived.append((ref, burst[0], msg))
            return line

        def tail(rec):
            """ reports that come right with the confirmation of a message """
            if not now:
                return ''
            burst[0] += 1
            rep, mem, ref = now.pop(0)
            labels.add('report with the confirmation')
            return '\r\n%s\r\n' % arrive(rec['ref'] if ref is None else ref, rep, mem, None)
        now = []
        d.sent_tail = tail
        for op in ops:
            if op[0] == 'send':
                _, number, text, keep, reports = op
                now[:] = list(reports)
                first = len(arrived)
                sms = modem.sendSms(number, text)
                # reports that arrived before the message: of something else, unless they were being handled meanwhile
                (kept if keep else lost).append((sms, sms.reference, first, burst[0]) if keep else sms.reference)
                del sms
            elif op[0] == 'drop':
                if kept:
                    lost.append(kept.pop(op[1] % len(kept))[1])
                    labels.add('message forgotten')
            elif op[0] == 'reports':
                burst[0] += 1
                lines = []
                for item in op[1]:
                    if item[0] == 'line':
                        lines.append(item[1])
                        continue
                    _, which, rep, mem, fault = item
                    if which[0] == 'of' and kept:
                        ref = kept[which[1] % len(kept)][1]
                    else:
                        ref = which[1]
                        if ref in lost:
                            labels.add('report for a forgotten message')
                    lines.append(arrive(ref, rep, mem, fault))
                d.urc(''.join('\r\n%s\r\n' % l for l in lines))
            else:
                if op[1] >= 3:
                    burst[0] += 1000
                rig.sim.sleep(op[1])
        rig.sim.sleep(30)
        equal(modem.signalStrength, 18, 'signal strength')
        modem.close()
    rig.run(main)
    rig.deaths((exc.CommandError,) if allowed else ())

    def view(m):
        return m.ref, '' if style == 2 else m.number, msgs.when(m.time)[0], msgs.when(m.done)[0], m.st
    left = [a for a in arrived]
    for rep in got:
        k = next((k for k, a in enumerate(left) if view(a[2]) == (rep.reference, rep.number or '', rep.timeSent.replace(tzinfo=None), rep.timeFinalized.replace(tzinfo=None), rep.deliveryStatus)), None)
        require(k is not None, 'callback called with report {0} of {1}, status {2}, {3}; still expected: {4}', rep.reference, rep.number, rep.deliveryStatus, rep.timeSent, [view(a[2]) for a in left][:4])
        for j, a in enumerate(left):                     # of several alike, one that agrees in the time zones, too
            if view(a[2]) == view(left[k][2]):
                try:
                    same(rep, a[2], style, '')
                    k = j
                    break
                except Violation:
                    pass
        same(rep, left[k][2], style, 'report passed to the callback')
        del left[k]
    require(not left, 'not passed to the callback: {0}', [view(a[2]) for a in left][:4])
    for sms, ref, first, b in kept:
        maybe = [a for a in arrived[:first] if a[0] == ref and b - a[1] < 500]
        mine = [a for a in arrived[first:] if a[0] == ref]
        if not mine and maybe:
            continue
        if not mine:
            require(sms.report is None, 'message {0} got report {1}', ref, sms.report and sms.report.reference)
            equal(sms.status, sms.ENROUTE, 'status of a message without a report')
            continue
        require(sms.report is not None, 'message {0}: no report', ref)
        require(len({sms.ENROUTE, sms.DELIVERED, sms.FAILED}) == 3, 'the states of a message cannot be told apart: {0}', [sms.ENROUTE, sms.DELIVERED, sms.FAILED])
        last = mine[-1]
        options = [a for a in maybe + mine if a is last or a[1] != last[1] and last[1] - a[1] < 500]
        labels.add('report')
        if len(mine) > 1:
            labels.add('several reports')
        ok = []
        for a in options:
            try:
                same(sms.report, a[2], style, '')
                ok.append(a)
            except Violation:
                pass
        require(ok, 'report of message {0} is ({1}, {2}, {3}), expected {4}', ref, sms.report.reference, sms.report.number, sms.report.deliveryStatus, [view(a[2]) for a in options])
        want = [sms.DELIVERED if a[2].st == 0 else sms.FAILED for a in ok]
        require(sms.status in want, 'status of message {0} is {1} with delivery status {2}', ref, sms.status, sms.report.deliveryStatus)
    want = {m: set(initial[m]) | {i for x, i in allowed if x == m} for m in MEMS}
    equal({m: sorted(d.store[m]) for m in MEMS}, {m: sorted(want[m]) for m in MEMS}, 'messages left in the modem')
    require(not d.overlaps, 'commands overlapped: {0}', d.overlaps[:3])
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels) if arrived else []


def same(rep, m, style, what):
    require(type(rep).__name__ == 'StatusReport', '{0}: {1}', what, type(rep).__name__)
    equal((rep.reference, rep.number or '', rep.deliveryStatus), (m.ref, '' if style == 2 else m.number, m.st), what + ': reference, number and delivery status')
    msgs.same_time(rep.timeSent, m.time, what + ': time sent')
    msgs.same_time(rep.timeFinalized, m.done, what + ': time finalized')
    equal(rep.status, 0, what + ': status')


report = st.tuples(gens.number(3, 15), gens.pdu_time, gens.pdu_time, st.one_of(st.sampled_from([0, 0, 0, 1, 2, 0x20, 0x30, 0x40, 68, 0x46, 0x60]), st.integers(0, 255)))


@st.composite
def gen(draw):
    textmode = draw(st.booleans())
    text = st.one_of(msgs.text_text.filter(lambda t: '\x1a' not in t and '\x1b' not in t), st.just('x' * 200))
    ref0 = draw(st.one_of(st.sampled_from([0, 254, 255, 100]), st.integers(0, 255)))
    mem = st.sampled_from(MEMS)
    early = st.one_of(st.just([]), st.lists(st.tuples(report, mem, st.one_of(st.none(), st.none(), st.integers(0, 255))), min_size=1, max_size=2))
    send = st.tuples(st.just('send'), gens.number(3, 15), text, st.sampled_from([True, True, True, False]), early)
    which = st.one_of(st.tuples(st.just('of'), st.integers(0, 5)), st.tuples(st.just('of'), st.integers(0, 5)),
                      st.tuples(st.just('ref'), st.one_of(st.integers(0, 6).map(lambda n: (ref0 + n) % 256), st.integers(0, 255))))
    rep = st.tuples(st.just('report'), which, report, mem, st.sampled_from([None] * 9 + ['ERROR', '+CMS ERROR: 321']))
    item = st.one_of(rep, rep, rep, rep, st.tuples(st.just('line'), st.sampled_from(OTHER)))
    reports = st.tuples(st.just('reports'), st.lists(item, min_size=1, max_size=3))
    pause = st.tuples(st.just('wait'), st.sampled_from([0.0, 0.02, 0.1, 3.0, 3.0]))
    ops = draw(st.lists(st.one_of(send, send, reports, reports, pause, st.tuples(st.just('drop'), st.integers(0, 5))), min_size=2, max_size=12))
    profile = {'ref': ref0, 'report_style': draw(st.sampled_from([0, 0, 1, 2])), 'stat_blank': draw(st.booleans())}
    return (textmode, profile, ops, draw(st.sampled_from([0.01, 0.0, 0.05])), draw(st.one_of(schedules(), dense())))


SUBS = [Sub('history', run, gen, quick=2800, thorough=70000, shards=7, rule='at least one readable report arrives')]
