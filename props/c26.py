# -*- coding: utf-8 -*-
""" C26: USSD requests return the network's answer and session state """
import re
from hypothesis import strategies as st
from vf import device, gens, msgs
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

NOISE = ['^RSSI:20', '+CREG: 1', '+WIND: 4', '^BOOT:12345,0,0,0,20', 'Some random notification!', 'SMS']


def cusd(parts):
    """ [(n, message or None, dcs)] -> lines """
    return ['+CUSD: %d%s' % (n, '' if m is None else ',"%s",%d' % (m, dcs)) for n, m, dcs in parts]


def answer(parts):
    """ (message, session active) """
    if len(parts) == 1:
        return parts[0][1], parts[0][0] == 1
    rest = [p for p in parts if p[0] != 2]
    return rest[-1][1], len(rest) == len(parts) and rest[-1][0] == 1


def run(case):
    ops, latency, profile, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profile), latency))
    d, exc = rig.device, rig.exc
    labels = set()
    got, sms_sent = [], [0]

    def noise(lines):
        out = []
        for l in lines:
            if l == 'SMS':
                sms_sent[0] += 1
                l = d.arrive(device.deliver('+2782000', 'sms %d' % sms_sent[0], (2024, 2, 29, 23, 59, 58, 8)), 'ME', 100 + sms_sent[0], notify=False)[1]
            out.append(l)
        return out

    def main():
        modem = rig.modem(smsReceivedCallbackFunc=lambda s: got.append(s.text))
        modem.connect()
        rig.arm(sched)
        last = None
        cancels = 0
        for n, op in enumerate(ops):
            what = 'step %d' % n
            if op[0] == 'push':
                d.urc(''.join('\r\n%s\r\n' % l for l in noise(op[2]) + cusd(op[1]) + noise(op[3])))
                rig.sim.sleep(2)
                labels.add('unsolicited USSD')
                continue
            if op[0] == 'cancel':
                if last is None:
                    continue
                if last.sessionActive:
                    cancels += 1
                    labels.add('cancel')
                else:
                    labels.add('cancel of an ended session')
                last.cancel()
                equal(d.ussd_cancels, cancels, what + ': session releases sent')
                last.cancel()
                equal(d.ussd_cancels, cancels, what + ': session releases sent after cancelling twice')
                try:
                    last.reply('1')
                except exc.InvalidStateException:
                    pass
                else:
                    raise Violation('%s: reply in a cancelled session' % what)
                last = None
                continue
            _, reply, string, limit, style, delay, parts, before, after = op
            count = len(d.ussd_log)
            times = {}

            def act(dev, s):
                lines = cusd(parts)
                text = lambda ls: ''.join('\r\n%s\r\n' % l for l in ls)
                if style == 'error':
                    return dev.answer((), before)
                if style == 'silent':
                    return dev.silent(limit - 0.001)
                if style == 'nothing':
                    times['ok'] = dev.sim.now + dev.latency
                    return dev.answer()
                times['ok'] = dev.sim.now + dev.latency
                if style == 'before':
                    dev.latency = delay
                    dev.answer([l for l in before if l != 'SMS'] + lines)
                    dev.latency = latency
                    times['at'] = dev.sim.now + delay
                elif style == 'together':
                    times['at'] = times['ok']
                    dev.answer(tail=text(noise(before) + lines + noise(after)))
                else:
                    dev.answer()
                    times['at'] = times['ok'] + delay

                    def go():
                        times['at'] = dev.sim.now
                        dev.urc(text(noise(before) + lines + noise(after)))
                    dev.sim.at(latency + delay, go)
            d.ussd = [act]
            use = last if reply and last is not None else None
            if use is not None and not use.sessionActive:
                try:
                    use.reply(string)
                except exc.InvalidStateException:
                    labels.add('reply in an ended session')
                else:
                    raise Violation('%s: reply accepted in an ended session' % what)
                equal(len(d.ussd_log), count, what + ': requests sent for a reply in an ended session')
                use = None
            t0, r, error = rig.sim.now, None, None
            if use is not None:
                limit = 15
            try:
                if use is not None:
                    r = use.reply(string)
                    labels.add('reply')
                else:
                    r = modem.sendUssd(string, responseTimeout=limit)
            except Exception as e:
                error = e
            t = rig.sim.now
            equal(d.ussd_log[count:], [string], what + ': requests received by the network')
            if style == 'error':
                require(isinstance(error, exc.CommandError), '{0}: answered by {1}: {2!r}', what, before, error or r)
                labels.add('error')
                last = None
            elif style in ('silent', 'nothing') or style != 'before' and times['at'] > times['ok'] + limit - 0.01 or style == 'before' and delay >= limit:
                start = t0 if style == 'silent' else times['ok']
                if style == 'after' and abs(times['at'] - times['ok'] - limit) <= 0.5 and error is None:
                    pass
                else:
                    require(isinstance(error, exc.TimeoutException), '{0}: no answer within {1} s: {2!r} {3!r}', what, limit, error, r and r.message)
                    require(t - t0 >= limit - 1e-6 and t - t0 <= 2 * limit + 1, '{0}: TimeoutException after {1:.2f} s, limit {2} s', what, t - t0, limit)
                labels.add('timeout')
                last = None
                rig.sim.sleep(delay + 3)           # the late answer is gone by then
            else:
                if error is not None:
                    raise Violation('%s: %s: %s; the answer was %r (%s OK)' % (what, type(error).__name__, error, parts, style))
                equal((r.message, r.sessionActive), answer(parts), what + ': message and session state of the answer %r' % (parts,))
                require(t <= times['at'] + 1.0 + 8 * latency, '{0}: returned {1:.2f} s after the answer', what, t - times['at'])
                last = r
                labels.add(style + ' OK')
                if len(parts) > 1:
                    labels.add('several +CUSD lines')
                if parts[-1][1] is None:
                    labels.add('without message')
                elif '\r\n' in parts[-1][1]:
                    labels.add('line breaks')
                if any(p[1] and '"' in p[1] for p in parts):
                    labels.add('quotes')
                if r.sessionActive:
                    labels.add('session active')
            rig.sim.sleep(op[5] if style == 'before' else 0.3)
        rig.sim.sleep(20)
        equal(modem.signalStrength, 18, 'signal strength')
        modem.close()
    rig.run(main)
    rig.deaths()
    equal(sorted(got), sorted('sms %d' % (i + 1) for i in range(sms_sent[0])), 'messages delivered')
    if sms_sent[0]:
        labels.add('together with a received SMS')
    return sorted(labels)


def ok_message(m):
    return (not re.search(r'",\s*\d', '"' + m) and '+CUSD' not in m and not m.startswith('\r') and not m.endswith('\r') and '' not in m.split('\r\n')[1:-1]
            and not any(l.endswith('\r') or '\n' in l and False for l in m.split('\r\n')) and m.count('\r') == m.count('\r\n'))


char = st.one_of(st.sampled_from(gens.COMMON), st.sampled_from('"*#+:,\n$€%éÖ \'()'), gens.bmp_char.filter(lambda c: c not in '\r'))
mline = st.one_of(st.text(alphabet=char, min_size=1, max_size=20),
                  st.sampled_from(['RING', '+CMTI: "SM",3', '1. Recharge', 'Bal:$100.00 *', '+CDSI: "SM",1', '^CEND:1,5,29,16', '> ', 'say "hi"', '"', 'NO CARRIER', 'OK then', 'ERRORS', '5" screen', '+CRING: VOICE', ',15', 'HANGUP: 1', 'CONNECT']))
message = st.one_of(mline, mline, st.lists(mline, min_size=2, max_size=4).map('\r\n'.join), st.lists(mline, min_size=2, max_size=4).map('\n'.join)).filter(ok_message)
dcs = st.sampled_from([15, 0, 72, 15])


def final_line(m):
    return any(msgs.FINAL.match(l) for l in (m or '').split('\r\n'))


@st.composite
def gen(draw):
    one = st.tuples(st.sampled_from([1, 1, 0, 1, 2, 1, 1, 3]), message, dcs).map(lambda p: [p])
    bare = st.sampled_from([2, 2, 4, 5, 0]).map(lambda n: [(n, None, 0)])
    release = st.one_of(st.tuples(st.just(2), message, dcs), st.just((2, None, 0)))
    real = st.tuples(st.sampled_from([0, 1, 0]), message, dcs)
    two = st.one_of(st.tuples(release, real.filter(lambda p: p[0] == 0)).map(list), st.tuples(real, release).map(list), st.tuples(st.tuples(st.just(3), message, dcs), real.filter(lambda p: p[0] == 0)).map(list), st.tuples(real, real).map(lambda t: [(1,) + p[1:] for p in t]))
    parts = st.sampled_from([one] * 7 + [two] * 2 + [bare]).flatmap(lambda s: s)
    string = st.one_of(st.sampled_from(['*101#', '*120*500#', '1', '00', '#']), st.text(alphabet='0123456789*#+', min_size=1, max_size=20), st.text(alphabet='abc XYZ019', min_size=1, max_size=20))
    noise = st.one_of(st.just([]), st.lists(st.sampled_from(NOISE), max_size=2))

    def send():
        kind = draw(st.sampled_from(['after', 'after', 'before', 'after', 'before', 'together', 'after', 'before', 'together', 'error', 'silent', 'nothing']))
        ps = draw(parts)
        before, after = draw(noise), draw(noise)
        delay = draw(st.sampled_from([0.0, 0.01, 0.5, 0.01, 0.5, 3.0, 14.0, 20.0]))
        limit = draw(st.sampled_from([15, 15, 1, 5]))
        if kind == 'before' and any(final_line(m) for _, m, _ in ps):
            kind = 'after'
        if kind == 'error':
            before = draw(st.sampled_from(['ERROR', '+CME ERROR: 30', '+CMS ERROR: 500', '+CME ERROR: 100', 'COMMAND NOT SUPPORT']))
        if delay == limit:
            delay += 1.0
        return ('send', draw(st.booleans()), draw(string), limit, kind, delay, ps, before, after)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['send', 'send', 'send', 'send', 'cancel', 'push']))
        ops.append(send() if k == 'send' else ('cancel',) if k == 'cancel' else ('push', draw(parts), draw(noise), draw(noise)))
    return (ops, draw(st.sampled_from([0.01, 0.0, 0.1])), {'stat_blank': False}, draw(schedules()))



def run_tie(case):
    """ the answer arrives exactly when the time limit expires: either outcome is right, but nothing may break """
    limit, sched = case
    rig = Rig(lambda sim: device.Modem(sim, {'echo': False}, 1 / 128), None, 'line')
    d, exc = rig.device, rig.exc
    labels = []

    def main():
        modem = rig.modem()
        modem.connect()
        rig.arm(sched)
        at = []

        def act(dev, s):
            dev.answer()
            at.append(dev.sim.now)
            dev.sim.at(1 / 128 + limit, lambda: dev.port.rx_put('\r\n+CUSD: 1,"a",15\r\n', exclusive=True))
        d.ussd = [act]
        try:
            r = modem.sendUssd('*1#', responseTimeout=limit)
            equal((r.message, r.sessionActive), ('a', True), 'answer')
            labels.append('answered')
        except exc.TimeoutException:
            labels.append('timeout')
        rig.sim.sleep(2)
        d.ussd = [lambda dev, s: dev.answer(['+CUSD: 0,"b",15'])]
        equal(modem.sendUssd('*2#').message, 'b', 'answer to the next request')
        modem.close()
    rig.run(main)
    rig.deaths()
    return labels


def gen_tie():
    pre = st.lists(st.tuples(st.integers(0, 12), st.integers(0, 2)).map(list), min_size=1, max_size=12)
    sched = st.tuples(st.integers(0, 400), st.integers(0, 2), pre, st.lists(st.integers(0, 2), max_size=10)).map(lambda t: {'pre': [[t[0], t[1]]] + t[2], 'order': t[3]})
    return st.tuples(st.sampled_from([1, 15]), sched)



def run_blank(case):
    message, before = case
    rig = Rig(lambda sim: device.Modem(sim, {'echo': False}))
    d = rig.device
    line = '+CUSD: 0,"%s",15' % message

    def main():
        modem = rig.modem()
        modem.connect()
        d.ussd = [lambda dev, s: dev.answer([line]) if before else dev.answer(tail='\r\n%s\r\n' % line)]
        r = modem.sendUssd('*1#')
        if r.message != message:
            squeezed = re.sub('(\r\n)+', '\r\n', message)
            raise Violation('USSD message %r returned as %r' % (message, r.message), key='ussd-blank-lines' if r.message == squeezed else None)
        modem.close()
    rig.run(main)
    rig.deaths()
    return ['blank lines']


def gen_blank():
    l = st.one_of(st.just(''), mline.filter(lambda m: '\n' not in m and not msgs.FINAL.match(m)))
    return st.tuples(st.tuples(mline, st.lists(l, min_size=1, max_size=3), mline).map(lambda t: [t[0]] + t[1] + [t[2]]).filter(lambda x: '' in x and not any('\n' in y or msgs.FINAL.match(y) for y in x))
                     .map('\r\n'.join).filter(lambda m: not re.search(r'",\s*\d', '"' + m) and '\r' not in m.replace('\r\n', '')), st.booleans())


def enum_blank(tier):
    yield ('a\r\n\r\nb', True)
    yield ('a\r\n\r\nb', False)


SUBS = [Sub('blank', run_blank, gen_blank, quick=60, thorough=1000, enum=enum_blank, shards=2, rule='messages with blank lines'),
        Sub('tie', run_tie, gen_tie, quick=1500, thorough=40000, shards=4, rule='the answer arrives when the time limit expires; line level preemption'),
        Sub('ussd', run, gen, quick=3500, thorough=80000, shards=7, rule='every case; the labels say what happened')]
