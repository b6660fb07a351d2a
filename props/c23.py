# -*- coding: utf-8 -*-
""" C23: stored-message operations agree with the modem's storage """
from hypothesis import strategies as st
from vf import device, gens, msgs
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig
from vf.session import CallbackError

MEMS = ('ME', 'SM', 'SR')
DELETES = {1: (1,), 2: (1, 3), 3: (1, 3, 2), 4: (0, 1, 2, 3)}


def build(spec, textmode):
    kind, status = spec[0], spec[1]
    if kind == 'deliver':
        return msgs.build(spec[2], status, textmode)
    if kind == 'report':
        ref, number, sent, done, code = spec[2]
        return device.report(ref, number, sent, done, code, status)
    if kind == 'submit':
        number, text = spec[2]
        if textmode:
            return device.Msg('submit', status, None, number=number, text=text)
        return device.submit(number, text, status)
    return device.Msg('junk', status, spec[2])


def same(sms, m, textmode, status, what):
    if m.kind == 'deliver':
        msgs.same_deliver(sms, m, textmode, status, what)
    elif m.kind == 'report':
        msgs.same_report(sms, m, status, what, textmode)
    else:
        equal((sms.number or '', sms.text), (m.number, m.text), what + ': recipient and text')
        equal(sms.status, status, what + ': status')


def run(case):
    textmode, stores, ops, profile, latency = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profile), latency))
    d, exc = rig.device, rig.exc
    labels = set()
    for mem, items in zip(MEMS, stores):
        i = 0
        for gap, spec, garbage in items:
            i += gap
            msg = build(spec, textmode)
            if garbage and not textmode:
                msg.garbage = garbage
            d.store[mem][i] = msg
            i += 1

    def main():
        got = []
        failing = set()

        def received(sms):
            got.append(sms)
            if len(got) - 1 in failing:
                raise CallbackError()
        modem = rig.modem(smsReceivedCallbackFunc=received)
        modem.smsTextMode = textmode
        modem.connect()
        d.deleted = []

        def snapshot():
            return {m: {i: (x, x.status) for i, x in d.store[m].items()} for m in MEMS}

        def check(before, gone, mem, what):
            """ exactly `gone` removed from mem """
            for m in MEMS:
                want = sorted(i for i in before[m] if m != mem or i not in gone)
                equal(sorted(d.store[m]), want, '%s: messages left in %s' % (what, m))

        def listed(before, mem, status, what, sms):
            rows = [(i, x, s) for i, (x, s) in sorted(before[mem].items()) if (status == 4 or s == status)]
            good = [r for r in rows if r[1].kind != 'junk']
            equal([getattr(x, 'text', None) or getattr(x, 'reference', None) for x in sms], [r[1].text or r[1].ref for r in good], what + ': messages listed')
            for x, (i, m, s) in zip(sms, good):
                same(x, m, textmode, s, '%s: message %d' % (what, i))
            for r in rows:
                labels.add('list ' + r[1].kind)
                if r[1].kind != 'junk' and getattr(r[1], 'garbage', None):
                    labels.add('garbage lines')
            return [r[0] for r in good], [r[0] for r in rows]

        for n, op in enumerate(ops):
            before = snapshot()
            kind = op[0]
            what = 'op %d %s%r' % (n, kind, op[1:])
            kw = {}
            mem = d.cfg['mem'][0]
            if kind != 'process' and op[1] is not None:
                mem = kw['memory'] = op[1]
            if mem not in MEMS:                       # no such memory
                fn = {'list': lambda: modem.listStoredSms(memory=mem, delete=True), 'read': lambda: modem.readStoredSms(op[2], mem),
                      'delete': lambda: modem.deleteStoredSms(op[2], mem), 'multi': lambda: modem.deleteMultipleStoredSms(4, mem),
                      'fault': lambda: modem.listStoredSms(memory=mem)}[kind]
                try:
                    fn()
                except exc.CommandError:
                    labels.add('no such memory')
                else:
                    raise Violation('%s: no error' % what)
                check(before, (), None, what)
                continue
            box = before[mem]
            if kind == 'fault':
                _, _, which, action = op
                fn = {'CMGL': lambda: modem.listStoredSms(**kw), 'CMGR': lambda: modem.readStoredSms(1, **kw), 'CMGD': lambda: modem.deleteStoredSms(1, **kw),
                      'CMGD=1,4': lambda: modem.deleteMultipleStoredSms(**kw), 'CMGL=': lambda: modem.listStoredSms(delete=True, **kw)}[which]
                d.silence = 4.99
                d.fault('^AT\\+' + which.rstrip('='), action)
                try:
                    fn()
                except (exc.CommandError, exc.TimeoutException) as e:
                    equal(type(e).__name__, 'TimeoutException' if action == 'silent' else 'CmsError' if 'CMS' in action else 'CommandError', what + ': exception')
                    labels.add('failing command')
                else:
                    raise Violation('%s: no error' % what)
                require(not d.faults, '{0}: the command was not issued', what)
                check(before, (), None, what)
            elif kind == 'list':
                _, _, status, delete = op
                if status not in range(5):
                    try:
                        modem.listStoredSms(status=status, delete=delete, **kw)
                    except (ValueError, exc.CommandError):
                        labels.add('invalid status')
                    else:
                        raise Violation('%s: no error' % what)
                    check(before, (), None, what)
                    continue
                sms = modem.listStoredSms(status=status, delete=delete, **kw)
                good, rows = listed(before, mem, status, what, sms)
                check(before, () if not delete else list(box) if status == 4 else good, mem, what)
                if delete:
                    labels.add('list and delete')
            elif kind == 'read':
                i = op[2] if not box or op[3] else sorted(box)[op[2] % len(box)]
                error = sms = None
                try:
                    sms = modem.readStoredSms(i, **kw)
                except (exc.CommandError, exc.EncodingError) as e:
                    error = e
                if i in box and box[i][0].kind in ('deliver', 'report'):
                    require(error is None, '{0}: {1}: {2}', what, type(error).__name__, error)
                    same(sms, box[i][0], textmode, 0 if profile.get('stat_blank') and not textmode else box[i][1], what)
                    labels.add('read ' + box[i][0].kind)
                else:
                    require(error is not None, '{0}: returned {1} {2!r} for {3}', what, type(sms).__name__, getattr(sms, 'text', None), box[i][0].kind if i in box else 'a missing message')
                    labels.add('read ' + (box[i][0].kind if i in box else 'missing'))
                check(before, (), None, what)
            elif kind == 'delete':
                i = op[2] if not box or op[3] else sorted(box)[op[2] % len(box)]
                try:
                    modem.deleteStoredSms(i, **kw)
                except exc.CommandError:
                    require(i not in box, '{0}: CommandError for an existing message', what)
                else:
                    require(i in box, '{0}: no error for a missing message', what)
                check(before, (i,), mem, what)
                labels.add('delete')
            elif kind == 'multi':
                flag = op[2]
                try:
                    modem.deleteMultipleStoredSms(flag, **kw)
                except ValueError:
                    require(flag not in DELETES, '{0}: ValueError', what)
                    check(before, (), None, what)
                    labels.add('invalid flag')
                else:
                    require(flag in DELETES, '{0}: no ValueError', what)
                    check(before, [i for i, (x, s) in box.items() if s in DELETES[flag]], mem, what)
                    labels.add('delete with flag %d' % flag)
            elif kind == 'process':
                if any(x.kind == 'report' for x, s in box.values()):
                    continue                          # whether stored reports are "received messages" is not specified
                del got[:]
                failing.update(op[2])
                try:
                    modem.processStoredSms(op[1]) if op[1] is not None else modem.processStoredSms()
                except CallbackError:
                    labels.add('callback raises')   # the failure may be passed on, but nothing is lost
                failing.clear()
                unread = bool(op[1])
                want = sorted((i, x, s) for i, (x, s) in box.items() if s == 0 or s == 1 and not unread)
                want = [w for w in want if w[1].kind != 'junk']
                equal(sorted(g.text for g in got), sorted(w[1].text for w in want), what + ': messages passed to the callback')
                rest = list(want)
                for g in got:
                    k = next((k for k, w in enumerate(rest) if (w[1].text, w[1].number, w[2]) == (g.text, g.number or '', g.status) and msgs.when(w[1].time)[0] == g.time.replace(tzinfo=None)), None)
                    require(k is not None, '{0}: callback called with {1!r} of status {2}', what, g.text, g.status)
                    for j, w in enumerate(rest):         # of several alike, one that agrees in the time zone, too
                        if (w[1].text, w[1].number, w[2], msgs.when(w[1].time)[0]) == (rest[k][1].text, rest[k][1].number, rest[k][2], msgs.when(rest[k][1].time)[0]):
                            try:
                                same(g, w[1], textmode, w[2], what)
                                k = j
                                break
                            except Violation:
                                pass
                    same(g, rest[k][1], textmode, rest[k][2], what)
                    del rest[k]
                check(before, [w[0] for w in want], mem, what)
                if want:
                    labels.add('process')
        modem.close()
    rig.run(main)
    rig.deaths()
    labels.add('text mode' if textmode else 'PDU mode')
    return sorted(labels) if len(labels) > 1 else []


@st.composite
def gen(draw):
    textmode = draw(st.booleans())
    m = msgs.message(textmode)
    deliver = st.tuples(st.just('deliver'), st.integers(0, 1), m)
    report = st.tuples(st.just('report'), st.integers(0, 1), st.tuples(st.integers(0, 255), gens.number(3, 15), gens.pdu_time, gens.pdu_time, st.one_of(st.sampled_from([0, 1, 68, 0x20]), st.integers(0, 255))))
    submit = st.tuples(st.just('submit'), st.integers(2, 3), st.tuples(st.one_of(gens.number(3, 15), gens.number(3, 15), gens.number(3, 15), st.just('')), msgs.text_text if textmode else msgs.pdu_text))
    junk = st.tuples(st.just('junk'), st.integers(0, 3), st.sampled_from(['', 'ZZZZ', '0791', '07914', '00', 'no PDU at all', '0011', '07917238010010F5040BC87238880900F1']))
    specs = [deliver, deliver, deliver, submit] + ([report] if draw(st.booleans()) else []) + ([] if textmode else [junk])
    garbage = st.one_of(st.just(()), st.just(()), st.lists(st.sampled_from(['^RSSI:20', 'garbage', '+WIND: 4', 'AB', '00']), min_size=1, max_size=2).map(tuple))
    item = st.tuples(st.sampled_from([0, 0, 0, 1, 5, 97]), st.one_of(specs), garbage)
    items = st.one_of(st.lists(item, max_size=5), st.lists(item, max_size=5), st.lists(item, max_size=5), st.lists(item, min_size=6, max_size=25))
    stores = draw(st.tuples(items, items, items))
    mem = st.sampled_from([None, None, 'ME', 'SM', 'SR'] * 4 + ['XX'])
    op = st.one_of(st.tuples(st.just('fault'), mem, st.sampled_from(['CMGL', 'CMGR', 'CMGD', 'CMGD=1,4', 'CMGL=']), st.sampled_from(['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 321', 'silent'])),
                   st.tuples(st.just('list'), mem, st.sampled_from([4, 4, 0, 1, 2, 3, 4, 0, 1, 5, -1]), st.booleans()),
                   st.tuples(st.just('list'), mem, st.just(4), st.just(False)),
                   st.tuples(st.just('read'), mem, st.integers(0, 9), st.sampled_from([False, False, False, True])),
                   st.tuples(st.just('delete'), mem, st.integers(0, 9), st.sampled_from([False, False, True])),
                   st.tuples(st.just('multi'), mem, st.sampled_from([1, 2, 3, 4, 0, 5, -1])),
                   st.tuples(st.just('process'), st.sampled_from([None, True, False]), st.sampled_from([[], [], [0], [1], [0, 2], list(range(9))])))
    ops = draw(st.lists(op, min_size=1, max_size=7))
    profile = draw(st.fixed_dictionaries({'stat_blank': st.booleans()}, optional={'alpha': st.sampled_from(['Bob', 'A B C', 'Smith, J', '+1,2'])}))
    return (textmode, stores, ops, profile, draw(st.sampled_from([0.01, 0.0])))


def enum(tier):
    """ full stores """
    when = (2024, 2, 29, 23, 59, 58, 8)
    for n in (21, 41, 64, 101, 130) if tier == 'quick' else (21, 41, 64, 101, 130, 255, 300):
        for textmode in (False, True):
            box = [(0, ('deliver', i % 7 % 2, ('+2782%05d' % i, 'message %d' % i, when, None)), ()) if i % 5 else (0, ('submit', 2 + i % 2, ('+2782%05d' % i, 'draft %d' % i)), ()) for i in range(n)]
            for ops in ([('list', None, 1, True), ('list', None, 4, False)], [('process', True, [0]), ('process', False, [])], [('list', None, 4, True)], [('read', None, n - 1, False), ('delete', None, n - 2, False), ('multi', None, 1)]):
                yield (textmode, (box, box[:3], []), ops, {'stat_blank': False}, 0.0)


SUBS = [Sub('storage', run, gen, quick=3500, thorough=80000, enum=enum, shards=7, rule='at least one operation affects or returns a message')]
