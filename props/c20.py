# -*- coding: utf-8 -*-
""" C20: sendSms hands the modem exactly the message, and reports its reference """
from hypothesis import strategies as st
from vf import device, gens, refpdu
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

PROFILE = {'echo': False}
BUSY = ('+CMS ERROR: 515', '+CME ERROR: 14', '+CME ERROR: 515', '+CMS ERROR: 14')



def check_pdu(rec, number, flash, what):
    require('error' not in rec, '{0}: the modem cannot make sense of it: {1} ({2})', what, rec.get('error'), rec['raw'])
    equal(rec['mode'], 'pdu', what + ': mode')
    want = number[1:] if number[0] == '+' else number
    equal(rec['da']['value'], want, what + ': destination')
    equal(rec['da']['ton'] == 1, number[0] == '+', what + ': international destination')
    equal(rec['dcs'] & 0x13, 0x10 if flash else 0, what + ': message class bits of data coding 0x%02X' % rec['dcs'])
    require(rec['srr'], '{0}: no delivery report requested', what)


def run(case):
    profile, latency, ops, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict(PROFILE, **profile), latency), sched)
    d, exc = rig.device, rig.exc
    labels = set()

    def main():
        modem = rig.modem()
        modem.connect()
        for op in ops:
            if op[0] == 'mode':
                modem.smsTextMode = op[1]
                continue
            _, number, text, flash, fault, slow = op
            textmode = d.cfg['cmgf'] == 1
            equal(modem.smsTextMode, textmode, 'mode')
            if textmode:
                text = ''.join(c for c in text if c not in '\x1a\x1b')
            if fault and fault[0] == 'prompt':
                slow = min(slow, 2.9)
            start, cmds = len(d.sent), len(d.commands)
            d.latency = min(slow, 14.9)
            d.prompt_latency = min(slow, 2.9)
            del d.faults[:]
            if fault:
                step, k, action = fault
                d.silence = 2.99 if step == 'prompt' else 14.99
                if action == 'noref':
                    action = ((), 'OK')
                d.fault('^AT\\+CMGS' if step == 'prompt' else '^TEXT', action, k)
            t0, error, sms = rig.sim.now, None, None
            try:
                sms = modem.sendSms(number, text, **({'sendFlash': flash} if flash or len(number) % 2 else {}))
            except Exception as e:
                error = e
            d.latency = latency
            fired = fault is not None and not d.faults
            if fired and fault[0] == 'prompt' and fault[2] in BUSY:
                fired = False                       # the command is repeated (C17)
                labels.add('busy before the prompt')
            del d.faults[:]
            recs = d.sent[start:]
            equal(d.mode, 'cmd', 'the modem is left waiting for message text after sendSms; state')
            equal(d.buf, '', 'text left in the command line of the modem')
            bad = [c for c in d.commands[cmds:] if not c[1].startswith('AT+CMGS=')]
            equal(bad, [], 'other commands sent')
            for i, rec in enumerate(recs):
                if textmode:
                    equal((rec['mode'], rec['number'], rec['text']), ('text', number, text), 'message in text mode')
                else:
                    check_pdu(rec, number, flash, 'part %d' % (i + 1))
            # the parts received so far, in order
            if not textmode:
                got = ''.join(r['text'] for r in recs)
                require(text.startswith(got) if fired else got == text, 'text received by the modem: {0!r} of {1!r}', got[:400], text[:400])
                if len(recs) > 1:
                    cat = [[(x[0], bytes(x[1])) for x in (r['udh'] or []) if x[0] in (0, 8)] for r in recs]
                    require(all(len(c) == 1 for c in cat), 'concatenation headers {0}', cat)
                    equal([c[0][1][-1] for c in cat], list(range(1, len(recs) + 1)), 'part numbers')
                    equal(len(set((c[0][1][:-1]) for c in cat)), 1, 'number of different references and totals of the parts')
            elif not fired:
                equal(len(recs), 1, 'messages sent in text mode')
            if not fired:
                require(error is None, 'sendSms raised {0}: {1}', type(error).__name__, error)
                equal((sms.number, sms.text), (number, text), 'returned object')
                equal(sms.reference, recs[-1]['ref'], 'reference')
                equal(sms.status, sms.ENROUTE, 'status')
                labels.add('text mode' if textmode else 'PDU mode, %s part%s' % (len(recs) if len(recs) < 4 else '4+', '' if len(recs) == 1 else 's'))
                if recs[-1]['ref'] == 255:
                    labels.add('reference 255')
                if slow > 1:
                    labels.add('slow')
            else:
                require(sms is None, 'sendSms returned in spite of {0}', fault)
                last = None
                if fault[2] == 'silent':
                    require(isinstance(error, exc.TimeoutException), 'no answer at {0} {1}: {2}: {3}', fault[0], fault[1], type(error).__name__, error)
                    labels.add('no prompt' if fault[0] == 'prompt' else 'no confirmation')
                    rig.sim.sleep(1)
                elif fault[2] == 'noref':
                    require(isinstance(error, exc.CommandError), 'no reference: {0}: {1}', type(error).__name__, error)
                    labels.add('no reference')
                else:
                    require(isinstance(error, exc.CommandError), 'error at {0} {1}: {2}: {3}', fault[0], fault[1], type(error).__name__, error)
                    labels.add('error at ' + fault[0])
                    if fault[1]:
                        labels.add('error at a later part')
                limit = 18.0 * (len(recs) + 1) + 2 * slow
                require(rig.sim.now - t0 <= limit, 'the failure was reported after {0:.1f} s', rig.sim.now - t0)
        equal(modem.signalStrength, 18, 'signal strength afterwards')
        modem.close()
    rig.run(main)
    rig.deaths()
    require(not [o for o in d.overlaps if o[1] not in ('silent',)], 'input written before the prompt or response: {0}', d.overlaps[:3])
    return sorted(labels)


text = st.one_of(gens.gsm_text(0, 30), gens.any_text(700), st.sampled_from(['OK', 'AT+CMGS=1', '> ', 'ERROR\r\nOK', 'a\nb\r\nc', '\r', 'x' * 160, 'x' * 161, '\u20ac' * 80, '\u20ac' * 81, '\u4e2d' * 70, '\u4e2d' * 71]))
errors = ['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 38', '+CME ERROR: 30', '+CMS ERROR: 21', '+CMS ERROR: 512', 'COMMAND NOT SUPPORT']
fault = st.one_of(st.none(), st.none(), st.none(),
                  st.tuples(st.sampled_from(['prompt', 'text']), st.sampled_from([0, 0, 0, 1, 1, 2, 3]), st.sampled_from(errors + ['silent', 'silent'])),
                  st.tuples(st.just('prompt'), st.sampled_from([0, 1]), st.sampled_from(BUSY)),
                  st.tuples(st.just('text'), st.just(0), st.sampled_from(['+CMS ERROR: 515', '+CME ERROR: 14', '+CME ERROR: 515'])))
send = st.tuples(st.just('send'), gens.number(3, 20), text, st.booleans(), fault, st.sampled_from([0.01, 0.01, 0.0, 0.5, 2.5, 10.0, 14.5]))


def gen():
    op = st.one_of(send, send, send, send, st.tuples(st.just('mode'), st.booleans()))
    profile = st.fixed_dictionaries({'ref': st.one_of(st.sampled_from([0, 1, 254, 255, 253]), st.integers(0, 255))})
    return st.tuples(profile, st.sampled_from([0.01, 0.0, 0.2]), st.lists(op, min_size=1, max_size=6), schedules())


def enum(tier):
    for ref in range(256):                                    # all references, reported and used for the next message
        yield ({'ref': ref}, 0.01, [('send', '+27821111111', 'Hi', False, None, 0.01), ('send', '0821111111', 'x' * 200, True, None, 0.01)], {})
    for step in ('prompt', 'text'):
        for k in range(3):
            for action in errors + ['silent', '+CMS ERROR: 515', '+CME ERROR: 14'] + (['noref'] if step == 'text' else []):
                if action in ('+CMS ERROR: 515', '+CME ERROR: 14') and step == 'prompt' or action == 'noref' and k < 2:
                    continue
                for mode in (False, True):
                    if mode and k:
                        continue
                    yield ({}, 0.01, [('mode', mode), ('send', '+27821111111', 'y' * 400, False, (step, k, action), 0.01), ('send', '+27822222222', 'z' * 170, False, None, 0.01)], {})


SUBS = [Sub('send', run, gen, quick=2400, thorough=60000, enum=enum, shards=7, rule='histories of messages and faults; every one counts')]
