# -*- coding: utf-8 -*-
""" C31: SMSC number and SMS mode settings always match the modem """
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

FAM = sorted(profiles.FAMILIES)
REFUSALS = ['ERROR', '+CME ERROR: 3', '+CMS ERROR: 302', '+CME ERROR: 100', '+CMS ERROR: 500', '+CMS ERROR: 330', 'COMMAND NOT SUPPORT', '+CMS ERROR: 310']


def run(case):
    fam, profile, ops, latency, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict(dict({'echo': False}, **profiles.FAMILIES[fam]), **profile), latency))
    d, exc = rig.device, rig.exc
    labels = set()

    def main():
        m = rig.modem()
        armed = False
        connected, ever = False, False
        want = {'smsc': None, 'mode': False}      # set while not connected

        def compare(what):
            """ what the API reports, once connected, is what the modem has """
            equal(bool(m.smsTextMode), bool(d.cfg['cmgf']), what + ': text mode')
            equal(m.smsc, d.cfg['csca'], what + ': SMSC number')
        for n, op in enumerate(ops):
            what = 'step %d %r' % (n, op)
            k = op[0]
            if k == 'connect':
                if connected:
                    continue
                had = d.cfg['csca']
                m.connect()
                if not armed:
                    rig.arm(sched)
                    armed = True
                connected = ever = True
                equal(d.cfg['cmgf'], int(want['mode']), what + ': text mode set by connecting')
                equal(d.cfg['csca'], want['smsc'] if want['smsc'] is not None else had, what + ': SMSC number after connecting')
                if d.p['csmp_clears'] and d.cfg['csca'] is not None and d.has('CSMP'):
                    labels.add('SMSC number restored')
                if want['smsc'] is not None and want['smsc'] != had:
                    labels.add('SMSC number applied by connecting')
                if want['mode']:
                    labels.add('mode applied by connecting')
                if op[1]:
                    compare(what)
                want = {'smsc': d.cfg['csca'], 'mode': bool(d.cfg['cmgf'])}
            elif k == 'close':
                if not connected:
                    continue
                want = {'smsc': d.cfg['csca'], 'mode': bool(d.cfg['cmgf'])}
                m.close()
                connected = False
                d.restart()
                if op[1]:
                    d.cfg['cmgf'] = d.p['cmgf_reset']
                labels.add('closed')
            elif k == 'smsc':
                if connected and op[2] and op[1] != d.cfg['csca']:
                    before = m.smsc if op[3] else None
                    d.fault(r'^AT\+CSCA="', op[2])
                    try:
                        m.smsc = op[1]
                    except exc.CommandError:
                        labels.add('SMSC number refused')
                    else:
                        raise Violation('%s: no error although the modem refused the SMSC number' % what)
                    require(not d.faults, '{0}: the modem was not asked', what)
                    if op[3]:
                        equal(m.smsc, before, what + ': SMSC number after the refusal')
                    equal(m.smsc, d.cfg['csca'], what + ': SMSC number after the refusal')
                    continue
                m.smsc = op[1]
                want['smsc'] = op[1]
                equal(m.smsc, op[1], what + ': reported')
                if connected:
                    equal(d.cfg['csca'], op[1], what + ': SMSC number of the modem')
                    labels.add('SMSC number set')
            elif k == 'mode':
                if connected and op[2] and bool(op[1]) != bool(d.cfg['cmgf']):
                    d.fault(r'^AT\+CMGF=', op[2])
                    try:
                        m.smsTextMode = op[1]
                    except exc.CommandError:
                        labels.add('mode refused')
                    else:
                        raise Violation('%s: no error although the modem refused the mode' % what)
                    require(not d.faults, '{0}: the modem was not asked', what)
                    equal(bool(m.smsTextMode), bool(d.cfg['cmgf']), what + ': mode after the refusal')
                    continue
                m.smsTextMode = op[1]
                want['mode'] = bool(op[1])
                equal(bool(m.smsTextMode), bool(op[1]), what + ': reported')
                if connected:
                    equal(d.cfg['cmgf'], int(bool(op[1])), what + ': mode of the modem')
                    labels.add('mode set')
            elif k == 'get':
                if connected:
                    compare(what)
                    labels.add('SMSC number read' if d.cfg['csca'] is not None else 'no SMSC number')
                else:
                    equal(bool(m.smsTextMode), want['mode'], what + ': mode')
                    if want['smsc'] is not None:
                        equal(m.smsc, want['smsc'], what + ': SMSC number')
            elif k == 'failget':
                # a failing query is not remembered
                if connected and d.cfg['csca'] is None:
                    d.fault(r'^AT\+CSCA\?', op[1])
                    try:
                        require(m.smsc is None, '{0}: got {1!r}', what, m.smsc)
                    except exc.CommandError:
                        pass
                    equal(m.smsc, None, what + ': SMSC number')
                    labels.add('query failed')
            elif k == 'external':
                # the number appears on a modem for which none is known yet
                if connected and d.cfg['csca'] is None:
                    d.cfg['csca'] = op[1]
                    want['smsc'] = op[1]
                    equal(m.smsc, op[1], what + ': SMSC number')
            elif k == 'send':
                if not connected:
                    continue
                before = len(d.sent)
                m.sendSms('+2782%d' % n, 'text %d' % n)
                equal([r.get('text') for r in d.sent[before:]], ['text %d' % n], what + ': messages submitted')
                equal([r.get('number') or '+' + r['da']['value'] for r in d.sent[before:]], ['+2782%d' % n], what + ': destination')
                labels.add('message sent in %s mode' % ('text' if d.cfg['cmgf'] else 'PDU'))
            elif k == 'read':
                if not connected:
                    continue
                mem = d.cfg['mem'][0]
                i, _ = d.arrive(device.deliver('+2783%d' % n, 'stored %d' % n, (2024, 2, 29, 23, 59, 58, 8)), mem, notify=False)
                s = m.readStoredSms(i)
                equal((s.number, s.text), ('+2783%d' % n, 'stored %d' % n), what + ': message read')
                labels.add('message read in %s mode' % ('text' if d.cfg['cmgf'] else 'PDU'))
        if connected:
            compare('at the end')
            m.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels)


@st.composite
def gen(draw):
    number = st.one_of(st.sampled_from(['+27831234567', '+27831234568', '27831234567', '0831234567', '+1']), st.text(alphabet='0123456789', min_size=1, max_size=20), st.text(alphabet='0123456789', min_size=1, max_size=20).map(lambda n: '+' + n))
    refuse = lambda: draw(st.one_of(st.none(), st.none(), st.sampled_from(REFUSALS)))
    fam = draw(st.sampled_from(FAM))
    profile = {'csca': draw(st.one_of(st.none(), number)), 'csca_missing': draw(st.sampled_from(['ok', 'cms330', 'empty'])), 'csmp_clears': draw(st.booleans()),
               'csca_toa': draw(st.sampled_from([145, 129, 161])), 'cmgf_reset': draw(st.sampled_from([0, 0, 1]))}

    def op(kinds):
        k = draw(st.sampled_from(kinds))
        if k == 'smsc':
            return (k, draw(number), refuse(), draw(st.booleans()))
        if k == 'mode':
            return (k, draw(st.sampled_from([True, False, True, False, 1, 0])), refuse())
        if k == 'failget':
            return (k, draw(st.sampled_from(REFUSALS)))
        if k == 'external':
            return (k, draw(number))
        return (k, draw(st.booleans()))
    ops = [op(['smsc', 'mode', 'get']) for _ in range(draw(st.integers(0, 3)))] + [('connect', draw(st.booleans()))]
    ops += [op(['smsc', 'smsc', 'mode', 'mode', 'get', 'get', 'close', 'connect', 'send', 'read', 'failget', 'external']) for _ in range(draw(st.integers(1, 12)))]
    return fam, profile, ops, draw(st.sampled_from([0.01, 0.0, 0.1])), draw(schedules())


SUBS = [Sub('settings', run, gen, quick=4000, thorough=100000, shards=7, rule='at least one setting read, set or used')]
