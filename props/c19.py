# -*- coding: utf-8 -*-
""" C19: the SIM PIN is entered exactly when needed """
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from . import c18


def run(case):
    profile, attempts, latency, sched = case
    rig = Rig(lambda sim: device.Modem(sim, profile, latency), sched)
    d = rig.device
    labels = set()
    exc = rig.exc

    def main():
        right = profile.get('pin')
        for pin in attempts:
            d.restart()
            before = len(d.pin_tries)
            locked, left = d.locked, d.pin_left
            modem = rig.modem()
            error = None
            try:
                modem.connect(pin)
            except Exception as e:
                error = e
            tried = d.pin_tries[before:]
            if not locked:
                equal(tried, [], 'PINs sent to an unlocked SIM')
                require(error is None, 'unlocked SIM: connect raised {0}: {1}', type(error).__name__, error)
                labels.add('unlocked SIM' + (', PIN given' if pin is not None else ''))
            elif left == 0:
                require(tried in ([], [pin]), 'PINs sent to a blocked SIM: {0}', tried)
                require(isinstance(error, (exc.PinRequiredError, exc.PukRequiredError)), 'blocked SIM: {0}: {1} instead of PinRequiredError or PukRequiredError', type(error).__name__, error)
                if pin is None:
                    equal(tried, [], 'PINs sent')
                labels.add('PUK required')
            elif pin is None:
                equal(tried, [], 'PINs sent')
                require(isinstance(error, exc.PinRequiredError), 'locked SIM and no PIN: {0}: {1} instead of PinRequiredError', type(error).__name__, error)
                labels.add('no PIN')
            elif pin == right:
                equal(tried, [pin], 'PINs sent')
                require(error is None, 'right PIN: connect raised {0}: {1}', type(error).__name__, error)
                equal(d.locked, False, 'SIM locked')
                labels.add('right PIN')
            else:
                equal(tried, [pin], 'PINs sent')
                require(isinstance(error, exc.IncorrectPinError), 'wrong PIN: {0}: {1} instead of IncorrectPinError', type(error).__name__, error)
                equal(d.pin_left, left - 1, 'attempts left')
                labels.add('wrong PIN')
            if error is None:
                c18.check_state(d, profile.get('csca', device.DEFAULT['csca']))
                equal(modem.signalStrength, 18, 'signal strength')
            modem.close()
    rig.run(main)
    rig.deaths()
    labels.add('before unlocking: ' + profile.get('preunlock', 'all'))
    if profile.get('cpin_ok') is False:
        labels.add('CPIN without OK')
    return sorted(labels)


pins = st.text('0123456789', min_size=4, max_size=8)


@st.composite
def gen(draw):
    p = dict(draw(st.one_of(profiles.profile(), st.sampled_from(sorted(profiles.FAMILIES)).map(lambda n: dict(profiles.FAMILIES[n])))))
    pin = draw(pins)
    if draw(st.integers(0, 5)):
        p['pin'] = pin
    p['preunlock'] = draw(st.sampled_from(['all', 'nocfun', 'none', 'sms', 'open']))
    p['pin_error'] = draw(st.sampled_from(['cme', 'cmee']))
    p['cpin_ok'] = draw(st.booleans())
    p['puk'] = draw(st.sampled_from([False] * 9 + [True]))
    if p['preunlock'] == 'nocfun':
        p['cfun'] = 1                # +CFUN cannot be queried before unlocking
    if p['pin_error'] == 'cmee':
        p['busy'], p['busy_after_cfun'] = {}, 0      # busy is only recognisable if errors are detailed
    wrong = pins.filter(lambda x: x != pin)
    near = st.sampled_from([pin[:-1] if len(pin) > 4 else pin + '0', pin[::-1], pin[1:] + pin[0], '0000', '1234']).filter(lambda x: x != pin)
    attempts = draw(st.lists(st.one_of(st.just(pin), st.none(), wrong, near), min_size=1, max_size=6))
    return (p, attempts, draw(c18.latency), draw(schedules()))


def enum(tier):
    for name, p in sorted(profiles.FAMILIES.items()):
        for pre in ('all', 'nocfun', 'none', 'sms', 'open'):
            for pe in ('cme', 'cmee'):
                for ok in (True, False):
                    for pin in ('1234', None):
                        for attempts in ([None, '1234'], ['1234', None], ['4321', '1234', '1234'], ['1234', '4321'], ['4321', '4321', '4321', None, '1234']):
                            yield (dict(p, pin=pin, preunlock=pre, pin_error=pe, cpin_ok=ok), attempts, 0.01, {})


SUBS = [Sub('pin', run, gen, quick=2000, thorough=40000, enum=enum, shards=6, rule='connection attempts with and without PINs; every one counts')]
