# -*- coding: utf-8 -*-
""" C03: SMS-SUBMIT carries every requested option and nothing else """
import datetime
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c01

TD = datetime.timedelta
REL = [refpdu.rel_period(o) for o in range(256)]


class Zone(datetime.tzinfo):
    """ fixed offset, own implementation so that nothing of the code under test is needed to build a timestamp """
    def __init__(self, quarters):
        self.q = quarters

    def utcoffset(self, dt):
        return TD(minutes=15 * self.q)

    def dst(self, dt):
        return TD(0)


def mkdt(t):
    return datetime.datetime(*t[:6], tzinfo=Zone(t[6]))


def kwargs(kw):
    kw = dict(kw)
    v = kw.get('validity')
    if isinstance(v, tuple):
        kw['validity'] = mkdt(v)
    return kw


rel_validity = st.one_of(
    st.sampled_from(range(256)).map(lambda o: refpdu.rel_period(o)),
    st.tuples(st.sampled_from(range(256)), st.integers(-2, 2)).map(lambda t: refpdu.rel_period(t[0]) + TD(seconds=t[1])),
    st.integers(300, 86400).map(lambda s: TD(seconds=s)),
    st.integers(300, 441 * 86400 + 86399).map(lambda s: TD(seconds=s))).filter(lambda d: TD(minutes=5) <= d < TD(days=442))


def options():
    return st.fixed_dictionaries({'reference': st.integers(0, 255)}, optional={
        'requestStatusReport': st.booleans(), 'rejectDuplicates': st.booleans(), 'sendFlash': st.booleans(),
        'smsc': st.one_of(gens.number(1, 20), st.none()),
        'validity': st.one_of(st.none(), rel_validity, gens.pdu_time)})


def expected_rel(v):
    return max(o for o in range(256) if REL[o] <= v)


def run(case):
    text, number, kw = case
    pdus = c01.encode(number[1] if isinstance(number, tuple) else number, text, **kwargs(kw))
    labels = ['multi' if len(pdus) > 1 else 'single']
    for p in pdus:
        try:
            f = refpdu.parse_submit(p.data)
        except refpdu.Bad as e:
            raise Violation('PDU cannot be parsed: {0} ({1})'.format(e, bytes(p.data).hex()))
        equal(f['mr'], kw.get('reference', 0), 'TP-MR')
        equal(f['pid'], 0, 'TP-PID')
        equal(f['srr'], bool(kw.get('requestStatusReport', True)), 'TP-SRR')
        equal(f['rd'], bool(kw.get('rejectDuplicates', False)), 'TP-RD')
        equal(f['rp'], False, 'TP-RP (reply path)')
        equal(f['udhi'], len(pdus) > 1, 'TP-UDHI')
        base = 0x00 if refpdu.is_gsm7(text) else 0x08
        equal(f['dcs'], base | (0x10 if kw.get('sendFlash') else 0), 'TP-DCS')
        da = f['da']
        if isinstance(number, tuple):
            equal((da['ton'], da['value']), (5, number[1]), 'destination')
            labels.append('alphanumeric destination')
        elif number.startswith('+'):
            equal((da['ton'], da['npi'], da['value'], da['len']), (1, 1, number[1:], len(number) - 1), 'destination')
        else:
            require(da['ton'] in (0, 2), 'type of number {0} for a local number', da['ton'])
            equal((da['npi'], da['value'], da['len']), (1, number, len(number)), 'destination')
        smsc = kw.get('smsc')
        if smsc:
            s = f['smsc']
            require(s is not None, 'SMSC number missing')
            equal(s['value'], smsc.lstrip('+'), 'SMSC number')
            require(s['ton'] == 1 if smsc.startswith('+') else s['ton'] in (0, 2), 'SMSC type of number {0} for {1}', s['ton'], smsc)
            equal(s['npi'], 1, 'SMSC numbering plan')
            labels.append('smsc %s digits' % ('odd' if len(smsc.lstrip('+')) % 2 else 'even'))
        else:
            equal(f['smsc'], None, 'SMSC number')
        v = kw.get('validity')
        if v is None:
            equal(f['vp'], None, 'TP-VP')
        elif isinstance(v, TD):
            require(f['vp'] is not None and f['vp'][0] == 'rel', 'relative validity requested, got {0}', f['vp'])
            equal(f['vp'][1], expected_rel(v), 'TP-VP for a validity of %s' % v)
            labels.append('relative validity')
        else:
            require(f['vp'] is not None and f['vp'][0] == 'abs', 'absolute validity requested, got {0}', f['vp'])
            equal(f['vp'][1], tuple(v), 'absolute TP-VP')
            labels.append('absolute validity %s' % ('-' if v[6] < 0 else '+'))
    if kw.get('sendFlash'):
        labels.append('flash')
    return labels


def gen():
    return st.tuples(st.one_of(gens.gsm_text(0, 30), gens.any_text(400)),
                     st.one_of(gens.number(), gens.alnum_name().map(lambda n: ('alnum', n))), options())


def sweep(tier):
    for o in range(256):
        for d in (-1, 0, 1):
            v = REL[o] + TD(seconds=d)
            if TD(minutes=5) <= v < TD(days=442):
                yield ('hi', '+123', {'reference': o, 'validity': v})
    for q in range(-79, 80):
        yield ('hi', '123', {'reference': 0, 'validity': (2013, 7, 18, 23, 59, 1, q)})
    for srr in (True, False):
        for rd in (True, False):
            for fl in (True, False):
                for smsc in (None, '+1', '+12', '1', '12', '+278312345'):
                    for text in ('hello', '\u4f60', 'x' * 161, '\u4f60' * 71):
                        for v in (None, TD(hours=1), (2020, 2, 29, 12, 0, 0, -14)):
                            yield (text, '+27820000', {'reference': 77, 'requestStatusReport': srr, 'rejectDuplicates': rd,
                                                       'sendFlash': fl, 'smsc': smsc, 'validity': v})
    for n in range(1, 21):
        yield ('hi', '+' + ('1234567890' * 2)[:n], {'reference': 0})
        yield ('hi', ('0987654321' * 2)[:n], {'reference': 0, 'smsc': ('0987654321' * 2)[:n]})


def run_bad(case):
    v = case[0]
    bad = {'int': 5, 'str': '1 day', 'float': 3.5, 'list': [TD(days=1)], 'date': datetime.date(2020, 1, 1), 'true': True, 'zero': 0}[v]
    try:
        c01.encode('+123', case[1], validity=bad)
    except TypeError:
        return True
    raise Violation('validity {0!r} was not refused with TypeError'.format(bad))


SUBS = [
    Sub('options', run, gen, quick=5000, thorough=100000, shards=6, rule='random option combinations; every header field compared'),
    Sub('sweep', run, None, enum=sweep, shards=3, rule='all validity octets and offsets, all flag combinations, number lengths'),
    Sub('badvalidity', run_bad, None, enum=lambda tier: [(k, t) for k in ('int', 'str', 'float', 'list', 'date', 'true', 'zero') for t in ('hello', 'x' * 200)],
        shards=1, rule='validity of other types'),
]
