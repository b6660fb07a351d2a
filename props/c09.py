# -*- coding: utf-8 -*-
""" C09: PDU timestamps and validity periods keep instant and time zone """
import datetime
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c01, c03, c04, c05

TD = datetime.timedelta


def run_time(case):
    when, fraction = case
    dt = c03.mkdt(when).replace(microsecond=fraction)
    # encoding (absolute validity), against the reference parser
    p = c01.encode('+123', 'x', validity=dt)[0]
    try:
        f = refpdu.parse_submit(p.data)
    except refpdu.Bad as e:
        raise Violation('validity {0}: malformed PDU ({1})'.format(dt, e))
    equal(f['vp'], ('abs', tuple(when)), 'encoded timestamp of %s' % dt)
    # through the decoder
    c04.check_time(c05.decode(p.data).get('validity'), when, 'validity after encoding and decoding')
    # received time stamps
    r = c04.decode(bytearray(refpdu.enc_deliver(None, '12', 'gsm7', 'x', when)[0]))
    c04.check_time(r['time'], when, 'service centre time stamp')
    require(r['time'] == dt.replace(microsecond=0), 'received time {0} is not the instant {1}', r['time'], dt)
    r = c04.decode(bytearray(refpdu.enc_report(None, 1, '12', when, when, 0)[0]))
    c04.check_time(r['time'], when, 'time of a status report')
    c04.check_time(r['discharge'], when, 'discharge time of a status report')
    equal(r['time'].dst(), TD(0), 'daylight saving offset')
    # a decoded time stays usable: copied or pickled, and given back as a validity
    for how, t in load.copies(load.plain(), r['time']):
        c04.check_time(t, when, 'decoded time after ' + how)
        require(t == r['time'] and t - r['time'] == TD(0), 'decoded time after {0}: {1}', how, t)
        p = c01.encode('+123', 'x', validity=t)[0]
        equal(refpdu.parse_submit(p.data)['vp'], ('abs', tuple(when)), 'decoded time encoded again (%s)' % how)
    return ['west' if when[6] < 0 else 'east', 'whole hour' if when[6] % 4 == 0 else 'fraction of an hour']


def enum_time(tier):
    for q in range(-79, 80):
        yield ((2013, 7, 18, 9, 59, 8, q), 0)
    for y in range(1969, 2069):
        yield ((y, 12, 31, 23, 59, 59, 4), 999999)
        if y % 4 == 0:
            yield ((y, 2, 29, 0, 0, 0, -4), 0)
    for mo in range(1, 13):
        for d in (1, 9, 10, 28):
            yield ((2020, mo, d, mo, d, 59 - d, 0), 0)


def run_naive(case):
    when = case
    try:
        c01.encode('+123', 'x', validity=datetime.datetime(*when[:6]))
    except ValueError:
        return True
    raise Violation('a naive validity timestamp was not refused')


def run_rel(case):
    seconds, = case
    v = TD(seconds=seconds)
    try:
        p = c01.encode('+123', 'x', validity=v)[0]
    except ValueError:
        require(v < TD(minutes=5) or v >= TD(days=441), 'validity {0} refused', v)
        return ['refused']
    f = refpdu.parse_submit(p.data)
    require(TD(minutes=5) <= v < TD(days=442), 'validity {0} is outside the encodable range, but was encoded as {1}', v, f['vp'])
    require(f['vp'][0] == 'rel', 'relative validity encoded as {0}', f['vp'])
    equal(f['vp'][1], c03.expected_rel(v), 'octet for a validity of %s' % v)
    equal(c05.decode(p.data).get('validity'), refpdu.rel_period(f['vp'][1]), 'validity decoded again')
    return ['encoded']


def enum_rel(tier):
    for o in range(256):
        s = int(refpdu.rel_period(o).total_seconds())
        for d in (-1, 0, 1):
            yield (s + d,)
    for s in (0, 1, 299, -1, -300, -86400, 442 * 86400, 500 * 86400, 10 ** 8, 441 * 86400 + 86399):
        yield (s,)


def run_octet(case):
    data = refpdu.enc_submit(None, 0, '1', 'gsm7', 'x', ('rel', case))[0]
    equal(c05.decode(bytearray(data)).get('validity'), refpdu.rel_period(case), 'validity of octet %d' % case)
    p = c01.encode('+123', 'x', validity=refpdu.rel_period(case))[0]
    got = refpdu.parse_submit(p.data)['vp']
    require(got[0] == 'rel' and refpdu.rel_period(got[1]) == refpdu.rel_period(case), 'period {0} encoded as {1}', refpdu.rel_period(case), got)
    return True


SUBS = [
    Sub('time', run_time, lambda: st.tuples(gens.pdu_time, st.sampled_from([0, 1, 500000, 999999])), quick=3000, thorough=60000, enum=enum_time, shards=4,
        rule='timestamps 1969..2068 x quarter-hour offsets, encoded and decoded; all offsets enumerated'),
    Sub('naive', run_naive, lambda: gens.pdu_time, quick=200, shards=1, rule='naive timestamps'),
    Sub('relative', run_rel, lambda: st.tuples(st.one_of(st.integers(-1000, 450 * 86400), st.integers(0, 90000))), quick=3000, thorough=60000, enum=enum_rel, shards=2,
        rule='periods around every table entry and outside the range; label = encoded or refused'),
    Sub('octets', run_octet, None, enum=lambda tier: range(256), shards=1, rule='all 256 relative validity octets'),
]
