# -*- coding: utf-8 -*-
""" C06: the PDU decoder answers any input with a message or EncodingError """
import datetime
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c04, c05

FIELDS = {'SMS-DELIVER': ('smsc', 'tpdu_length', 'number', 'protocol_id', 'time', 'text'),
          'SMS-SUBMIT': ('smsc', 'tpdu_length', 'reference', 'number', 'protocol_id', 'text'),
          'SMS-STATUS-REPORT': ('smsc', 'tpdu_length', 'reference', 'number', 'time', 'discharge', 'status')}


def probe(data):
    ns = load.plain()
    try:
        r = ns['gsmmodem.pdu'].decodeSmsPdu(data)
    except ns['gsmmodem.exceptions'].EncodingError:
        return 'EncodingError'
    except Exception as e:
        raise Violation('decodeSmsPdu({0!r}) raised {1}: {2} instead of EncodingError'.format(data, type(e).__name__, e))
    except BaseException as e:
        if type(e).__name__ == 'Hang':
            raise
        raise Violation('decodeSmsPdu({0!r}) raised {1}'.format(data, type(e).__name__))
    require(isinstance(r, dict), 'decodeSmsPdu({0!r}) returned {1!r}', data, r)
    require(r.get('type') in FIELDS, 'unknown message type {0!r} for {1!r}', r.get('type'), data)
    for f in FIELDS[r['type']]:
        require(f in r, '{0} without field {1} for {2!r}', r['type'], f, data)
    if 'text' in r:
        require(isinstance(r['text'], str), 'text is {0!r}', r['text'])
    for f in ('time', 'discharge'):
        if f in r:
            require(isinstance(r[f], datetime.datetime), '{0} is {1!r}', f, r[f])
            require(isinstance(r[f].utcoffset(), datetime.timedelta), '{0} has no usable UTC offset', f)
    return r['type']


def base_pdu(kind, c):
    if kind == 'deliver':
        smsc, addr, k, payload, when, ies, pid, dcs, extra, national, form = c
        return refpdu.enc_deliver(smsc, addr, k, payload, when, gens.ie_bytes(ies), pid, dcs, extra, national)[0]
    if kind == 'report':
        smsc, ref, addr, sent, done, status, extra, tail, form = c
        return refpdu.enc_report(smsc, ref, addr, sent, done, status, extra, tail)[0]
    smsc, ref, addr, k, payload, validity, ies, pid, dcs, extra, form = c
    return refpdu.enc_submit(smsc, ref, addr, k, payload, validity, gens.ie_bytes(ies), pid, dcs, extra)[0]


def forms(data, form):
    return {'upper': data.hex().upper(), 'lower': data.hex(), 'bytearray': bytearray(data), 'bytes': data.hex().encode('ascii')}[form]


def run_mut(case):
    """ base PDU with mutations: list of (op, position, value) """
    kind, c, muts, form = case
    data = bytearray(base_pdu(kind, c))
    for op, pos, val in muts:
        p = pos % (len(data) + 1)
        if op == 'cut':
            del data[p:]
        elif op == 'set' and data:
            data[p % len(data)] = val
        elif op == 'flip' and data:
            data[p % len(data)] ^= 1 << (val % 8)
        elif op == 'ins':
            data.insert(p, val)
        elif op == 'del' and data:
            del data[p % len(data)]
        elif op == 'dup':
            data[p:p] = data[:val % 12]
    return [probe(forms(bytes(data), form))]


base = st.one_of(st.tuples(st.just('deliver'), c04.gen()), st.tuples(st.just('report'), c05.gen_report()), st.tuples(st.just('submit'), c05.gen_submit()))


def gen_mut():
    mut = st.tuples(st.sampled_from(['cut', 'set', 'flip', 'ins', 'del', 'dup', 'set', 'flip']), st.one_of(st.integers(0, 40), st.integers(0, 180)),
                    st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 0x0F, 0x7F, 0x80, 0x1B, 0xFF, 0xF0, 0x40])))
    return st.tuples(base, st.lists(mut, min_size=1, max_size=4), st.sampled_from(['upper', 'lower', 'bytearray', 'bytes'])).map(
        lambda t: (t[0][0], t[0][1], t[1], t[2]))


def run_trunc(case):
    """ every truncation, and every hex-digit truncation, of one PDU """
    kind, c = case
    data = base_pdu(kind, c)
    seen = set()
    h = data.hex().upper()
    for i in range(len(h) + 1):
        seen.add(probe(h[:i]))
    for i in range(len(data)):
        seen.add(probe(bytearray(data[:i])))
    return sorted(seen)


def run_junk(case):
    return [probe(case)]


def gen_junk():
    return st.one_of(st.text(max_size=60), st.text(alphabet='0123456789ABCDEFabcdef', max_size=120), st.binary(max_size=60).map(bytearray),
                     st.binary(max_size=40), st.text(alphabet='0123456789ABCDEF \r\n+xZ', max_size=60),
                     st.lists(st.sampled_from(['00', '04', '44', '0B', '91', 'D0', 'FF', '7F', '1B', '05', '0003', '08', '9B', '99', '0C', '01', '02', '06', '51', '41', '21']),
                              max_size=60).map(''.join))


def enum_junk(tier):
    for a in range(256):
        yield '%02X' % a
        yield bytearray([0, a])
        for b in range(0, 256, 1 if tier == 'thorough' else 7):
            yield '00%02X%02X' % (a, b)
            yield bytearray([0, 4, 1, 0x91, 0xF1, 0, a, 0x31, 0x10, 0x20, 0x30, 0x40, 0x50, 0x80, b, 5, 0, 3, 1, 2, 1, 0x31])
            yield bytearray([0, 0x44, 1, 0x91, 0xF1, 0, 0, 0x31, 0x10, 0x20, 0x30, 0x40, 0x50, 0x80, 9, a, b, 3, 1, 2, 1, 0x31, 0x32, 0x33])
    for bad in ('', ' ', 'OK', '0', 'ZZ', '+CMGL: 1,1,,24', '\u4f60\u597d', b'', bytearray(), '00 04', '\x00'):
        yield bad


# one message of each type, octet by octet
FIX = [('deliver', ('+2712', '+27820', 'gsm7', 'hello w@rld', (2013, 1, 2, 3, 4, 5, 8), [(0, b'\x01\x02\x01')], 0, 0, 4, True, 'upper')),
       ('deliver', (None, ('alnum', 'Vodacom4U'), 'ucs2', 'h\u4f60', (2013, 1, 2, 3, 4, 5, -8), [], 0, 8, 4, True, 'upper')),
       ('report', ('+2712', 5, '+27820', (2013, 1, 2, 3, 4, 5, 8), (2013, 1, 2, 3, 4, 9, 8), 0, 4, b'', 'upper')),
       ('submit', (None, 5, '+27820', 'gsm7', 'hello', ('abs', (2013, 1, 2, 3, 4, 5, 8)), [(8, b'\x01\x02\x02\x01')], 0, 0, 0, 'upper')),
       ('submit', ('27', 5, '2782', '8bit', b'\x00\xff', ('rel', 255), [(5, b'\x01\x02\x02\x01')], 0, 4, 0, 'upper'))]


def run_octet(case):
    """ all 256 values of one octet of a fixed PDU """
    k, pos = case
    data = bytearray(base_pdu(*FIX[k]))
    seen = set()
    for v in range(256):
        d = bytearray(data)
        d[pos] = v
        seen.add(probe(d))
    return sorted(seen)


def enum_octet(tier):
    for k, f in enumerate(FIX):
        for pos in range(len(base_pdu(*f))):
            yield (k, pos)


SUBS = [
    Sub('mutate', run_mut, gen_mut, quick=8000, thorough=250000, shards=6, rule='generated valid PDUs with 1..4 mutations; label = outcome'),
    Sub('truncate', run_trunc, lambda: base, quick=400, thorough=8000, enum=lambda tier: FIX, shards=4, rule='every truncation of generated PDUs'),
    Sub('junk', run_junk, gen_junk, quick=4000, thorough=100000, enum=enum_junk, shards=4, rule='arbitrary strings and bytes; short PDUs enumerated'),
    Sub('octet', run_octet, None, enum=enum_octet, shards=4, rule='each octet of five fixed PDUs replaced by all 256 values'),
]
