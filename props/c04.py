# -*- coding: utf-8 -*-
""" C04: decoding an SMS-DELIVER PDU returns exactly what was sent """
import datetime
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal


def decode(data):
    return load.plain()['gsmmodem.pdu'].decodeSmsPdu(data)


FORMS = ('upper', 'lower', 'bytearray')


def as_form(data, form):
    if form == 'upper':
        return data.hex().upper()
    if form == 'lower':
        return data.hex()
    return bytearray(data)


def check_time(got, want, what):
    require(isinstance(got, datetime.datetime), '{0} is not a datetime: {1!r}', what, got)
    equal((got.year, got.month, got.day, got.hour, got.minute, got.second), tuple(want[:6]), what)
    equal(got.utcoffset(), datetime.timedelta(minutes=15 * want[6]), what + ' UTC offset')


def check_udh(got, ies):
    require(got is not None, 'user data header missing')
    equal(len(got), len(ies), 'number of header elements')
    for g, (iei, data) in zip(got, ies):
        equal((g.id, g.dataLength, bytes(g.data)), (iei, len(data), bytes(data)), 'header element')
        if iei in (0, 8):
            equal((g.reference, g.parts, g.number), (int.from_bytes(data[:-2], 'big'), data[-2], data[-1]), 'concatenation element')
        if iei in (4, 5):
            h = len(data) // 2
            equal((g.destination, g.source), (int.from_bytes(data[:h], 'big'), int.from_bytes(data[h:], 'big')), 'port element')


def addr_value(addr):
    return addr[1] if isinstance(addr, tuple) else addr


def run(case):
    smsc, addr, kind, payload, when, ies, pid, dcs, extra, national, form = case
    udh = gens.ie_bytes(ies)
    data, tlen = refpdu.enc_deliver(smsc, addr, kind, payload, when, udh, pid, dcs, extra, national)
    r = decode(as_form(data, form))
    equal(r.get('type'), 'SMS-DELIVER', 'type')
    equal(r.get('smsc'), smsc, 'SMSC')
    equal(r.get('number') or '', addr_value(addr), 'number')
    equal(r.get('protocol_id'), pid, 'protocol identifier')
    check_time(r.get('time'), when, 'time')
    equal(r.get('tpdu_length'), tlen, 'TPDU length')
    want = payload if kind != '8bit' else ''.join(chr(b) for b in payload)
    if ies:
        check_udh(r.get('udh'), ies)
    else:
        require(not r.get('udh'), 'unexpected user data header')
    equal(r.get('text'), want, 'text')
    labels = [kind, 'udh' if ies else 'no udh']
    if kind == 'gsm7':
        n = len(refpdu.septets(payload))
        hl = len(udh) + 1 if udh else 0
        if hl * 8 % 7 == 0 and hl:
            labels.append('header ends on a septet boundary')
        if payload.endswith('@') and (n + -(-hl * 8 // 7)) % 8 == 0:
            labels.append('trailing @ filling the last septet')
    if isinstance(addr, tuple):
        labels.append('alphanumeric sender')
    return labels


# data coding octets of all coding groups (GSM 03.38): general, automatic deletion, reserved (GSM-7), message waiting, data coding/message class
CLASS = {'gsm7': [0x00, 0x10, 0x11, 0x12, 0x13] * 3 + [0x40, 0x50, 0x53, 0x80, 0x9F, 0xB4, 0xB8, 0xC0, 0xC8, 0xCB, 0xD0, 0xD9, 0xDB, 0xF0, 0xF1, 0xF2, 0xF3],
         '8bit': [0x04, 0x14, 0x15, 0x16, 0x17] * 2 + [0x44, 0x54, 0x55, 0xF4, 0xF5, 0xF6, 0xF7],
         'ucs2': [0x08, 0x18, 0x19, 0x1A, 0x1B] * 2 + [0x48, 0x58, 0x5A, 0xE0, 0xE1, 0xE8, 0xEB]}


def kind_of(dcs):
    if dcs & 0x80 == 0:
        return ['gsm7', '8bit', 'ucs2', None][dcs >> 2 & 3] if not dcs & 0x20 else None      # compressed or reserved
    return 'ucs2' if dcs >> 4 == 14 else None if dcs >> 4 == 15 and dcs & 8 else '8bit' if dcs >> 4 == 15 and dcs & 4 else 'gsm7'


@st.composite
def gen(draw):
    smsc = draw(st.one_of(st.none(), gens.number(1, 20)))
    addr = draw(gens.address())
    ies = draw(st.one_of(st.just([]), st.lists(gens.ie(), min_size=1, max_size=4), st.lists(gens.ie(), min_size=1, max_size=1)))
    while ies and len(gens.ie_bytes(ies)) > 130:
        ies = ies[:-1]
    hl = len(gens.ie_bytes(ies)) + 1 if ies else 0
    kind = draw(st.sampled_from(['gsm7', 'gsm7', 'gsm7', 'ucs2', '8bit']))
    if kind == 'gsm7':
        room = 160 - -(-hl * 8 // 7)
        payload = draw(st.one_of(gens.gsm_text(0, 24), gens.gsm_text(0, room), gens.long_gsm_text(room + 1),
                                 st.tuples(gens.gsm_text(0, 16), st.just('@')).map(''.join)))
        while len(refpdu.septets(payload)) > room:
            payload = payload[:-1]
    elif kind == 'ucs2':
        room = (140 - hl) // 2
        payload = draw(st.text(alphabet=st.one_of(gens.bmp_char, gens.gsm_char), max_size=room))
    else:
        payload = draw(st.binary(max_size=140 - hl))
    when = draw(gens.pdu_time)
    dcs = draw(st.sampled_from(CLASS[kind]))
    extra = draw(st.sampled_from([0x04, 0x00, 0x24, 0x84, 0xA4]))
    return (smsc, addr, kind, payload, when, ies, draw(st.integers(0, 255)), dcs, extra, draw(st.booleans()),
            draw(st.sampled_from(FORMS)))


WHEN = (2014, 2, 28, 7, 8, 9, 14)
SAMPLE = {'gsm7': 'a\u20ac@', '8bit': b'a\x80\xff', 'ucs2': 'a\u20ac\u4e2d'}


def sweep(tier):
    """ all alignments: text length x header length """
    for hl in [0] + list(range(2, 16 if tier == 'quick' else 40)):
        ies = [(0x70, bytes(range(1, hl - 1)))] if hl else []
        room = 160 - (-(-(hl + 1) * 8 // 7) if hl else 0)
        for n in range(0, room + 1):
            for pat in ('@', 'az', '\u00e0'):
                if tier == 'quick' and pat == 'az' and n % 8 not in (0, 7):
                    continue
                t = (pat * n)[:n]
                yield ('+27123', '+2712', 'gsm7', t, WHEN, ies, 0, 0, 4, True, 'upper')
                if n and pat == 'az':
                    yield ('+27123', '+2712', 'gsm7', t[:-1] + '@', WHEN, ies, 0, 0, 4, True, 'upper')
    for hl in (0, 5, 6, 7):
        ies = [(0x70, bytes(hl - 2))] if hl else []
        for n in range(0, (140 - (hl + 1 if hl else 0)) // 2 + 1):
            yield (None, '2712', 'ucs2', '\u0100' * n, WHEN, ies, 0, 8, 4, True, 'upper')
            yield (None, '2712', '8bit', bytes(range(n)), WHEN, ies, 0, 4, 4, True, 'upper')
    for n in range(1, 21):
        for plus in ('', '+'):
            yield (plus + ('1234567890' * 2)[:n], plus + ('9876543210' * 2)[:n], 'gsm7', 'hi', WHEN, [], 0, 0, 4, False, 'lower')
    for national in (True, False):
        yield (None, '', 'gsm7', 'hi', WHEN, [], 0, 0, 4, national, 'upper')
        yield ('+27123', ('alnum', ''), 'ucs2', '\u0416', WHEN, [], 0, 8, 4, national, 'upper')
    for n in range(1, 12):
        for c in 'a@\u00e0Z1':
            name = ('b' + c * n)[:n] if c == '1' else c * n
            if c == '1' and n == 1:
                continue
            yield (None, ('alnum', name), 'gsm7', 'hi', WHEN, [], 0, 0, 4, True, 'upper')
    for dcs in range(256):
        if kind_of(dcs):
            for ies in ([], [(0, b'\x05\x02\x01')]):
                yield (None, '+2712', kind_of(dcs), SAMPLE[kind_of(dcs)], WHEN, ies, 0, dcs, 4, True, 'upper')
    for q in range(-79, 80):
        yield (None, '1', 'gsm7', 'x', (2013, 1, 31, 23, 59, 59, q), [], 0, 0, 4, True, 'upper')


SUBS = [
    Sub('decode', run, gen, quick=6000, thorough=150000, shards=6, rule='random well-formed SMS-DELIVER PDUs from the reference encoder; all fields compared'),
    Sub('sweep', run, None, enum=sweep, shards=4, rule='text length x header length alignment sweep; address lengths; time zones'),
]
