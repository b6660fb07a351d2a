# -*- coding: utf-8 -*-
""" C05: decoding status-report and submit PDUs returns exactly their fields """
import datetime
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c01, c03, c04

decode, as_form, addr_value = c04.decode, c04.as_form, c04.addr_value


def run_report(case):
    smsc, ref, addr, sent, done, status, extra, tail, form = case
    data, tlen = refpdu.enc_report(smsc, ref, addr, sent, done, status, extra, tail)
    r = decode(as_form(data, form))
    equal(r.get('type'), 'SMS-STATUS-REPORT', 'type')
    equal(r.get('smsc'), smsc, 'SMSC')
    equal(r.get('reference'), ref, 'reference')
    equal(r.get('number') or '', addr_value(addr), 'number')
    c04.check_time(r.get('time'), sent, 'time')
    c04.check_time(r.get('discharge'), done, 'discharge')
    equal(r.get('status'), status, 'status')
    equal(r.get('tpdu_length'), tlen, 'TPDU length')
    return ['status %s' % ('0' if status == 0 else 'other')]


def gen_report():
    return st.tuples(st.one_of(st.none(), gens.number(1, 20)), st.integers(0, 255),
                     gens.address(),
                     gens.pdu_time, gens.pdu_time, st.integers(0, 255), st.sampled_from([0x00, 0x04, 0x20, 0x24]),
                     st.sampled_from([b'', b'\x00', b'\x01\x00']), st.sampled_from(c04.FORMS))


def enum_report(tier):
    for s in range(256):
        yield ('+2712', s, '+27820', (2013, 1, 2, 3, 4, 5, 8), (2013, 1, 2, 3, 5, 6, -8), s, 4, b'', 'upper')


def enhanced(kind, value, single, pad):
    """ the octets of a validity period in the enhanced format (GSM 03.40, 9.2.3.12.3) """
    bcd = lambda n: n % 10 << 4 | n // 10
    body = {0: [], 1: [value % 256], 2: [value % 255 + 1], 3: [bcd(value % 100), bcd(value % 60), bcd(value // 7 % 60)]}[kind]
    return tuple([kind | (0x40 if single else 0)] + body + [pad] * (6 - len(body)))


def enhanced_period(o):
    kind = o[0] & 7
    if kind == 0:
        return None
    if kind == 1:
        return refpdu.rel_period(o[1])
    if kind == 2:
        return datetime.timedelta(seconds=o[1])
    h, m, s = [(b & 15) * 10 + (b >> 4) for b in o[1:4]]
    return datetime.timedelta(hours=h, minutes=m, seconds=s)


def check_validity(got, validity):
    if validity is None:
        require(got is None, 'validity reported although there is none: {0!r}', got)
    elif validity[0] == 'rel':
        equal(got, refpdu.rel_period(validity[1]), 'relative validity of octet %d' % validity[1])
    elif validity[0] == 'enh':
        equal(got, enhanced_period(validity[1]), 'enhanced validity %s' % bytes(validity[1]).hex())
    else:
        c04.check_time(got, validity[1], 'absolute validity')


def run_submit(case):
    smsc, ref, addr, kind, payload, validity, ies, pid, dcs, extra, form = case
    data, tlen = refpdu.enc_submit(smsc, ref, addr, kind, payload, validity, gens.ie_bytes(ies), pid, dcs, extra)
    r = decode(as_form(data, form))
    equal(r.get('type'), 'SMS-SUBMIT', 'type')
    equal(r.get('smsc'), smsc, 'SMSC')
    equal(r.get('reference'), ref, 'reference')
    equal(r.get('number') or '', addr_value(addr), 'number')
    equal(r.get('protocol_id'), pid, 'protocol identifier')
    equal(r.get('tpdu_length'), tlen, 'TPDU length')
    check_validity(r.get('validity'), validity)
    if ies:
        c04.check_udh(r.get('udh'), ies)
    equal(r.get('text'), payload if kind != '8bit' else ''.join(map(chr, payload)), 'text')
    return [kind, 'validity %s' % (validity[0] if validity else 'none')]


@st.composite
def gen_submit(draw):
    c = draw(c04.gen())
    smsc, addr, kind, payload, when, ies, pid, dcs, extra, national, form = c
    validity = draw(st.one_of(st.none(), st.integers(0, 255).map(lambda o: ('rel', o)), gens.pdu_time.map(lambda t: ('abs', t)),
                             st.tuples(st.integers(0, 3), st.integers(0, 9999), st.booleans(), st.sampled_from([0, 0, 0xFF])).map(lambda t: ('enh', enhanced(*t)))))
    return (smsc, draw(st.integers(0, 255)), addr, kind, payload, validity, ies, pid, dcs,
            draw(st.sampled_from([0x00, 0x20, 0x04, 0x24, 0x80])), form)


def enum_submit(tier):
    for o in range(256):
        yield (None, o, '+1', 'gsm7', 'ok', ('rel', o), [], 0, 0, 0, 'upper')
        for k in range(4):
            yield (None, o, '+1', 'gsm7', 'ok', ('enh', enhanced(k, o, o % 2, 0)), [], 0, 0, 0, 'upper')
    for q in range(-79, 80):
        yield (None, 1, '+1', 'gsm7', 'ok', ('abs', (2013, 1, 2, 3, 4, 5, q)), [], 0, 0, 0, 'upper')


def run_own(case):
    """ the encoder's PDUs read back by the decoder """
    text, number, kw, form = case
    pdus = c01.encode(addr_value(number), text, **c03.kwargs(kw))
    got = ''
    for i, p in enumerate(pdus):
        ref = refpdu.parse_submit(p.data)
        r = decode(p.data if form == 'bytearray' else str(p) if form == 'upper' else str(p).lower())
        equal(r.get('type'), 'SMS-SUBMIT', 'type')
        equal(r.get('number') or '', addr_value(number), 'number')
        equal(r.get('reference'), kw.get('reference', 0), 'reference')
        equal(r.get('smsc'), kw.get('smsc') or None, 'SMSC')
        equal(r.get('tpdu_length'), p.tpduLength, 'TPDU length')
        v = kw.get('validity')
        if v is None:
            require(r.get('validity') is None, 'validity {0!r}', r.get('validity'))
        elif isinstance(v, tuple):
            c04.check_time(r.get('validity'), v, 'absolute validity')
        else:
            equal(r.get('validity'), refpdu.rel_period(c03.expected_rel(v)), 'relative validity')
        if len(pdus) > 1:
            cs = [u for u in (r.get('udh') or []) if u.id in (0, 8)]
            require(len(cs) == 1, 'concatenation element lost')
            equal((cs[0].reference, cs[0].parts, cs[0].number), (kw.get('reference', 0), len(pdus), i + 1), 'concatenation element')
        equal(r.get('text'), ref['text'], 'text of part %d' % (i + 1))
        got += r['text']
    require(got == text, 'decoded text differs from the text encoded ({0!r} / {1!r})', got[:60], text[:60])
    return ['parts:%s' % min(4, len(pdus))]


def gen_own():
    return st.tuples(gens.any_text(), st.one_of(gens.number(), gens.alnum_name().map(lambda n: ('alnum', n))), c03.options(),
                     st.sampled_from(c04.FORMS))


SUBS = [
    Sub('report', run_report, gen_report, quick=2000, thorough=60000, enum=enum_report, shards=2, rule='random status reports; all 256 status octets'),
    Sub('submit', run_submit, gen_submit, quick=4000, thorough=80000, enum=enum_submit, shards=4, rule='random submit PDUs from the reference encoder; all validity octets'),
    Sub('own', run_own, gen_own, quick=2400, thorough=60000, shards=4, rule='encoder output decoded again; non-trivial: all'),
]
