# -*- coding: utf-8 -*-
""" C10: user data header elements survive encoding and decoding """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c04


def m():
    return load.plain()['gsmmodem.pdu']


def meaning(e):
    M = m()
    if isinstance(e, M.Concatenation):
        return ('concat', e.reference, e.parts, e.number)
    if isinstance(e, M.PortAddress):
        return ('port', e.destination, e.source)
    return ('raw', e.id, bytes(e.data))


def ref_meaning(iei, data):
    if iei == 0 and len(data) == 3 or iei == 8 and len(data) == 4:
        return ('concat', int.from_bytes(data[:-2], 'big'), data[-2], data[-1])
    if iei == 4 and len(data) == 2 or iei == 5 and len(data) == 4:
        h = len(data) // 2
        return ('port', int.from_bytes(data[:h], 'big'), int.from_bytes(data[h:], 'big'))
    return ('raw', iei, bytes(data))


def ref_parse(b):
    return b[0], b[1], bytes(b[2:])


def check_octets(octets, want_meaning, what):
    octets = bytes(octets)
    iei, n, data = ref_parse(octets)
    equal(n, len(data), what + ': length octet')
    equal(ref_meaning(iei, data), want_meaning, what)


def run_decode(case):
    (iei, data), tail = case
    raw = bytes([iei, len(data)]) + data
    it = iter(bytearray(raw) + bytearray(tail))
    e = m().InformationElement.decode(it)
    equal(bytes(it), bytes(tail), 'octets left after decoding the element')
    equal((e.id, e.dataLength, bytes(e.data)), (iei, len(data), bytes(data)), 'decoded element')
    equal(len(e), len(raw), 'length of the element')
    cls = {0: 'Concatenation', 8: 'Concatenation', 4: 'PortAddress', 5: 'PortAddress'}.get(iei, 'InformationElement')
    equal(type(e).__name__, cls, 'class of element 0x%02X' % iei)
    equal(meaning(e), ref_meaning(iei, data), 'meaning of the element')
    enc = e.encode()
    check_octets(enc, ref_meaning(iei, data), 're-encoded element')
    if cls == 'InformationElement':
        equal(bytes(enc), raw, 're-encoded element')
    equal(len(e), len(bytes(enc)), 'length of the element after encoding')
    # built directly
    e2 = m().InformationElement(iei, len(data), list(data))
    equal(meaning(e2), ref_meaning(iei, data), 'meaning of a constructed element')
    equal(type(e2).__name__, cls, 'class of a constructed element')
    return [cls]


def run_build(case):
    """ elements built from their fields """
    kind, a, b, c = case
    if kind == 'concat':
        e = m().Concatenation()
        e.reference, e.parts, e.number = a, b, c
        want = ('concat', a, b, c)
    else:
        e = m().PortAddress()
        e.destination, e.source = a, b
        want = ('port', a, b)
    enc = bytes(e.encode())
    check_octets(enc, want, 'encoded %s element' % kind)
    equal(len(e), len(enc), 'length of the element')
    back = m().InformationElement.decode(iter(bytearray(enc)))
    equal(meaning(back), want, 'element decoded again')
    return ['%s %s' % (kind, 'wide' if max(a, b if kind == 'port' else 0) > 255 else 'narrow')]


def gen_build():
    w = st.one_of(st.integers(0, 65535), st.sampled_from([0, 254, 255, 256, 257, 65535, 32768, 511, 512]))
    o = st.integers(0, 255)
    return st.one_of(st.tuples(st.just('concat'), w, o, o), st.tuples(st.just('port'), w, w, st.just(0)))


def run_header(case):
    """ a whole header inside a received message """
    ies, kind, payload = case
    data, _ = refpdu.enc_deliver('+27', '+123', kind, payload, (2013, 1, 2, 3, 4, 5, 0), gens.ie_bytes(ies))
    r = c04.decode(bytearray(data))
    c04.check_udh(r.get('udh'), ies)
    for e, (iei, d) in zip(r['udh'], ies):
        equal(meaning(e), ref_meaning(iei, d), 'meaning of a header element')
    equal(r['text'], payload, 'text after the header')
    return ['elements:%d' % len(ies), kind]


@st.composite
def gen_header(draw):
    ies = draw(st.lists(gens.ie(), min_size=1, max_size=8))
    while len(ies) > 1 and len(gens.ie_bytes(ies)) > 120:
        ies = ies[:-1]
    return (ies, draw(st.sampled_from(['gsm7', 'ucs2'])), draw(st.text(alphabet=gens.gsm_char, max_size=8).map(lambda t: t[:6])))


SUBS = [
    Sub('element', run_decode, lambda: st.tuples(st.one_of(gens.ie(60), gens.ie(137)), st.binary(max_size=4)), quick=3000, thorough=60000,
        enum=lambda tier: [((i, bytes(k)), b'\x01') for i in range(256) if i not in (0, 4, 5, 8) for k in (0, 1, 5)], shards=3,
        rule='elements of every identifier, decoded and re-encoded'),
    Sub('build', run_build, gen_build, quick=3000, thorough=60000, shards=2, rule='concatenation and port elements built from fields'),
    Sub('header', run_header, gen_header, quick=2000, thorough=40000, shards=3, rule='headers of 1..8 elements in a message'),
]
