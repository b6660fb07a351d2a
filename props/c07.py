# -*- coding: utf-8 -*-
""" C07: GSM-7 and UCS2 text codecs are exact inverses and reject the rest """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal


def m():
    return load.plain()['gsmmodem.pdu']


def enc(text, *a, **k):
    return bytes(m().encodeGsm7(text, *a, **k))


def run_text(case):
    text = case
    good = ''.join(c for c in text if c in refpdu.CH2SEPT)
    want = bytes(refpdu.septets(good))
    equal(enc(text, discardInvalid=True), want, 'encoding of %r discarding invalid characters' % text)
    if good == text:
        equal(enc(text), want, 'encoding of %r' % text)
        equal(enc(text, False), want, 'encoding of %r' % text)
        equal(m().decodeGsm7(bytearray(want)), text, 'decoding of %r' % text)
        equal(m().decodeGsm7(want.decode('latin-1')), text, 'decoding of %r given as str' % text)
        return ['valid']
    try:
        r = enc(text)
    except ValueError:
        return ['invalid']
    raise Violation('{0!r} contains characters GSM-7 cannot encode, but encodeGsm7 returned {1!r}'.format(text, r))


def gen_text():
    return st.one_of(gens.gsm_text(0, 60), st.text(max_size=30),
                     st.text(alphabet=st.one_of(gens.gsm_char, gens.bmp_char, st.characters(), st.sampled_from('\x1b\xff\x0c')), max_size=30))


def run_codes(case):
    """ valid code sequences: list of ('b', code) / ('e', code) """
    codes = bytearray()
    want = ''
    for kind, c in case:
        if kind == 'b':
            codes.append(c)
            want += chr(refpdu.BASIC[c])
        else:
            codes.extend([0x1B, c])
            want += chr(refpdu.EXT[c])
    equal(m().decodeGsm7(codes), want, 'decoding of %r' % bytes(codes))
    equal(enc(want), bytes(codes), 'encoding of %r' % want)
    return bool(case)


def gen_codes():
    return st.lists(st.one_of(st.integers(0, 127).filter(lambda c: c != 0x1B).map(lambda c: ('b', c)),
                              st.sampled_from(sorted(refpdu.EXT)).map(lambda c: ('e', c))), max_size=60)


def run_ucs2(case):
    text, extra = case
    want = b''.join(bytes([ord(c) >> 8, ord(c) & 255]) for c in text)
    equal(bytes(m().encodeUcs2(text)), want, 'UCS2 encoding of %r' % text)
    it = iter(bytearray(want + extra))
    equal(m().decodeUcs2(it, len(want)), text, 'UCS2 decoding of %r' % text)
    equal(bytes(it), extra, 'octets left after decoding %d octets' % len(want))
    return bool(text)


def run_range(case):
    lo, hi = case
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        run_text(chr(cp))
        if cp < 0x10000:
            run_ucs2((chr(cp), b''))
    return True


SUBS = [
    Sub('text', run_text, gen_text, quick=5000, thorough=150000, shards=4, rule='strings over all of Unicode biased to GSM characters; label = valid or not'),
    Sub('codes', run_codes, gen_codes, quick=3000, thorough=60000, enum=lambda t: [[('b', c)] for c in range(128) if c != 0x1B] + [[('e', c)] for c in refpdu.EXT], shards=2,
        rule='sequences of valid codes; non-empty'),
    Sub('ucs2', run_ucs2, lambda: st.tuples(st.text(alphabet=gens.bmp_char, max_size=70), st.binary(max_size=4)), quick=3000, thorough=40000, shards=2,
        rule='BMP strings followed by unrelated octets; non-empty'),
    Sub('chars', run_range, None, enum=lambda tier: [(i, min(i + 512, 0x110000)) for i in range(0, 0x10000 if tier == 'quick' else 0x110000, 512)], shards=4,
        rule='every single character (BMP; all of Unicode in the thorough tier), 512 per case'),
]
