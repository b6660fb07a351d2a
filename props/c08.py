# -*- coding: utf-8 -*-
""" C08: septet packing is exact, and unpacking inverts it """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal


def m():
    return load.plain()['gsmmodem.pdu']


def expected_unpack(data):
    """ the codes contained in whole octets; a last code 0 that exactly fills the last octet is indistinguishable from padding """
    n = len(data) * 8 // 7
    codes = refpdu.unpack(data, n)
    if data and len(data) % 7 == 0 and codes[-1] == 0:
        return codes, codes[:-1]
    return codes, codes


def run(case):
    codes, pad, tail = case
    fill = (7 - pad) % 7
    want = refpdu.pack(codes, fill) if codes else b''
    if codes or pad == 0:
        equal(bytes(m().packSeptets(bytearray(codes), padBits=pad)), want, 'packing of %r with padBits=%d' % (codes, pad))
    if pad:
        return bool(codes)
    equal(bytes(m().packSeptets(bytearray(codes))), want, 'packing of %r' % (codes,))
    if codes:
        equal(bytes(m().packSeptets(bytes(codes).decode('latin-1'))), want, 'packing of %r given as str' % (codes,))
    long_, short = expected_unpack(want)
    for what, arg in (('bytearray', bytearray(want)), ('str', want.decode('latin-1')), ('iterator', iter(bytearray(want)))):
        got = list(m().unpackSeptets(arg))
        require(got in (long_, short), 'unpacking {0!r} ({1}) gave {2}, expected {3}', want, what, got, short)
        # the codes packed must come back (apart from the indistinguishable final 0)
        require(got == codes or got == codes[:-1] and codes[-1] == 0 and len(want) % 7 == 0
                or got == codes + [0] and len(want) % 7 == 0, 'unpack(pack({0})) = {1}', codes, got)
    it = iter(bytearray(want) + bytearray(tail))
    got = list(m().unpackSeptets(it, len(want))) if want else []
    require(got in (long_, short), 'unpacking {0} octets from a longer stream gave {1}, expected {2}', len(want), got, short)
    equal(bytes(it), bytes(tail), 'octets left in the stream after unpacking %d octets' % len(want))
    return ['len%%8=%d' % (len(codes) % 8), 'trailing zero' if codes and codes[-1] == 0 else 'other']


def gen():
    return st.tuples(st.one_of(st.lists(st.integers(0, 127), max_size=40), st.lists(st.integers(0, 127), max_size=200),
                               st.lists(st.sampled_from([0, 127, 64, 1]), max_size=40)),
                     st.integers(0, 6), st.binary(max_size=5))


def enum(tier):
    for n in range(0, 65 if tier == 'quick' else 200):
        for pad in range(7):
            for pat in ([0], [127], [0x55, 0x2A], [1, 2, 4, 8, 16, 32, 64]):
                yield ((pat * n)[:n], pad, b'\xff\x00\x7f')
                if n:
                    yield ((pat * n)[:n - 1] + [0], pad, b'\xff')


SUBS = [Sub('pack', run, gen, quick=6000, thorough=150000, enum=enum, shards=4,
            rule='code sequences with padding bits and trailing octets; non-trivial: at least one code')]
