# -*- coding: utf-8 -*-
""" Hypothesis strategies shared by the property modules (all produce plain data) """
import calendar
from hypothesis import strategies as st
from . import refpdu

BASIC = refpdu.BASIC_CHARS
EXT = refpdu.EXT_CHARS
COMMON = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,!?@'

gsm_char = st.one_of(st.sampled_from(COMMON), st.sampled_from(BASIC), st.sampled_from(EXT), st.just('@'))
bmp_char = st.one_of(st.integers(0x20, 0xD7FF).map(chr), st.integers(0xE000, 0xFFFF).map(chr),
                     st.integers(0, 0x1F).map(chr))
nongsm_char = bmp_char.filter(lambda c: c not in refpdu.CH2SEPT)


def gsm_text(lo=0, hi=160):
    return st.text(alphabet=gsm_char, min_size=lo, max_size=hi)


def _build_long(args):
    """ A long text built from a repeated seed plus edits at given positions (keeps the data Hypothesis draws small) """
    seed, length, edits = args
    t = (seed * (length // max(1, len(seed)) + 1))[:length]
    for pos, c in edits:
        if t:
            p = pos % len(t)
            t = t[:p] + c + t[p + 1:]
    return t


NEAR_GSM = sorted(set(x + d for k in (1, 2, 3, 4, 5, 8, 13) for x in (153 * k, 160 * k) for d in (-8, -3, -2, -1, 0, 1, 2, 3, 8)))
NEAR_UCS = sorted(set(x + d for k in (1, 2, 3, 4, 5, 8, 13) for x in (67 * k, 70 * k) for d in (-3, -2, -1, 0, 1, 2, 3)))


def long_gsm_text(maxlen=2200):
    return st.tuples(st.text(alphabet=gsm_char, min_size=1, max_size=8),
                     st.one_of(st.sampled_from([n for n in NEAR_GSM if n <= maxlen] or [maxlen]), st.integers(0, maxlen), st.integers(140, 330)),
                     st.lists(st.tuples(st.one_of(st.sampled_from([n for n in NEAR_GSM]), st.integers(0, maxlen)), gsm_char), max_size=6)
                     ).map(_build_long)


def long_ucs_text(maxlen=900):
    return st.tuples(st.text(alphabet=st.one_of(bmp_char, nongsm_char, gsm_char), min_size=1, max_size=6),
                     st.one_of(st.sampled_from([n for n in NEAR_UCS if n <= maxlen] or [maxlen]), st.integers(0, maxlen), st.integers(60, 150)),
                     st.lists(st.tuples(st.one_of(st.sampled_from(NEAR_UCS), st.integers(0, maxlen)), st.one_of(nongsm_char, gsm_char)), max_size=6)
                     ).map(_build_long)


def any_text(maxlen=2200):
    return st.one_of(gsm_text(0, 40), long_gsm_text(maxlen), long_ucs_text(min(900, maxlen)),
                     st.text(alphabet=st.one_of(bmp_char, gsm_char), max_size=40))


digits = lambda lo, hi: st.text(alphabet='0123456789', min_size=lo, max_size=hi)


def number(lo=1, hi=20):
    return st.tuples(st.booleans(), digits(lo, hi)).map(lambda t: ('+' if t[0] else '') + t[1])


def alnum_name(lo=1, hi=11):
    """ A GSM-7 name of lo..hi septets that is not itself a number """
    def fix(t):
        while sum(len(refpdu.CH2SEPT[c]) for c in t) > hi:
            t = t[:-1]
        return t
    return st.text(alphabet=st.one_of(st.sampled_from(COMMON), st.sampled_from(BASIC.replace('\n', '').replace('\r', '')),
                                      st.sampled_from(EXT.replace('\x0c', ''))),
                   min_size=lo, max_size=hi).map(fix).filter(
        lambda t: len(t) >= lo and not t.isdigit() and not (t[0] == '+' and t[1:].isdigit()))


def address():
    """ number, name, or nothing (as of anonymous messages) """
    name = alnum_name().map(lambda n: ('alnum', n))
    return st.one_of(number(1, 20), name, number(1, 20), name, number(1, 20), st.just(''))


def _mk_time(t):
    y, mo, d, h, mi, s, q = t
    return (y, mo, min(d, calendar.monthrange(y, mo)[1]), h, mi, s, q)


quarter = st.one_of(st.integers(-79, 79), st.sampled_from([-79, -48, -40, -39, -32, -20, -19, -16, -10, -9, -1, 0, 1, 7, 8, 9, 10, 22, 56, 79]))
pdu_time = st.tuples(st.integers(1969, 2068), st.integers(1, 12), st.integers(1, 31), st.integers(0, 23), st.integers(0, 59),
                     st.integers(0, 59), quarter).map(_mk_time)

iei_other = st.integers(0, 255).filter(lambda i: i not in (0, 4, 5, 8))


@st.composite
def ie(draw, maxdata=20):
    kind = draw(st.sampled_from(['c8', 'c16', 'p8', 'p16', 'other']))
    b = st.integers(0, 255)
    if kind == 'c8':
        return (0x00, bytes([draw(b), draw(st.integers(1, 255)), draw(st.integers(1, 255))]))
    if kind == 'c16':
        return (0x08, bytes([draw(b), draw(b), draw(st.integers(1, 255)), draw(st.integers(1, 255))]))
    if kind == 'p8':
        return (0x04, bytes([draw(b), draw(b)]))
    if kind == 'p16':
        return (0x05, bytes([draw(b), draw(b), draw(b), draw(b)]))
    return (draw(iei_other), draw(st.binary(min_size=0, max_size=maxdata)))


def ie_bytes(ies):
    return b''.join(bytes([i, len(d)]) + d for i, d in ies)
