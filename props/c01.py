# -*- coding: utf-8 -*-
""" C01: SMS-SUBMIT encoding never loses, adds or alters message text """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal


def encode(number, text, **kw):
    return load.plain()['gsmmodem.pdu'].encodeSmsSubmitPdu(number, text, **kw)


def reassemble(text, pdus, number):
    parts = []
    for p in pdus:
        try:
            parts.append(refpdu.parse_submit(p.data))
        except refpdu.Bad as e:
            raise Violation('PDU {0} of the message is not decodable: {1} ({2})'.format(len(parts) + 1, e, bytes(p.data).hex()))
    kinds = set(p['kind'] for p in parts)
    equal(kinds, {'gsm7' if refpdu.is_gsm7(text) else 'ucs2'}, 'alphabet used')
    for p in parts:
        equal(p['da']['value'], number.lstrip('+'), 'destination')
    if len(parts) > 1:
        order = []
        for p in parts:
            cs = [d for i, d in (p['udh'] or []) if i in (0, 8)]
            require(len(cs) == 1, 'part without concatenation header')
            order.append(cs[0][-1])
        equal(order, list(range(1, len(parts) + 1)), 'part numbers')
    got = ''.join(p['text'] for p in parts)
    if got != text:
        i = next((k for k in range(min(len(got), len(text))) if got[k] != text[k]), min(len(got), len(text)))
        raise Violation('the decoded text ({0} characters) differs from the text sent ({1} characters) from position {2}: got {3!r}, sent {4!r}'.format(
            len(got), len(text), i, got[i:i + 20], text[i:i + 20]))
    return parts


def run(case):
    text, number, ref, opts = case
    kw = dict(reference=ref)
    kw.update(opts)
    pdus = encode(number, text, **kw)
    parts = reassemble(text, pdus, number)
    n = len(parts)
    labels = [parts[0]['kind'], 'parts:%s' % (n if n < 4 else '4+')]
    if any(c in refpdu.EXT_CHARS for c in text):
        labels.append('extension chars')
    if not text:
        labels.append('empty')
    return labels


opts = st.fixed_dictionaries({}, optional={'requestStatusReport': st.booleans(), 'rejectDuplicates': st.booleans(),
                                           'sendFlash': st.booleans(), 'smsc': gens.number(3, 15)})


def gen():
    return st.tuples(gens.any_text(), gens.number(), st.integers(0, 255), opts)


def sweep(tier):
    """ Every length up to a limit with pinned characters; extension characters at every position around a boundary """
    top = 500 if tier == 'quick' else 1300
    for n in range(0, top):
        yield ('a' * n, '+12345678901', n % 256, {})
        if n % 3 == 0 or n < 330:
            yield ('@' * n, '5551', 7, {})
    for n in range(0, 260 if tier == 'quick' else 800):
        yield ('€' * n, '+4412', 1, {})
        yield ('\u4e2d' * n, '+4412', 255, {})
    for n in (160, 161, 306, 307, 320, 459, 460, 612):
        for pos in list(range(0, n)) if tier != 'quick' else [p for p in range(0, n) if p % 153 in (0, 1, 2, 150, 151, 152) or p % 160 < 2 or p % 160 > 157]:
            yield ('x' * pos + '~' + 'y' * max(0, n - pos - 2), '1', 3, {})
            yield ('x' * pos + '^|' + 'y' * max(0, n - pos - 3), '1', 3, {})
    for n in (255 * 153, 255 * 153 - 1, 254 * 153 + 1):
        yield ('q' * n, '+1', 9, {})
    yield ('\u0416' * (255 * 67), '+1', 9, {})
    yield ('ab\u4e2d' * (85 * 67), '+1', 200, {})


def run_bad(case):
    """ Characters outside the BMP (and messages that would need more than 255 parts): ValueError, or an undamaged message """
    text, number = case
    try:
        pdus = encode(number, text)
    except ValueError:
        return ['refused']
    got = ''
    try:
        for p in pdus:
            got += refpdu.parse_submit(p.data)['text']
    except refpdu.Bad as e:
        raise Violation('text outside the domain was neither refused nor encoded properly: {0}'.format(e))
    norm = lambda s: s.encode('utf-16-be', 'surrogatepass')
    require(norm(got) == norm(text), 'text outside the domain was damaged instead of refused')
    require(len(pdus) <= 255, 'more than 255 parts')
    return ['encoded']


def gen_bad():
    astral = st.integers(0x10000, 0x10FFFF).map(chr)
    return st.tuples(st.tuples(gens.any_text(300), astral, gens.any_text(300)).map(''.join), gens.number())


def bad_enum(tier):
    yield ('q' * (255 * 153 + 1), '+1')
    yield ('\u0416' * (255 * 67 + 1), '+1')
    yield ('q' * 60000, '+1')


def run_chars(case):
    """ every single BMP character, embedded in text """
    lo, hi = case
    for cp in range(lo, hi):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        c = chr(cp)
        for text in (c, 'a' + c + 'b'):
            reassemble(text, encode('+123', text), '+123')
    return True


SUBS = [
    Sub('roundtrip', run, gen, quick=6000, thorough=120000, shards=6,
        rule='random texts biased to split lengths x options; non-trivial: every case whose PDUs were decoded and compared'),
    Sub('sweep', run, None, enum=sweep, shards=4, rule='all lengths 0..N of pinned characters, extension characters at each boundary offset'),
    Sub('chars', run_chars, None, enum=lambda tier: [(i, min(i + 1024, 0x10000)) for i in range(0, 0x10000, 1024)], shards=4,
        rule='every BMP character on its own and inside a text (1024 per case)'),
    Sub('outside', run_bad, gen_bad, quick=400, enum=bad_enum, shards=1, rule='texts with a character beyond the BMP, or too long for 255 parts'),
]
