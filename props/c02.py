# -*- coding: utf-8 -*-
""" C02: SMS-SUBMIT PDUs are well formed and correctly numbered """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c01, c03


def units(text):
    if refpdu.is_gsm7(text):
        return len(refpdu.septets(text)), 160
    return len(text), 70


def check(pdus, text, ref):
    need, room = units(text)
    require(isinstance(pdus, (list, tuple)) and len(pdus) >= 1, 'no PDUs returned')
    parts = []
    for i, p in enumerate(pdus):
        try:
            f = refpdu.parse_submit(p.data)
        except refpdu.Bad as e:
            raise Violation('PDU {0} of {1} is malformed: {2} ({3})'.format(i + 1, len(pdus), e, bytes(p.data).hex()))
        equal(p.tpduLength, f['tpdu_len'], 'TPDU length reported for PDU %d of %d' % (i + 1, len(pdus)))
        hexstr = str(p)
        equal(hexstr.upper(), bytes(p.data).hex().upper(), 'hex form of the PDU')
        parts.append(f)
    if need <= room:
        equal(len(parts), 1, 'number of PDUs for a text of %d/%d units' % (need, room))
        require(parts[0]['udh'] is None and not parts[0]['udhi'], 'user data header in a single-PDU message')
    else:
        require(len(parts) > 1, 'text of {0} units in one PDU', need)
        refs, totals = set(), set()
        for i, f in enumerate(parts):
            require(f['udhi'] and f['udh'] is not None, 'part %d without user data header' % (i + 1))
            cs = [x for x in f['udh'] if x[0] in (0x00, 0x08)]
            require(len(cs) == 1, 'part {0} has {1} concatenation elements', i + 1, len(cs))
            iei, d = cs[0]
            require(len(d) == (3 if iei == 0 else 4), 'concatenation element of {0} octets with identifier {1}', len(d), iei)
            refs.add(int.from_bytes(d[:-2], 'big'))
            totals.add(d[-2])
            equal(d[-1], i + 1, 'part number')
            require(len(f['text']) > 0, 'part %d is empty' % (i + 1))
        equal(totals, {len(parts)}, 'total number of parts announced')
        require(len(refs) == 1, 'parts carry different concatenation references {0}', sorted(refs))
        equal(refs, {ref}, 'concatenation reference')
    # text_of() inside parse_submit already rejects a part that ends inside an escape pair
    return parts


def run(case):
    text, number, kw = case
    pdus = c01.encode(number[1] if isinstance(number, tuple) else number, text, **c03.kwargs(kw))
    parts = check(pdus, text, kw.get('reference', 0))
    need, room = units(text)
    lab = [parts[0]['kind'], 'single' if len(parts) == 1 else 'multi']
    if abs(need - room) <= 1:
        lab.append('at the one-PDU limit')
    if len(parts) > 1 and parts[0]['kind'] == 'gsm7' and any(len(p['septets']) == 152 for p in parts[:-1]):
        lab.append('escape pair moved to the next part')
    return lab


def gen():
    return st.tuples(gens.any_text(), st.one_of(gens.number(), gens.alnum_name().map(lambda n: ('alnum', n))), c03.options())


def sweep(tier):
    for case in c01.sweep(tier):
        yield (case[0], case[1], {'reference': case[2]})
    for ref in range(256):
        yield ('z' * 200, '+1', {'reference': ref})
        yield ('\u0416' * 100, '99', {'reference': ref})


SUBS = [
    Sub('wellformed', run, gen, quick=5000, thorough=100000, shards=6,
        rule='random texts biased to split lengths x options x addresses; every PDU parsed strictly to its last bit'),
    Sub('sweep', run, None, enum=sweep, shards=4, rule='all lengths 0..N of pinned characters, boundary offsets, all references'),
]
