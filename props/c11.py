# -*- coding: utf-8 -*-
""" C11: addresses survive the semi-octet and alphanumeric address codecs """
from hypothesis import strategies as st
from vf import gens, load, refpdu
from vf.core import Sub, Violation, require, equal
from props import c01, c04


def m():
    return load.plain()['gsmmodem.pdu']


def run_semi(case):
    digits, tail, as_str = case
    want = refpdu.enc_semi(digits)
    got = bytes(m().encodeSemiOctets(digits))
    equal(got, want, 'semi-octets of %r' % digits)
    equal(m().decodeSemiOctets(want.hex().upper() if as_str else bytearray(want)), digits, 'decoded semi-octets of %r' % digits)
    it = iter(bytearray(want + tail))
    equal(m().decodeSemiOctets(it, len(want)), digits, 'decoded semi-octets of %r with limit %d' % (digits, len(want)))
    equal(bytes(it), tail, 'octets left after decoding with a limit of %d' % len(want))
    return ['odd' if len(digits) % 2 else 'even']


def run_limit(case):
    """ a limit below the number of octets """
    digits, k = case
    data = refpdu.enc_semi(digits)
    k = k % (len(data) + 1)
    it = iter(bytearray(data))
    equal(m().decodeSemiOctets(it, k), digits[:2 * k], 'first %d octets of %r' % (k, digits))
    equal(bytes(it), data[k:], 'octets left after decoding %d octets' % k)
    return True


def run_addr(case):
    """ through a submit PDU (destination and SMSC) and a deliver PDU (originator and SMSC) """
    addr, smsc = case
    value = c04.addr_value(addr)
    if value:
        submit_addr(addr, value, smsc)
    received_addr(addr, value, smsc)
    if not value:
        return ['no address']
    return ['alnum%d' % len(refpdu.septets(value)) if isinstance(addr, tuple) else 'number parity %d' % (len(value.lstrip('+')) % 2)]


def submit_addr(addr, value, smsc):
    p = c01.encode(value, 'hello', smsc=smsc)[0]
    try:
        f = refpdu.parse_submit(p.data)
    except refpdu.Bad as e:
        raise Violation('submit PDU to {0!r} via {1!r} is malformed: {2} ({3})'.format(value, smsc, e, bytes(p.data).hex()))
    da = f['da']
    if isinstance(addr, tuple):
        equal((da['ton'], da['npi'], da['value']), (5, 0, value), 'alphanumeric destination')
    else:
        equal((da['ton'] == 1, da['npi'], da['value'], da['len']), (value.startswith('+'), 1, value.lstrip('+'), len(value.lstrip('+'))), 'destination')
        require(da['ton'] in (0, 1, 2), 'type of number {0}', da['ton'])
    if smsc:
        equal((f['smsc']['ton'] == 1, f['smsc']['value']), (smsc.startswith('+'), smsc.lstrip('+')), 'SMSC')
    equal(f['text'], 'hello', 'text after the addresses')
    r = c04.decode(p.data)
    equal((r['number'], r['smsc']), (value, smsc), 'addresses decoded from our own submit PDU')


def received_addr(addr, value, smsc):
    for national in (True, False):
        d, n = refpdu.enc_deliver(smsc, addr, 'gsm7', 'hello', (2013, 1, 2, 3, 4, 5, 0), national=national)
        r = c04.decode(bytearray(d))
        equal((r['number'] or '', r['smsc'], r['text'], r['tpdu_length']), (value, smsc, 'hello', n), 'addresses of a received PDU')
        d, n = refpdu.enc_report(smsc, 9, addr, (2013, 1, 2, 3, 4, 5, 0), (2013, 1, 2, 3, 4, 6, 0), 0, national=national)
        r = c04.decode(bytearray(d))
        equal((r['number'] or '', r['smsc'], r['reference'], r['status']), (value, smsc, 9, 0), 'addresses of a status report')


def gen_addr():
    return st.tuples(gens.address(), st.one_of(st.none(), gens.number(1, 20)))


def enum_addr(tier):
    yield ('', None)
    yield (('alnum', ''), '+1')
    d = '1234567890' * 2
    for n in range(1, 21):
        for plus in ('', '+'):
            yield (plus + d[:n], plus + d[::-1][:n])
            yield (plus + '0' * n, None)
    for n in range(1, 12):
        for c in 'aZ@\u00e0\u0394-':
            yield (('alnum', c * n), None)
            yield (('alnum', 'b' * (n - 1) + c), '+1')
    for c in refpdu.BASIC_CHARS + refpdu.EXT_CHARS:
        yield (('alnum', 'x' + c), None)


SUBS = [
    Sub('semi', run_semi, lambda: st.tuples(gens.digits(1, 40), st.binary(max_size=4), st.booleans()), quick=3000, thorough=40000, shards=2,
        rule='digit strings with trailing octets; label = parity'),
    Sub('limit', run_limit, lambda: st.tuples(gens.digits(1, 40), st.integers(0, 20)), quick=2000, thorough=20000, shards=1, rule='limits from 0 to the whole number'),
    Sub('address', run_addr, gen_addr, quick=4000, thorough=80000, enum=enum_addr, shards=4, rule='numbers and names through submit, deliver and report PDUs'),
]
