# -*- coding: utf-8 -*-
""" Independent reference implementation of the parts of GSM 03.40 / 03.38 the properties need (strict parser and encoder).

Written from the specification with integer bit arithmetic; shares no code or tables with the code under test. """
import datetime

_T = datetime.timedelta

# GSM 03.38 default alphabet, code point per code 0..127 (0x1B is the escape to the extension table)
BASIC = [0x40, 0xA3, 0x24, 0xA5, 0xE8, 0xE9, 0xF9, 0xEC, 0xF2, 0xC7, 0x0A, 0xD8, 0xF8, 0x0D, 0xC5, 0xE5,
         0x394, 0x5F, 0x3A6, 0x393, 0x39B, 0x3A9, 0x3A0, 0x3A8, 0x3A3, 0x398, 0x39E, None, 0xC6, 0xE6, 0xDF, 0xC9,
         0x20, 0x21, 0x22, 0x23, 0xA4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E, 0x2F]
BASIC += list(range(0x30, 0x40))
BASIC += [0xA1] + list(range(0x41, 0x5B)) + [0xC4, 0xD6, 0xD1, 0xDC, 0xA7]
BASIC += [0xBF] + list(range(0x61, 0x7B)) + [0xE4, 0xF6, 0xF1, 0xFC, 0xE0]
assert len(BASIC) == 128
EXT = {0x0A: 0x0C, 0x14: 0x5E, 0x28: 0x7B, 0x29: 0x7D, 0x2F: 0x5C, 0x3C: 0x5B, 0x3D: 0x7E, 0x3E: 0x5D, 0x40: 0x7C, 0x65: 0x20AC}

CH2SEPT = {}
for _i, _c in enumerate(BASIC):
    if _c is not None:
        CH2SEPT[chr(_c)] = (_i,)
for _i, _c in EXT.items():
    CH2SEPT[chr(_c)] = (0x1B, _i)
BASIC_CHARS = ''.join(chr(c) for c in BASIC if c is not None)
EXT_CHARS = ''.join(chr(c) for c in EXT.values())


class Bad(Exception):
    """ The PDU is not well formed """


def is_gsm7(text):
    return all(c in CH2SEPT for c in text)


def septets(text):
    out = []
    for c in text:
        out.extend(CH2SEPT[c])
    return out


def text_of(sept):
    out, i = [], 0
    while i < len(sept):
        s = sept[i]
        if s == 0x1B:
            if i + 1 >= len(sept):
                raise Bad('escape at the end of the text')
            if sept[i + 1] not in EXT:
                raise Bad('unknown extension code 0x%02X' % sept[i + 1])
            out.append(chr(EXT[sept[i + 1]]))
            i += 2
        else:
            out.append(chr(BASIC[s]))
            i += 1
    return ''.join(out)


def pack(sept, fill=0):
    """ fill: number of zero bits before the first septet """
    n = 0
    for i, s in enumerate(sept):
        assert 0 <= s < 128
        n |= s << (fill + 7 * i)
    bits = fill + 7 * len(sept)
    return n.to_bytes((bits + 7) // 8, 'little') if bits else b''


def unpack(data, count, fill=0):
    n = int.from_bytes(bytes(data), 'little')
    return [(n >> (fill + 7 * i)) & 0x7F for i in range(count)]


# ------------------------------------------------------------------ fields: encoders
def enc_semi(digits):
    if len(digits) % 2:
        digits += 'F'
    return bytes(int(digits[i + 1] + digits[i], 16) for i in range(0, len(digits), 2))


def enc_addr(addr, national=True):
    """ Address as TP-OA / TP-DA / TP-RA. addr: '+digits', 'digits' or ('alnum', text) """
    if isinstance(addr, tuple):
        sept = septets(addr[1])
        data = pack(sept)
        return bytes([(7 * len(sept) + 3) // 4, 0xD0]) + data
    if addr.startswith('+'):
        return bytes([len(addr) - 1, 0x91]) + enc_semi(addr[1:])
    return bytes([len(addr), 0xA1 if national else 0x81]) + enc_semi(addr)


def enc_smsc(addr):
    if not addr:
        return b'\x00'
    if addr.startswith('+'):
        body = b'\x91' + enc_semi(addr[1:])
    else:
        body = b'\xA1' + enc_semi(addr)
    return bytes([len(body)]) + body


def enc_time(y, mo, d, h, mi, s, quarters):
    def sw(v):
        return (v % 10) << 4 | (v // 10)
    q = abs(quarters)
    tz = sw(q) | (0x08 if quarters < 0 else 0)
    return bytes([sw(y % 100), sw(mo), sw(d), sw(h), sw(mi), sw(s), tz])


def enc_ud(kind, payload, udh=b''):
    """ kind: 'gsm7' (payload: text), '8bit' (bytes), 'ucs2' (text). Returns (TP-UDL, user data octets) """
    head = bytes([len(udh)]) + udh if udh else b''
    if kind == 'gsm7':
        sept = septets(payload)
        hs = -(-len(head) * 8 // 7)
        fill = hs * 7 - len(head) * 8
        return hs + len(sept), head + (pack(sept, fill) if sept else b'')
    if kind == 'ucs2':
        body = payload.encode('utf-16-be', 'surrogatepass')
    else:
        body = bytes(payload)
    return len(head) + len(body), head + body


DCS = {'gsm7': 0x00, '8bit': 0x04, 'ucs2': 0x08}


def enc_deliver(smsc, addr, kind, payload, when, udh=b'', pid=0, dcs=None, first_extra=0x04, national=True, raw_ud=None):
    udl, ud = raw_ud if raw_ud is not None else enc_ud(kind, payload, udh)
    first = 0x00 | first_extra | (0x40 if udh else 0)
    tpdu = (bytes([first]) + enc_addr(addr, national) + bytes([pid, DCS[kind] if dcs is None else dcs]) + enc_time(*when) +
            bytes([udl]) + ud)
    return enc_smsc(smsc) + tpdu, len(tpdu)


def enc_report(smsc, ref, addr, sent, done, status, first_extra=0x04, tail=b'', national=True):
    tpdu = bytes([0x02 | first_extra, ref]) + enc_addr(addr, national) + enc_time(*sent) + enc_time(*done) + bytes([status]) + tail
    return enc_smsc(smsc) + tpdu, len(tpdu)


def enc_submit(smsc, ref, addr, kind, payload, validity=None, udh=b'', pid=0, dcs=None, first_extra=0, national=True):
    """ validity: None | ('rel', octet) | ('abs', (y,mo,d,h,mi,s,q)) | ('enh', 7 octets) """
    udl, ud = enc_ud(kind, payload, udh)
    first = 0x01 | first_extra | (0x40 if udh else 0)
    vp = b''
    if validity is not None:
        if validity[0] == 'rel':
            first |= 0x10
            vp = bytes([validity[1]])
        elif validity[0] == 'enh':
            first |= 0x08
            vp = bytes(validity[1])
        else:
            first |= 0x18
            vp = enc_time(*validity[1])
    tpdu = (bytes([first, ref]) + enc_addr(addr, national) + bytes([pid, DCS[kind] if dcs is None else dcs]) + vp + bytes([udl]) + ud)
    return enc_smsc(smsc) + tpdu, len(tpdu)


def rel_period(octet):
    if octet <= 143:
        return _T(minutes=5 * (octet + 1))
    if octet <= 167:
        return _T(hours=12) + _T(minutes=30 * (octet - 143))
    if octet <= 196:
        return _T(days=octet - 166)
    return _T(days=7 * (octet - 192))


# ------------------------------------------------------------------ strict parsers
class _R(object):
    def __init__(self, data):
        self.d, self.i = bytes(data), 0

    def u8(self):
        if self.i >= len(self.d):
            raise Bad('PDU ends early')
        self.i += 1
        return self.d[self.i - 1]

    def take(self, n):
        if self.i + n > len(self.d):
            raise Bad('PDU ends early')
        self.i += n
        return self.d[self.i - n:self.i]


def dec_digits(data, ndigits):
    out = []
    for b in data:
        out.append(b & 15)
        out.append(b >> 4)
    digits, rest = out[:ndigits], out[ndigits:]
    if any(r != 15 for r in rest) or len(rest) > 1:
        raise Bad('bad filler in number')
    if any(d > 9 for d in digits):
        raise Bad('bad digit in number')
    return ''.join(str(d) for d in digits)


def _addr(r):
    n = r.u8()
    toa = r.u8()
    if not toa & 0x80:
        raise Bad('type-of-address octet 0x%02X' % toa)
    data = r.take((n + 1) // 2)
    ton = (toa >> 4) & 7
    if ton == 5:
        cnt = n * 4 // 7
        sept = unpack(data, cnt)
        if pack(sept) != data:
            raise Bad('alphanumeric address is not exactly %d septets' % cnt)
        if n not in ((7 * cnt + 3) // 4, 2 * len(data)):
            raise Bad('length of alphanumeric address')
        return {'ton': ton, 'npi': toa & 15, 'len': n, 'value': text_of(sept)}
    return {'ton': ton, 'npi': toa & 15, 'len': n, 'value': dec_digits(data, n)}


def _smsc(r):
    n = r.u8()
    if n == 0:
        return None
    if n < 2:
        raise Bad('SMSC field of length 1')
    toa = r.u8()
    data = r.take(n - 1)
    nd = 2 * len(data) - (1 if data[-1] >> 4 == 15 else 0)
    return {'ton': (toa >> 4) & 7, 'npi': toa & 15, 'value': dec_digits(data, nd)}


def dec_time(data):
    def sw(b, lim):
        v = (b & 15) * 10 + (b >> 4)
        if b & 15 > 9 or b >> 4 > 9 or v > lim:
            raise Bad('time stamp digit')
        return v
    y, mo, d, h, mi, s = [sw(b, l) for b, l in zip(data[:6], (99, 12, 31, 23, 59, 59))]
    neg = bool(data[6] & 0x08)
    q = (data[6] & 7) * 10 + (data[6] >> 4)
    return (2000 + y if y < 69 else 1900 + y, mo, d, h, mi, s, -q if neg else q)


def _udh(data):
    out, i = [], 0
    while i < len(data):
        if i + 2 > len(data):
            raise Bad('header element cut')
        iei, n = data[i], data[i + 1]
        if i + 2 + n > len(data):
            raise Bad('header element cut')
        out.append((iei, bytes(data[i + 2:i + 2 + n])))
        i += 2 + n
    return out


def _ud(r, udl, dcs, udhi):
    """ Parses user data strictly to the end of the PDU """
    out = {'udl': udl, 'udh': None}
    if dcs in (0x00, 0x10):
        out['kind'] = 'gsm7'
    elif dcs in (0x08, 0x18):
        out['kind'] = 'ucs2'
    elif dcs in (0x04, 0x14):
        out['kind'] = '8bit'
    else:
        raise Bad('unexpected data coding 0x%02X' % dcs)
    data = r.take(len(r.d) - r.i)
    if len(data) > 140:
        raise Bad('%d octets of user data' % len(data))
    octets = (udl * 7 + 7) // 8 if out['kind'] == 'gsm7' else udl
    if octets != len(data):
        raise Bad('user data length %d does not match %d octets (%s)' % (udl, len(data), out['kind']))
    hl = 0
    if udhi:
        if not data:
            raise Bad('no user data header')
        hl = data[0] + 1
        if hl > len(data):
            raise Bad('user data header longer than user data')
        out['udh'] = _udh(data[1:hl])
    if out['kind'] == 'gsm7':
        hs = -(-hl * 8 // 7)
        if hs > udl:
            raise Bad('header longer than user data')
        fill = hs * 7 - hl * 8
        sept = unpack(data[hl:], udl - hs, fill)
        if pack(sept, fill if sept else 0) != data[hl:] and not (not sept and not any(data[hl:])):
            raise Bad('fill bits are not zero')
        out['septets'] = sept
        out['text'] = text_of(sept)
    elif out['kind'] == 'ucs2':
        if len(data[hl:]) % 2:
            raise Bad('odd number of UCS2 octets')
        out['text'] = data[hl:].decode('utf-16-be', 'surrogatepass')
        out['units'] = len(data[hl:]) // 2
    else:
        out['data'] = data[hl:]
    return out


def parse_submit(data):
    r = _R(data)
    out = {'smsc': _smsc(r)}
    start = r.i
    first = r.u8()
    if first & 3 != 1:
        raise Bad('not an SMS-SUBMIT (first octet 0x%02X)' % first)
    out['first'] = first
    out['rd'] = bool(first & 4)
    out['vpf'] = (first >> 3) & 3
    out['srr'] = bool(first & 0x20)
    out['udhi'] = bool(first & 0x40)
    out['rp'] = bool(first & 0x80)
    out['mr'] = r.u8()
    out['da'] = _addr(r)
    out['pid'] = r.u8()
    out['dcs'] = r.u8()
    if out['vpf'] == 2:
        out['vp'] = ('rel', r.u8())
    elif out['vpf'] == 3:
        out['vp'] = ('abs', dec_time(r.take(7)))
    elif out['vpf'] == 1:
        raise Bad('enhanced validity period')
    else:
        out['vp'] = None
    udl = r.u8()
    out.update(_ud(r, udl, out['dcs'], out['udhi']))
    out['tpdu_len'] = len(r.d) - start
    return out
