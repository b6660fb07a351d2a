# -*- coding: utf-8 -*-
""" Generated stored messages and their comparison with the objects the library returns (shared by C22..C25) """
import datetime, re
from hypothesis import strategies as st
from . import device, gens, refpdu
from .core import equal, require, Violation

FINAL = re.compile(r'^(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)\s*$')

pdu_text = st.one_of(gens.gsm_text(0, 20), gens.gsm_text(0, 160).map(lambda t: cut(t, 160)), st.text(alphabet=st.one_of(gens.bmp_char, gens.gsm_char), max_size=70),
                     st.sampled_from(['', '@', 'x' * 160, '\u4e2d' * 70, 'OK', '+CMGR: 0,,5', '+CMGL: 1,1,,20', 'line 1\r\nOK\r\nline 3', 'a\n\nb', '0791', '"', '+CMTI: "SM",3', 'RING']))


def cut(t, n):
    while sum(len(refpdu.CH2SEPT[c]) for c in t) > n:
        t = t[:-1]
    return t


def plain(lines):
    """ text mode text: non-blank lines that are not final results, and no bare carriage returns """
    lines = [l.replace('\r', '').replace('\n', '') for l in lines]
    return '\n'.join(l for l in lines if l and not FINAL.match(l))


line = st.one_of(gens.gsm_text(1, 15), st.text(alphabet=gens.bmp_char, min_size=1, max_size=10),
                 st.sampled_from([' ', 'OK then', 'OKAY', ' OK', 'not OK', 'ERROR at noon', '+CMGR', '+CMGL:', '"a","b"', 'x' * 150, '> ', 'RING', '+CMTI: "ME",1', '+CMS ERROR:', 'final: ERROR']))
text_text = st.one_of(line.map(lambda l: plain([l])), st.lists(line, max_size=4).map(plain))
sender = st.one_of(gens.number(3, 15), gens.number(3, 15), gens.alnum_name().filter(lambda n: '"' not in n),
                   gens.number(3, 15), gens.number(3, 15), st.just(''))
smsc = st.one_of(gens.number(5, 15), st.none())


def message(textmode):
    """ (sender, text, time, smsc) """
    return st.tuples(sender, text_text if textmode else pdu_text, gens.pdu_time, smsc)


def build(m, status=0, textmode=False):
    number, text, when, sc = m
    if textmode:
        return device.Msg('deliver', status, None, number=number, text=text, time=when, smsc=None)
    numeric = number.lstrip('+').isdigit()
    return device.deliver(number if numeric or not number else ('alnum', number), text, when, status, sc)


def when(t):
    y, mo, d, h, mi, s, q = t
    return datetime.datetime(y, mo, d, h, mi, s), datetime.timedelta(minutes=15 * q)


def same_time(value, t, what):
    require(isinstance(value, datetime.datetime) and value.tzinfo is not None, '{0} is {1!r}', what, value)
    equal((value.replace(tzinfo=None), value.utcoffset()), when(t), what)


def same_deliver(sms, m, textmode, status, what):
    require(type(sms).__name__ == 'ReceivedSms', '{0}: {1}', what, type(sms).__name__)
    equal(sms.number or '', m.number, what + ': sender')
    equal(sms.text, m.text, what + ': text')
    same_time(sms.time, m.time, what + ': time')
    if not textmode:
        equal(sms.smsc, m.smsc, what + ': SMSC')
    equal(sms.status, status, what + ': status')


def same_report(rep, m, status, what, textmode=False):
    require(type(rep).__name__ == 'StatusReport', '{0}: {1}', what, type(rep).__name__)
    equal((rep.reference, rep.number, rep.deliveryStatus), (m.ref, m.number, m.st), what + ': reference, number and delivery status')
    same_time(rep.timeSent, m.time, what + ': time sent')
    same_time(rep.timeFinalized, m.done, what + ': time finalized')
    equal(rep.status, status, what + ': status')
