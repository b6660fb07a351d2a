# -*- coding: utf-8 -*-
""" C39: the sendsms and identify tools do what they report """
import builtins
import io
import os
import re
import sys
from hypothesis import strategies as st
from vf import device, gens, load, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.runner import REPO
from props.c21 import reassemble

FAM = sorted(profiles.FAMILIES)
PORT = '/dev/ttyUSB7'
RATES = ([], ['-b', '9600'], ['-b', '460800'])
T0 = (2024, 2, 29, 23, 59, 58, 8)
REG = {'home': '+CREG: 0,1', 'roaming': '+CREG: 0,5', 'searching': '+CREG: 0,2', 'denied': '+CREG: 0,3', 'none': '+CREG: 0,0'}


def call(rig, name, argv, lines):
    """ Runs tools/<name> as a program: (exit status or the exception, stdout, stderr, prompts) """
    path = os.path.join(REPO, 'tools', name)
    out, err, prompts, lines = io.StringIO(), io.StringIO(), [], list(lines)

    def read(prompt=''):
        prompts.append((rig.sim.now, prompt))
        if not lines:
            raise EOFError()
        return lines.pop(0)
    saved = sys.argv, sys.stdout, sys.stderr, builtins.input, {n: sys.modules.get(n) for n in rig.ns._mods}
    sys.argv, sys.stdout, sys.stderr, builtins.input = [path] + argv, out, err, read
    sys.modules.update(rig.ns._mods)
    try:
        space = {'__name__': 'tool', '__file__': path}
        exec(load._compile(path), space)
        space['main']()
        status = 0
    except SystemExit as e:
        status = 0 if e.code is None else e.code
    except Exception as e:
        status = e
    finally:
        sys.argv, sys.stdout, sys.stderr, builtins.input = saved[:4]
        for n, m in saved[4].items():
            sys.modules.pop(n, None) if m is None else sys.modules.__setitem__(n, m)
    return status, out.getvalue(), err.getvalue(), prompts


def opened(d, rate):
    equal((d.opened[0], int(d.opened[1])), (PORT, int(rate[1]) if rate else 115200), 'port and rate')


def failed(status):
    return status != 0


def run_send(case):
    fam, pin, given, port, reg, signal, number, text, deliver, outcome, latency, sched = case
    base = dict(profiles.FAMILIES[fam], echo=False)
    if pin:
        base['pin'] = pin
    rig = Rig(lambda sim: device.Modem(sim, base, latency), sched)
    d = rig.device
    d.creg = lambda: REG[reg[0]] if rig.sim.now - d0[0] < reg[1] else REG[reg[2]]
    d.signal = lambda: (99, 99) if rig.sim.now - d0[0] < signal else (15, 99)
    d0 = [rig.sim.now]
    kind, st_, delay = outcome + (1.0,) * (3 - len(outcome))

    def sent(rec):
        if kind == 'report':
            d.arrive(device.report(rec['ref'], number, T0, T0, st_), d.cfg['mem'][2], delay=delay)
    d.after_sent = sent
    if kind == 'refuse':
        d.fault('^TEXT$', st_)
    elif kind == 'silent':
        d.fault('^TEXT$', 'silent')

    def main():
        argv = (['-i', PORT] if port else []) + RATES[len(text) % 3] + (['-d'] if deliver else []) + (['-p', given] if given else []) + [number]
        got.extend(call(rig, 'sendsms.py', argv, [text]))
    got = []
    rig.run(main)
    status, out, err, prompts = got
    what = 'status %r, output %r, errors %r' % (status, out[-300:], err[-300:])
    if not port:
        require(status == 1 and err, 'no port: {0}', what)
        require(d.port is None, 'no port, but one was opened')
        return ['no port']
    opened(d, RATES[len(text) % 3])
    if pin and given != pin:
        require(status == 1 and err, 'PIN {0} for {1}: {2}', given, base['pin'], what)
        equal(d.sent, [], 'messages sent without the PIN')
        equal(d.pin_tries, [given] if given else [], 'PINs tried')
        return ['wrong PIN' if given else 'no PIN']
    # coverage as of the moment the tool checks for it: only clear cases are judged
    registered = reg[0] in ('home', 'roaming') and reg[1] >= 60
    never = (reg[0] not in ('home', 'roaming') and reg[1] >= 60) or signal >= 60
    if never:
        require(status == 1 and (out or err), 'no coverage: {0}', what)
        equal((d.sent, prompts), ([], []), 'messages sent and text asked for without coverage')
        require('sent' not in out, 'no coverage: {0}', what)
        return ['no coverage']
    if not prompts:
        require(status == 1, 'no text asked for: {0}', what)
        return ['no coverage in time'] if not registered or signal else _fail('the tool did not ask for the text: %s' % what)
    if kind == 'refuse':
        require(failed(status) and 'Message sent' not in out, 'the modem refused the message: {0}', what)
        return ['refused']
    if kind == 'silent':
        require(status == 1 and 'Message sent' not in out, 'no answer from the modem: {0}', what)
        return ['timeout']
    require(isinstance(status, int), 'the tool failed: {0!r} ({1})', status, what)
    recs = reassemble(d.sent)
    equal([(n, t) for n, t, r in recs], [(number, text)], 'messages sent')
    if not deliver:
        equal(status, 0, 'exit status of a message sent')
        require('Message sent' in out and 'deliver' not in out, 'message sent: {0}', what)
        require(not d.port.is_open, 'the port is still open')
        return ['sent', 'parts' if len(d.sent) > 1 else 'one part']
    if kind == 'none':
        require(status == 1 and 'Message sent' not in out, 'no delivery report: {0}', what)
        return ['no report']
    equal(status, 0, 'exit status of a message sent')
    require(('delivered OK' in out) == (st_ == 0), 'delivery status {0}: {1}', st_, what)
    require('Message sent' in out, 'message sent: {0}', what)
    require(not d.port.is_open, 'the port is still open')
    return ['delivered' if st_ == 0 else 'not delivered']


def _fail(msg):
    raise Violation(msg)


def gen_send():
    number = gens.number(5, 14)
    long_text = st.tuples(st.integers(150, 400), gens.gsm_text(5, 20)).map(lambda a: (a[1] * 100)[:a[0]])
    text = st.one_of(gens.gsm_text(1, 60), gens.gsm_text(1, 60), st.text(alphabet=gens.bmp_char, min_size=1, max_size=40), long_text, st.sampled_from(['', ' ', 'Hello', "it's", '-d', '"x"', 'OK', 'caf\xe9', '\u4e2d\u6587'])) \
        .map(lambda t: t.replace('\r', ' ').replace('\n', ' '))
    reg = st.one_of(*[st.just(('home', 60.0, 'home'))] * 5 + [ st.just(('roaming', 60.0, 'home')), st.tuples(st.sampled_from(['searching', 'none', 'denied']), st.sampled_from([60.0, 1.0, 3.0]), st.sampled_from(['home', 'roaming']))])
    outcome = st.one_of(st.just(('report', 0)), st.tuples(st.just('report'), st.sampled_from([0, 0, 0x46]), st.sampled_from([0.3, 3.0, 8.0, 13.0])), st.tuples(st.just('report'), st.sampled_from([0x40, 0x46, 0x60, 0x30, 0x20, 0x45, 0x63, 0x7f])), st.just(('none', None)), st.just(('none', None)),
                        st.tuples(st.just('refuse'), st.sampled_from(['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 38', '+CMS ERROR: 21'])), st.just(('silent', None)))
    pin = st.sampled_from([(None, None)] * 12 + [('1234', '1234'), ('12345', '12345'), ('00000001', '00000001'), ('0000', '0000'), ('1234', '9999'), ('12345', '1234'), ('1234', None), (None, '1234')])
    return st.tuples(st.sampled_from(FAM), pin, st.sampled_from([True] * 19 + [False]), reg, st.sampled_from([0.0] * 6 + [1.0, 60.0]), number, text, st.booleans(), outcome, st.sampled_from([0.01, 0.002, 0.1]), schedules(max_pre=3)) \
        .map(lambda a: (a[0], a[1][0], a[1][1]) + a[2:])


def run_identify(case):
    fam, pin, given, debug, info, signal, network, latency, sched = case
    base = dict(profiles.FAMILIES[fam], echo=False)
    if pin:
        base['pin'] = pin
    rig = Rig(lambda sim: device.Modem(sim, base, latency), sched)
    d = rig.device
    for cmd, line in info.items():
        d.info[cmd] = [line]
    d.info['AT+COPS?'] = ['+COPS: 0,0,"%s",2' % network]
    d.signal = lambda: (signal, 99)
    got = []

    def main():
        got.extend(call(rig, 'identify-modem.py', [PORT] + RATES[signal % 3] + (['-d'] if debug else []) + (['-p', given] if given else []), []))
    rig.run(main)
    status, out, err, prompts = got
    what = 'status %r, output %r, errors %r' % (status, out[-600:], err[-300:])
    opened(d, RATES[signal % 3])
    if pin and given != pin:
        require(status == 1 and err, 'PIN {0} for {1}: {2}', given, base['pin'], what)
        return ['wrong PIN' if given else 'no PIN']
    equal(status, 0, 'exit status (' + what + ')')
    lines = out.split('\n')
    if debug:
        for cmd in ('AT+CGMI', 'AT+CGMM', 'AT+CGMR'):
            if cmd == 'AT+CGMR' and 'CGMR' not in base.get('supports', device.DEFAULT['supports']):
                continue
            require(any(l.startswith(cmd) and repr(info[cmd]) in l for l in lines), '{0} {1!r} is not printed: {2}', cmd, info[cmd], what)
        return ['debug']
    want = [('Manufacturer', info['AT+CGMI']), ('Model', info['AT+CGMM']), ('IMEI', info['AT+CGSN']), ('IMSI', info['AT+CIMI']), ('Network', network), ('Signal strength', str(signal if signal != 99 else -1)),
            ('Revision', info['AT+CGMR'] if 'CGMR' in base.get('supports', device.DEFAULT['supports']) else 'N/A')]
    for name, value in want:
        found = [l for l in lines if l.startswith(name + ':')]
        equal([l[len(name) + 1:].strip() for l in found], [value], name + ' printed')
    return ['identified', 'no revision' if want[-1][1] == 'N/A' else 'revision']


def gen_identify():
    word = st.text(alphabet=[chr(c) for c in range(33, 127) if c not in (34,)], min_size=1, max_size=12)
    line = st.lists(word, min_size=1, max_size=3).map(' '.join).filter(lambda s: not re.match(r'(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)\s*$', s))
    digits = st.text(alphabet='0123456789', min_size=14, max_size=16)
    # the kind of modem is recognised by its name
    info = st.fixed_dictionaries({'AT+CGMI': line.filter(lambda s: 'huawei' not in s.lower() and 'wavecom' not in s.lower() and 'zte' not in s.lower()), 'AT+CGMM': line, 'AT+CGMR': line, 'AT+CGSN': digits, 'AT+CIMI': digits})
    pin = st.sampled_from([(None, None)] * 12 + [('1234', '1234'), ('12345', '12345'), ('00000001', '00000001'), ('0000', '0000'), ('1234', '9999'), ('12345', '1234'), ('1234', None), (None, '1234')])
    return st.tuples(st.sampled_from([f for f in FAM if f.endswith('clac') or f == 'generic']), pin, st.booleans(), info, st.one_of(st.integers(0, 31), st.just(99)), word, st.sampled_from([0.01, 0.002, 0.1]), schedules(max_pre=3)) \
        .map(lambda a: (a[0], a[1][0], a[1][1]) + a[2:])


SUBS = [
    Sub('sendsms', run_send, gen_send, 1600, 24000, rule='every run of the tool counts', guard=120),
    Sub('identify', run_identify, gen_identify, 400, 6000, rule='every run of the tool counts', guard=120),
]
