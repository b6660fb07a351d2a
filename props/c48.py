# -*- coding: utf-8 -*-
""" C48: a port that exchanges bytes works like one that exchanges text """
import os
import random
import re
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
from vf import sim as simulator
from vf.core import HarnessError, Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.runner import REPO
from vf.wire import Wire
from . import c12, c13, c20, c22, c24, c26, c27, c31, c36, c38, c43, c45, c46


def on_bytes(run):
    def go(case):
        simulator.Bytes.on, simulator.Bytes.unfit = True, False
        try:
            got = run(case)
        except Exception:
            if simulator.Bytes.unfit:      # such a character cannot be sent over this port
                return []
            raise
        finally:
            simulator.Bytes.on = False
        return [] if simulator.Bytes.unfit else got
    return go


class Mirror(Wire):
    """ answers each command with the command itself """
    def on_command(self, cmd):
        self.reply([cmd], chunks=self.chunks)


def run_octets(case):
    texts, notes, chunks, waits, sched = case
    rig = Rig(lambda s: Mirror(s), sched)
    d = rig.device
    d.chunks = chunks
    seen = []

    def main():
        comm = rig.serial_mod.SerialComms('port', notifyCallbackFunc=lambda lines: seen.extend(lines))
        comm.connect()
        for t, w in zip(texts, waits):
            if w:
                equal(comm.write(t + '\r', timeout=20), [t, 'OK'], 'response to %r' % t)
            else:
                comm.write(t + '\r', waitForResponse=False)
                rig.sim.sleep(5)
        equal([c for _, c in d.commands], list(texts), 'commands as the device got them')
        seen[:] = []
        for n in notes:
            d.urc('\r\n%s\r\n' % n)
            rig.sim.sleep(3)
        equal(seen, list(notes), 'notifications')
        comm.close()
    rig.run(main)
    rig.deaths()
    every = ''.join(texts) + ''.join(notes)
    return ['waited for' if any(waits) else 'not waited for'] + (['above 127'] if any(ch > '\x7f' for ch in every) else []) + (['control characters'] if any(ch < ' ' for ch in every) else [])


def gen_octets():
    character = st.characters(min_codepoint=0, max_codepoint=255, blacklist_characters='\r\n\x1a\x1b')
    final = re.compile(r'(OK|ERROR|\+CM[ES] ERROR: ?\d+|COMMAND NOT SUPPORT)\s*\Z')
    text = st.text(character, min_size=1, max_size=30).map(lambda t: 'AT' + t).filter(lambda t: not final.search(t) and 'ERROR' not in t)
    note = st.text(character, min_size=1, max_size=30).map(lambda t: '+X' + t)
    return st.tuples(st.lists(text, min_size=1, max_size=5), st.lists(note, max_size=4), st.lists(st.tuples(st.integers(1, 9), st.sampled_from([0.0, 0.01, 0.3])), max_size=3),
                     st.lists(st.sampled_from([True, True, False]), min_size=5, max_size=5), schedules())


def enum_octets(tier):
    for i in range(256):
        if chr(i) not in '\r\n\x1a\x1b':
            yield (['AT' + chr(i) + 'x'], ['+X' + chr(i) + 'x'], [], [True], {})


# ------------------------------------------------------------------ the installed pyserial on a pseudo-terminal
PROGRAM = r'''
import json, os, sys, threading, time, tty, logging, warnings
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
repo, plan = sys.argv[1], json.loads(sys.argv[2])
sys.path.insert(0, repo)
master, slave = os.openpty()
tty.setraw(master); tty.setraw(slave)
sent, tones, lock = [], [], threading.Lock()
def put(text):
    with lock:
        data = text.encode('latin-1')
        n = plan['pieces']
        for i in range(0, len(data), n):
            os.write(master, data[i:i + n])
def device():
    buf, mode = b'', None
    fixed = {'AT+CFUN?': '+CFUN: 1', 'AT+CPIN?': '+CPIN: READY', 'AT+CSQ': '+CSQ: %d,99' % plan['signal'], 'AT+CPMS=?': '+CPMS: ("SM"),("SM"),("SM")', 'AT+CGMI': plan['maker'],
             'AT+CSCA?': '+CSCA: "+27831234567",145', 'AT+CGSN': plan['imei']}
    while True:
        try:
            buf += os.read(master, 64)
        except OSError:
            return
        while True:
            end = [i for i in (buf.find(b'\r'), buf.find(b'\x1a')) if i >= 0]
            if not end:
                break
            cmd, buf = buf[:min(end)].decode('latin-1'), buf[min(end) + 1:]
            if mode == 'text':
                sent.append(cmd)
                mode = None
                put('\r\n+CMGS: %d\r\n\r\nOK\r\n' % (7 + len(sent)))
            elif cmd.startswith('AT+CMGS='):
                mode = 'text'
                put('\r\n> ')
            elif cmd in ('AT+CLAC', 'AT+WIND?', 'AT+ZPAS?'):
                put('\r\nERROR\r\n')
            elif cmd.startswith('AT+CMGR='):
                put('\r\n+CMGR: 1,,%d\r\n%s\r\n\r\nOK\r\n' % tuple(plan['stored'][int(cmd[8:])]))
            elif cmd.startswith('AT+CUSD=1'):
                put('\r\nOK\r\n')
                time.sleep(0.05)
                put('\r\n+CUSD: 0,"%s",15\r\n' % plan['ussd'])
            else:
                put(('\r\n%s\r\n' % fixed[cmd] if cmd in fixed else '') + '\r\nOK\r\n')
t = threading.Thread(target=device); t.daemon = True; t.start()
from gsmmodem.modem import GsmModem
got, out = [], {}
m = GsmModem(os.ttyname(slave), *([plan['rate']] if plan['rate'] else []), smsReceivedCallbackFunc=lambda sms: got.append([sms.number, sms.text]))
m.connect()
import termios
a = termios.tcgetattr(slave)
out['rate'] = [r for r in (1200, 9600, 19200, 38400, 57600, 115200, 230400) if getattr(termios, 'B%d' % r) == a[4] == a[5]]
out['frame'] = [a[2] & termios.CSIZE == termios.CS8, a[2] & termios.CSTOPB == 0]
out['altered'] = [n for i, ns in ((0, 'IXON IXOFF ISTRIP INLCR ICRNL IGNCR PARMRK'), (1, 'OPOST'), (2, 'PARENB CRTSCTS'), (3, 'ECHO ICANON ISIG IEXTEN')) for n in ns.split() if a[i] & getattr(termios, n)]
out['signal'], out['maker'], out['imei'] = m.signalStrength, m.manufacturer, m.imei
out['refs'] = [m.sendSms(n, x).reference for n, x in plan['send']]
out['ussd'] = m.sendUssd('*100#').message
for i in range(len(plan['stored'])):
    put('\r\n+CMTI: "SM",%d\r\n' % i)
    end = time.time() + 10
    while len(got) <= i and time.time() < end:
        time.sleep(0.02)
m.close()
out['got'], out['sent'] = got, sent
print('RESULT' + json.dumps(out))
'''
PYTHON = '/opt/venv/bin/python'


def run_pty(case):
    for left in (3, 2, 1, 0):       # these sessions run in real time: a busy machine may delay the device
        try:
            return session(case)
        except Violation:
            if not left:
                raise


def session(case):
    from vf import refpdu
    signal, maker, imei, send, stored, ussd, pieces, rate = case
    pdus = []
    for number, text in stored:
        data, n = refpdu.enc_deliver('+27831234567', number, 'gsm7' if refpdu.is_gsm7(text) else 'ucs2', text, (2024, 2, 29, 23, 59, 58, 8))[:2]
        data = bytes(data)
        pdus.append([len(data) - 1 - data[0], data.hex().upper()])
    import json
    plan = dict(signal=signal, maker=maker, imei=imei, send=send, stored=pdus, ussd=ussd, pieces=pieces, rate=rate)
    with tempfile.TemporaryDirectory() as tmp:
        try:
            p = subprocess.run([PYTHON, '-c', PROGRAM, REPO, json.dumps(plan)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=tmp, timeout=200)
        except subprocess.TimeoutExpired:
            raise Violation('the program on the pseudo-terminal did not end')
    out = [l for l in p.stdout.decode().splitlines() if l.startswith('RESULT')]
    require(bool(out), 'the program on the pseudo-terminal failed: {0}', p.stderr.decode()[-600:])
    out = json.loads(out[0][6:])
    equal((out['signal'], out['maker'], out['imei']), (signal, maker, imei), 'information')
    equal((out['rate'], out['frame'], out['altered']), ([rate or 115200], [True, True], []), 'rate, 8 data bits and one stop bit, settings that alter what passes')
    equal(len(out['refs']), len(send), 'messages sent')
    texts, pos = [], 0
    for number, text in send:
        got = ''
        while pos < len(out['sent']):
            part = refpdu.parse_submit(bytes.fromhex(out['sent'][pos]))
            pos += 1
            got += part['text']
            cs = [d for i, d in (part['udh'] or []) if i in (0, 8)]
            if not cs or cs[0][-1] == cs[0][-2]:
                break
        texts.append(got)
    equal(texts, [t for _, t in send], 'texts as the device got them')
    equal(out['ussd'], ussd, 'USSD answer')
    equal(out['got'], [list(x) for x in stored], 'messages received')
    return ['pieces of %d' % pieces if pieces < 10 else 'large pieces']


def gen_pty():
    number = st.text('0123456789', min_size=3, max_size=12)
    text = st.one_of(st.text('abc @ABC 019_{}[]', min_size=1, max_size=200), st.text(st.sampled_from('a\u20ac\u4e2d\u0416z'), min_size=1, max_size=90))
    word = st.text('ABCDEFG 123', min_size=1, max_size=12).map(lambda t: 'M' + t.strip())
    return st.tuples(st.integers(1, 31), word, st.text('0123456789', min_size=15, max_size=15), st.lists(st.tuples(number, text).map(list), max_size=2),
                     st.lists(st.tuples(number, text), min_size=1, max_size=2), word, st.sampled_from([1, 3, 7, 1000]),
                     st.sampled_from([0, 1200, 9600, 19200, 38400, 57600, 115200, 230400]))


def like(name, run, gen, quick, **kw):
    return Sub('as-' + name.replace(' ', '-'), on_bytes(run), gen, quick=quick, thorough=quick * 20, rule='the cases of ' + name + ' on a port that exchanges bytes', **kw)


SUBS = [
    Sub('octets', on_bytes(run_octets), gen_octets, quick=1200, thorough=30000, enum=enum_octets, shards=4, rule='commands, responses and notifications of all characters from 0 to 255'),
    like('C12', c12.run, c12.gen, 400),
    like('C12 prompts', c12.run_prompt, c12.gen_prompt, 200, shards=2),
    like('C13', c13.run, c13.gen, 300),
    like('C20', c20.run, c20.gen, 300, shards=4),
    like('C22', c22.run, c22.gen, 300, shards=4),
    like('C24', c24.run, c24.gen, 200, shards=4),
    like('C26', c26.run, c26.gen, 200, shards=4),
    like('C27', c27.run, c27.gen, 150, shards=4),
    like('C31', c31.run, c31.gen, 200),
    like('C36', c36.run, c36.gen, 80, guard=120),
    like('C38', c38.run, c38.gen, 80, guard=120),
    like('C43', c43.run, c43.gen, 80, guard=120),
    like('C45', c45.run, c45.gen, 200, shards=6),
    like('C46', c46.run, c46.gen, 150, shards=6),
    Sub('pyserial', run_pty, gen_pty, quick=24, thorough=300, shards=8, guard=300, rule='sessions with the installed pyserial on a pseudo-terminal'),
]
